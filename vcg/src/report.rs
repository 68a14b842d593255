//! Runs the harnesses of a property and writes what happened as JSON for the driver.
use crate::engine::{self, Harness, Mode, Outcome};
use crate::smt;
use crate::watch;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn jf(x: f64) -> String { format!("{}", x) }

type Entry = (&'static str, Mode, fn(), &'static str);

pub fn zip(sym: Vec<Entry>, conc: Vec<Entry>) -> Vec<Harness> {
    assert_eq!(sym.len(), conc.len());
    sym.into_iter()
        .zip(conc)
        .map(|(s, c)| {
            assert_eq!(s.0, c.0);
            Harness { name: s.0, mode: s.1, sym: s.2, conc: c.2, bounded: s.3 }
        })
        .collect()
}

pub fn main_for(prop: &str, hs: Vec<Harness>) {
    let out_path = std::env::args().nth(1).unwrap_or_else(|| format!("/dev/stdout"));
    let only = std::env::var("VCG_ONLY").ok();
    let verbose = std::env::var("VCG_VERBOSE").is_ok();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    engine::install_panic_hook();
    if let Ok(n) = std::env::var("VCG_SAMPLE") {
        return sample(hs.into_iter().find(|h| h.name == n).expect("no such harness"), seed);
    }
    if std::env::var("VCG_LIST").is_ok() {
        hs.iter().for_each(|h| println!("{}", h.name));
        return;
    }
    let exact = std::env::var("VCG_EXACT").ok();
    let mut hs: Vec<Harness> = hs.into_iter().filter(|h| only.as_ref().map(|o| h.name.contains(o.as_str())).unwrap_or(true) && exact.as_ref().map(|o| h.name == o).unwrap_or(true)).collect();
    {
        let mut names = std::collections::BTreeSet::new();
        for h in &hs {
            assert!(names.insert(h.name), "duplicate harness name {}", h.name);
        }
    }
    hs.reverse();
    let total = hs.len();
    let queue = Arc::new(Mutex::new(hs));
    let results: Arc<Mutex<Vec<(String, Mode, &'static str, Outcome, f64, Vec<Option<(Vec<(String, f64)>, String)>>)>>> = Arc::new(Mutex::new(vec![]));
    let stats = Arc::new(Mutex::new((0u64, 0f64, 0f64)));
    let mut th = vec![];
    let slots: Arc<Mutex<Vec<watch::Slot>>> = Default::default();
    for _ in 0..total.min(8) {
        let slots = slots.clone();
        let (queue, results, stats) = (queue.clone(), results.clone(), stats.clone());
        th.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    slots.lock().unwrap().push(watch::register());
                    loop {
                        let h = match queue.lock().unwrap().pop() {
                            Some(h) => h,
                            None => break,
                        };
                        watch::harness(h.name);
                        let t = std::time::Instant::now();
                        let o = engine::explore(&h);
                        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
                        let mut reps = vec![];
                        for f in &o.failures {
                            let c = seen.entry(f.id.clone()).or_insert(0);
                            *c += 1;
                            reps.push(if *c <= 3 { engine::replay(&h, f, seed) } else { None });
                        }
                        let dt = t.elapsed().as_secs_f64();
                        if verbose {
                            eprintln!("{:60} {:5} paths {:5} obl {:5} ok  {:.1}s", h.name, o.live, o.obligations, o.discharged, dt);
                            for (f, r) in o.failures.iter().zip(&reps) {
                                eprintln!("    FAILED {} [{}] {} {}\n       hyps {:?}\n       replay {:?}", f.id, f.status, f.goal, f.note, f.hyps, r);
                                if std::env::var("VCG_SMT").is_ok() {
                                    eprintln!("{}", f.smt);
                                }
                            }
                            for e in &o.errors {
                                eprintln!("    ERROR {}", e);
                            }
                        }
                        results.lock().unwrap().push((h.name.to_string(), h.mode, h.bounded, o, dt, reps));
                    }
                    smt::STATS.with(|s| {
                        let s = s.borrow();
                        let mut t = stats.lock().unwrap();
                        t.0 += s.queries;
                        t.1 += s.solver_s;
                        t.2 = t.2.max(s.max_s);
                    });
                    watch::done();
                })
                .unwrap(),
        );
    }
    let mut bad = false;
    // a worker may be caught in code that does not come back
    let mut lost: Vec<Option<watch::Live>> = vec![None; th.len()];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let sl = slots.lock().unwrap().clone();
        for (k, s) in sl.iter().enumerate() {
            if lost[k].is_none() && watch::stuck(s, 40.0, 10 << 30) {
                lost[k] = Some(s.lock().unwrap().clone());
            }
        }
        let lost_n = lost.iter().filter(|l| l.is_some()).count();
        if th.iter().filter(|t| !t.is_finished()).count() <= lost_n || (lost_n > 0 && watch::memory() > 10 << 30) {
            break;
        }
    }
    let lost: Vec<watch::Live> = lost.into_iter().flatten().collect();
    if lost.is_empty() {
        for t in th {
            bad |= t.join().is_err();
        }
    }
    for l in &lost {
        let mut o = Outcome::default();
        let f = engine::observed(l.harness, &l.fun, "did not come back within 40 s", l.choices.clone());
        let r = match &l.used {
            Some(u) => Some((u.clone(), f.id.clone() + ": did not come back within 40 s")),
            None => watched_sample(l.harness, &l.choices).map(|(u, w)| (u, format!("{}: {}", f.id, w))),
        };
        o.obligations = 1;
        o.failures.push(f);
        o.per_fun.insert(l.fun.clone(), (1, 0));
        results.lock().unwrap().push((l.harness.to_string(), Mode::Real, "", o, 40.0, vec![r]));
    }
    let total = if lost.is_empty() { total } else { results.lock().unwrap().len() };
    let mut res = results.lock().unwrap();
    res.sort_by(|a, b| a.0.cmp(&b.0));
    let st = stats.lock().unwrap();
    let mut o = String::new();
    o.push_str(&format!("{{\"property\":{},\"queries\":{},\"solver_s\":{:.3},\"max_s\":{:.3},\"complete\":{},\"harnesses\":[\n", js(prop), st.0, st.1, st.2, !bad && res.len() == total));
    let mut first = true;
    for (name, mode, bounded, out, dt, reps) in res.iter() {
        if !first {
            o.push_str(",\n");
        }
        first = false;
        let fails: Vec<String> = out
            .failures
            .iter()
            .zip(reps)
            .map(|(f, r)| {
                format!(
                    "{{\"id\":{},\"goal\":{},\"note\":{},\"hyps\":{},\"status\":{},\"model\":{},\"choices\":{},\"smt\":{},\"replay\":{}}}",
                    js(&f.id),
                    js(&f.goal),
                    js(&f.note),
                    arr(f.hyps.iter().map(|h| js(h)).collect()),
                    js(&f.status),
                    arr(f.model.iter().map(|(n, v)| format!("[{},{}]", js(n), js(&jf(*v)))).collect()),
                    arr(f.choices.iter().map(|c| c.to_string()).collect()),
                    js(&f.smt.chars().take(20000).collect::<String>()),
                    match r {
                        None => "null".to_string(),
                        Some((inp, d)) => format!("{{\"inputs\":{},\"what\":{}}}", arr(inp.iter().map(|(n, v)| format!("[{},{}]", js(n), js(&format!("{:?}", v)))).collect()), js(d)),
                    }
                )
            })
            .collect();
        let funs: Vec<String> = out.per_fun.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect();
        o.push_str(&format!(
            "{{\"name\":{},\"mode\":{},\"bounded\":{},\"paths\":{},\"live\":{},\"obligations\":{},\"discharged\":{},\"by_eval\":{},\"bounded_obligations\":{},\"bounded_discharged\":{},\"wall_s\":{:.3},\"functions\":{{{}}},\"errors\":{},\"failures\":{}}}",
            js(name),
            js(match mode {
                Mode::Real => "reals",
                Mode::Fp => "binary64",
            }),
            js(bounded),
            out.paths,
            out.live,
            out.obligations,
            out.discharged,
            out.by_eval,
            out.bounded,
            out.bounded_ok,
            dt,
            funs.join(","),
            arr(out.errors.iter().map(|e| js(e)).collect()),
            arr(fails)
        ));
    }
    o.push_str("\n]}\n");
    std::fs::write(&out_path, o).unwrap();
    std::process::exit(0);
}

/// The harness at f64, in a process of its own: the inputs on which it hangs or dies, if it does.
fn watched_sample(name: &str, choices: &[usize]) -> Option<(Vec<(String, f64)>, String)> {
    let c: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let p = std::process::Command::new(std::env::current_exe().ok()?).env("VCG_SAMPLE", name).env("VCG_CHOICES", c.join(",")).output().ok()?;
    if p.status.success() {
        return None;
    }
    let o = String::from_utf8_lossy(&p.stdout).to_string();
    let u = o.lines().filter(|l| l.starts_with("INPUT ")).filter_map(|l| l[6..].split_once('=').and_then(|(n, v)| Some((n.to_string(), v.parse().ok()?)))).collect();
    Some((u, if p.status.code().is_none() { "the process died".to_string() } else { "did not come back within 15 s".to_string() }))
}
fn sample(h: Harness, seed: u64) {
    let choices: Vec<usize> = std::env::var("VCG_CHOICES").unwrap_or_default().split(',').filter_map(|c| c.parse().ok()).collect();
    let slot: Arc<Mutex<Option<watch::Slot>>> = Default::default();
    let s2 = slot.clone();
    let t = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            *s2.lock().unwrap() = Some(watch::register());
            watch::harness(h.name);
            engine::sample(&h, &choices, seed)
        })
        .unwrap();
    let start = std::time::Instant::now();
    while !t.is_finished() && start.elapsed().as_secs() < 40 {
        std::thread::sleep(std::time::Duration::from_millis(20));
        if let Some(s) = slot.lock().unwrap().as_ref() {
            if watch::stuck(s, 15.0, 6 << 30) {
                let l = s.lock().unwrap().clone();
                for (n, v) in l.used.iter().flatten() {
                    println!("INPUT {}={:?}", n, v);
                }
                std::process::exit(3);
            }
        }
    }
    std::process::exit(0);
}

//! Solver processes and verification-condition emission.
use crate::engine::{Atom as PA, Mode, Op, P};
use crate::poly::{self, Kind, Norm, Poly, RatFn};
use crate::term::{self, Id, Node};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};

pub struct Solver {
    child: Child,
    stdin: ChildStdin,
    rx: std::sync::mpsc::Receiver<String>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Ans {
    Unsat,
    Sat(Vec<(String, f64)>),
    Unknown(String),
}

pub fn z3_path() -> &'static str {
    if std::path::Path::new("/usr/local/bin/z3-new").exists() { "/usr/local/bin/z3-new" } else { "z3" }
}

impl Solver {
    pub fn start() -> Solver {
        let mut child = Command::new(z3_path())
            .args(["-in", "-smt2", "-memory:3000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3");
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Solver { child, stdin, rx }
    }
    fn talk(&mut self, text: &str, secs: u64) -> Option<Vec<String>> {
        if self.stdin.write_all(text.as_bytes()).is_err() || self.stdin.write_all(b"\n(echo \"<done>\")\n").is_err() || self.stdin.flush().is_err() {
            return None;
        }
        let mut v = vec![];
        let end = std::time::Instant::now() + std::time::Duration::from_secs(secs);
        loop {
            let left = end.saturating_duration_since(std::time::Instant::now());
            match self.rx.recv_timeout(left) {
                Ok(l) => {
                    if l.contains("<done>") {
                        return Some(v);
                    }
                    v.push(l)
                }
                Err(_) => return None,
            }
        }
    }
    pub fn ask(&mut self, q: &Query, timeout_ms: u64) -> Ans {
        let text = format!("(reset)\n(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n{}(check-sat)\n", timeout_ms, q.text);
        let r = match self.talk(&text, timeout_ms / 1000 + 15) {
            Some(r) => r,
            None => {
                let _ = self.child.kill();
                let _ = self.child.wait();
                *self = Solver::start();
                return Ans::Unknown("solver died or hung".into());
            }
        };
        for l in &r {
            match l.trim() {
                "unsat" => return Ans::Unsat,
                "sat" => {
                    if q.values.is_empty() {
                        return Ans::Sat(vec![]);
                    }
                    let names: Vec<&str> = q.values.iter().map(|(_, s)| s.as_str()).collect();
                    let m = self.talk(&format!("(get-value ({}))", names.join(" ")), 15).unwrap_or_default().join(" ");
                    return Ans::Sat(parse_values(&m, &q.values));
                }
                "unknown" => return Ans::Unknown("unknown".into()),
                _ => {}
            }
        }
        Ans::Unknown(format!("solver said: {}", r.join(" | ")))
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn parse_values(s: &str, names: &[(String, String)]) -> Vec<(String, f64)> {
    // ((a0 1.0) (a1 (- 2.5?)) (f0 (fp #b0 #b... #x...)))
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for ch in s.chars() {
        match ch {
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(ch.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    let mut out = vec![];
    for (name, sym) in names {
        if let Some(p) = toks.iter().position(|t| t == sym) {
            let (v, _) = parse_num(&toks, p + 1);
            if let Some(v) = v {
                out.push((name.clone(), v));
            }
        }
    }
    out
}
fn parse_num(t: &[String], p: usize) -> (Option<f64>, usize) {
    if p >= t.len() {
        return (None, p);
    }
    if t[p] == "(" {
        let op = t.get(p + 1).cloned().unwrap_or_default();
        let mut q = p + 2;
        let mut args = vec![];
        if op == "fp" {
            let mut bits = String::new();
            while q < t.len() && t[q] != ")" {
                let s = &t[q];
                if let Some(b) = s.strip_prefix("#b") {
                    bits.push_str(b)
                } else if let Some(h) = s.strip_prefix("#x") {
                    for c in h.chars() {
                        bits.push_str(&format!("{:04b}", c.to_digit(16).unwrap_or(0)));
                    }
                }
                q += 1;
            }
            return (u64::from_str_radix(&bits, 2).ok().map(f64::from_bits), q + 1);
        }
        if op == "_" {
            let k = t.get(q).cloned().unwrap_or_default();
            while q < t.len() && t[q] != ")" {
                q += 1
            }
            let v = match k.as_str() {
                "+oo" => Some(f64::INFINITY),
                "-oo" => Some(f64::NEG_INFINITY),
                "+zero" => Some(0.0),
                "-zero" => Some(-0.0),
                "NaN" => Some(f64::NAN),
                _ => None,
            };
            return (v, q + 1);
        }
        while q < t.len() && t[q] != ")" {
            let (v, n) = parse_num(t, q);
            args.push(v);
            q = n;
        }
        let a: Option<Vec<f64>> = args.into_iter().collect();
        let v = a.and_then(|a| match (op.as_str(), a.as_slice()) {
            ("-", [x]) => Some(-x),
            ("-", [x, y]) => Some(x - y),
            ("/", [x, y]) => Some(x / y),
            ("+", [x, y]) => Some(x + y),
            ("*", [x, y]) => Some(x * y),
            _ => None,
        });
        (v, q + 1)
    } else {
        (t[p].trim_end_matches('?').parse().ok(), p + 1)
    }
}

pub struct Query {
    pub text: String,
    /// (variable name, smt symbol)
    pub values: Vec<(String, String)>,
}

thread_local! {
    pub static SOLVER: RefCell<Option<Solver>> = RefCell::new(None);
    pub static STATS: RefCell<Stats> = RefCell::new(Stats::default());
    static POSCACHE: RefCell<HashMap<(Id, String), bool>> = RefCell::new(HashMap::new());
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub solver_s: f64,
    pub max_s: f64,
    pub backends: BTreeMap<String, u64>,
}

pub fn reset_cache() { POSCACHE.with(|c| c.borrow_mut().clear()) }

thread_local! {
    static ANSWERS: RefCell<HashMap<String, Ans>> = RefCell::new(HashMap::new());
}
/// Answers are remembered within a run: the same query (same text, same inputs) is asked once.
pub fn ask(q: &Query, timeout_ms: u64) -> Ans {
    let mut key = q.text.clone();
    for (n, s) in &q.values {
        key.push_str(&format!(";{}={}", n, s));
    }
    if let Some(a) = ANSWERS.with(|c| c.borrow().get(&key).cloned()) {
        return a;
    }
    let a = ask_solver(q, timeout_ms);
    if !matches!(a, Ans::Unknown(_)) {
        ANSWERS.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 50000 {
                c.clear();
            }
            c.insert(key, a.clone());
        });
    }
    a
}
fn ask_solver(q: &Query, timeout_ms: u64) -> Ans {
    SOLVER.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(Solver::start);
        let t = std::time::Instant::now();
        let a = s.ask(q, timeout_ms);
        let dt = t.elapsed().as_secs_f64();
        STATS.with(|st| {
            let mut st = st.borrow_mut();
            st.queries += 1;
            st.solver_s += dt;
            st.max_s = st.max_s.max(dt);
        });
        a
    })
}

pub fn cvc5(q: &Query, timeout_ms: u64) -> Ans {
    let t0 = std::time::Instant::now();
    let mut c = match Command::new("cvc5")
        .args(["--lang=smt2", "--quiet", &format!("--tlimit={}", timeout_ms)])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return Ans::Unknown("no cvc5".into()),
    };
    let _ = c.stdin.take().unwrap().write_all(format!("(set-logic ALL)\n{}(check-sat)\n", q.text).as_bytes());
    let o = c.wait_with_output();
    STATS.with(|st| {
        let mut st = st.borrow_mut();
        st.queries += 1;
        st.solver_s += t0.elapsed().as_secs_f64();
    });
    match o {
        Ok(o) => {
            let s = String::from_utf8_lossy(&o.stdout).to_string();
            if s.trim() == "unsat" {
                Ans::Unsat
            } else if s.trim() == "sat" {
                Ans::Sat(vec![])
            } else {
                Ans::Unknown(s)
            }
        }
        Err(e) => Ans::Unknown(e.to_string()),
    }
}

fn atom_ids(p: &P, out: &mut Vec<Id>) {
    match p {
        P::Cmp(_, a, b) => {
            for x in [a, b] {
                if let PA::S(i) = x {
                    out.push(*i)
                }
            }
        }
        P::IsNan(a) | P::IsInf(a) | P::SignNeg(a) => {
            if let PA::S(i) = a {
                out.push(*i)
            }
        }
        P::Not(a) => atom_ids(a, out),
        P::And(v) | P::Or(v) => v.iter().for_each(|a| atom_ids(a, out)),
        _ => {}
    }
}
fn sid(a: &PA) -> Id {
    match a {
        PA::S(i) => *i,
        PA::F(x) => term::from_f64(*x),
    }
}

/// Build the query `hyps /\ not goal` (or just `hyps` when goal is None).
pub fn build(mode: Mode, hyps: &[P], goal: Option<&P>) -> Query {
    match mode {
        Mode::Real => build_real(hyps, goal),
        Mode::Fp => match goal {
            // hypotheses about other inputs cannot help: leaving them out is sound and keeps queries small
            Some(g) => build_fp(&relevant(hyps, g), goal),
            None => build_fp(hyps, goal),
        },
    }
}
fn prop_vars(p: &P) -> HashSet<Id> {
    let (mut ids, mut vs, mut seen) = (vec![], vec![], HashSet::new());
    atom_ids(p, &mut ids);
    ids.into_iter().for_each(|i| term::vars(i, &mut vs, &mut seen));
    vs.into_iter().map(|x| x.1).collect()
}
fn relevant(hyps: &[P], goal: &P) -> Vec<P> {
    let hv: Vec<HashSet<Id>> = hyps.iter().map(prop_vars).collect();
    let mut keep: Vec<bool> = hv.iter().map(|v| v.is_empty()).collect();
    let mut vs = prop_vars(goal);
    loop {
        let n = vs.len();
        for (i, v) in hv.iter().enumerate() {
            if !keep[i] && !v.is_disjoint(&vs) {
                keep[i] = true;
                vs.extend(v);
            }
        }
        if vs.len() == n && !hv.iter().enumerate().any(|(i, v)| !keep[i] && !v.is_disjoint(&vs)) {
            return hyps.iter().zip(keep).filter(|x| x.1).map(|x| x.0.clone()).collect();
        }
    }
}

// ------------------------------------------------------------------ reals

fn pow_bases(i: Id, out: &mut HashSet<Id>, seen: &mut HashSet<Id>) {
    if !seen.insert(i) {
        return;
    }
    match term::node(i) {
        Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => {
            pow_bases(a, out, seen);
            pow_bases(b, out, seen)
        }
        Node::Neg(a) => pow_bases(a, out, seen),
        Node::App(f, xs) => {
            if f == "pow" {
                out.insert(xs[0]);
            }
            xs.iter().for_each(|x| pow_bases(*x, out, seen))
        }
        _ => {}
    }
}

fn map_prop(p: &P, f: &mut dyn FnMut(Id) -> Id) -> P {
    let mut a = |x: &PA| PA::S(f(sid(x)));
    match p {
        P::Cmp(o, x, y) => {
            let (x, y) = (a(x), a(y));
            P::Cmp(*o, x, y)
        }
        P::IsNan(x) => P::IsNan(a(x)),
        P::IsInf(x) => P::IsInf(a(x)),
        P::SignNeg(x) => P::SignNeg(a(x)),
        P::Not(x) => P::Not(Box::new(map_prop(x, f))),
        P::And(v) => P::And(v.iter().map(|x| map_prop(x, f)).collect()),
        P::Or(v) => P::Or(v.iter().map(|x| map_prop(x, f)).collect()),
        p => p.clone(),
    }
}
/// A hypothesis that fixes a variable (k x + c = 0 with rational k, c, or x = y).
fn fixes(p: &P) -> Option<(Id, Id)> {
    match p {
        P::Cmp(Op::Eq, a, b) => {
            let (a, b) = (sid(a), sid(b));
            if a == b {
                return None;
            }
            if let (Node::Var(_), Node::Var(_)) = (term::node(a), term::node(b)) {
                return Some((a, b));
            }
            let d = term::mk(Node::Sub(a, b));
            let (v, k, c) = term::linear(d)?;
            let v = v?;
            if k.0 == 0 || k.0.abs() >= 1 << 60 || c.0.abs() >= 1 << 60 {
                return None;
            }
            Some((v, term::rat(-c.0 * k.1, c.1 * k.0)))
        }
        P::And(v) => v.iter().find_map(fixes),
        _ => None,
    }
}
fn build_real(hyps: &[P], goal: Option<&P>) -> Query {
    let mut hyps: Vec<P> = hyps.to_vec();
    let mut goal = goal.cloned();
    let mut fixed: Vec<(Id, Id)> = vec![];
    while let Some((v, by)) = hyps.iter().find_map(fixes) {
        let mut memo = HashMap::new();
        let mut f = |i: Id| term::subst(i, v, by, &mut memo);
        hyps = hyps.iter().map(|h| map_prop(h, &mut f)).collect();
        goal = goal.map(|g| map_prop(&g, &mut f));
        for x in fixed.iter_mut() {
            x.1 = f(x.1);
        }
        fixed.push((v, by));
        if fixed.len() > 200 {
            break;
        }
    }
    let mut q = build_real_(&hyps, goal.as_ref());
    for (i, (v, by)) in fixed.iter().enumerate() {
        if let Node::Var(n) = term::node(*v) {
            let t = match term::node(*by) {
                Node::Rat(a, b) => poly::smt_rat((a, b)),
                Node::Var(m) => match q.values.iter().find(|x| x.0 == m) {
                    Some(x) => x.1.clone(),
                    None => continue,
                },
                _ => continue,
            };
            q.text.push_str(&format!("(define-fun fix{} () Real {})\n", i, t));
            q.values.push((n, format!("fix{}", i)));
        }
    }
    q
}
fn build_real_(hyps: &[P], goal: Option<&P>) -> Query {
    // which bases of powers are provably positive here
    let mut ids = vec![];
    hyps.iter().for_each(|h| atom_ids(h, &mut ids));
    if let Some(g) = goal {
        atom_ids(g, &mut ids)
    }
    let (mut bases, mut seen) = (HashSet::new(), HashSet::new());
    ids.iter().for_each(|i| pow_bases(*i, &mut bases, &mut seen));
    let mut pos: HashSet<Id> = HashSet::new();
    let hk = format!("{:?}", hyps);
    for b in bases {
        if let Some((n, _)) = term::as_rat(b) {
            if n > 0 {
                pos.insert(b);
            }
            continue;
        }
        let key = (b, hk.clone());
        let known = POSCACHE.with(|c| c.borrow().get(&key).cloned());
        let k = known.unwrap_or_else(|| {
            let g = P::Cmp(Op::Lt, PA::F(0.0), PA::S(b));
            let r = ask(&emit_real(hyps, Some(&g), &HashSet::new()), 2000) == Ans::Unsat;
            POSCACHE.with(|c| c.borrow_mut().insert(key, r));
            r
        });
        if k {
            pos.insert(b);
        }
    }
    emit_real(hyps, goal, &pos)
}

struct Emit {
    polys: Vec<Poly>,
}

fn emit_real(hyps: &[P], goal: Option<&P>, pos: &HashSet<Id>) -> Query {
    let isp = |i: Id| pos.contains(&i);
    let mut n = Norm::new(&isp);
    let mut dens: Vec<Poly> = vec![];
    // first pass: normal forms
    #[derive(Debug)]
    enum Q {
        T,
        F,
        U(String),
        Cmp(Op, RatFn),
        Not(Box<Q>),
        And(Vec<Q>),
        Or(Vec<Q>),
    }
    fn conv(p: &P, n: &mut Norm, dens: &mut Vec<Poly>) -> Q {
        match p {
            P::T => Q::T,
            P::F => Q::F,
            P::Cmp(op, a, b) => {
                let (ia, ib) = (sid(a), sid(b));
                if ia == ib {
                    return match op {
                        Op::Lt => Q::F,
                        _ => Q::T,
                    };
                }
                let d = n.norm(ia).and_then(|x| n.norm(ib).and_then(|y| n.add(&x, &y, -1)));
                match d {
                    Ok(d) => {
                        if d.d.is_const().is_none() {
                            dens.push(d.d.clone());
                        }
                        Q::Cmp(*op, d)
                    }
                    Err(_) => Q::U(format!("{:?} {} {}", op, term::show(ia), term::show(ib))),
                }
            }
            P::IsNan(_) => Q::F,
            P::IsInf(a) => if term::has_nonfinite(sid(a)) { Q::T } else { Q::F },
            P::SignNeg(a) => conv(&P::Cmp(Op::Lt, *a, PA::F(0.0)), n, dens),
            P::Not(a) => Q::Not(Box::new(conv(a, n, dens))),
            P::And(v) => Q::And(v.iter().map(|a| conv(a, n, dens)).collect()),
            P::Or(v) => Q::Or(v.iter().map(|a| conv(a, n, dens)).collect()),
        }
    }
    let mut qs: Vec<Q> = hyps.iter().map(|h| conv(h, &mut n, &mut dens)).collect();
    if let Some(g) = goal {
        let q = conv(g, &mut n, &mut dens);
        qs.push(Q::Not(Box::new(q)));
    }
    // collect all polynomials to fix exponent units
    let mut em = Emit { polys: dens.clone() };
    fn collect(q: &Q, e: &mut Emit) {
        match q {
            Q::Cmp(_, f) => {
                e.polys.push(f.n.clone());
                e.polys.push(f.d.clone());
            }
            Q::Not(a) => collect(a, e),
            Q::And(v) | Q::Or(v) => v.iter().for_each(|a| collect(a, e)),
            _ => {}
        }
    }
    qs.iter().for_each(|q| collect(q, &mut em));
    // ln g for exp(ln g ...) atoms needs g's relation
    let mut i = 0;
    while i < n.atoms.len() {
        if let Kind::Fn(_, args) = n.atoms[i].kind.clone() {
            for a in &args {
                em.polys.push(a.n.clone());
                em.polys.push(a.d.clone());
            }
        }
        i += 1;
    }
    let refs: Vec<&Poly> = em.polys.iter().collect();
    let units = n.units(&refs);
    let mut used = vec![false; n.atoms.len()];
    let mut body = String::new();
    let sp = |p: &Poly| n.smt_poly(p, &units);
    let sign = |op: Op, f: &RatFn| -> String {
        let nn = sp(&f.n);
        let v = match f.d.is_const() {
            Some(c) => {
                let neg = c.0 < 0;
                match op {
                    Op::Eq | Op::Near => format!("(= {} 0.0)", nn),
                    Op::Lt => format!("({} {} 0.0)", if neg { ">" } else { "<" }, nn),
                    Op::Le => format!("({} {} 0.0)", if neg { ">=" } else { "<=" }, nn),
                }
            }
            None => {
                let d = sp(&f.d);
                match op {
                    Op::Eq | Op::Near => format!("(= {} 0.0)", nn),
                    Op::Lt => format!("(< (* {} {}) 0.0)", nn, d),
                    Op::Le => format!("(<= (* {} {}) 0.0)", nn, d),
                }
            }
        };
        v
    };
    let mut ucount = HashMap::new();
    fn pr(q: &Q, sign: &dyn Fn(Op, &RatFn) -> String, uc: &mut HashMap<String, usize>) -> String {
        match q {
            Q::T => "true".into(),
            Q::F => "false".into(),
            Q::U(s) => {
                let k = uc.len();
                let i = *uc.entry(s.clone()).or_insert(k);
                format!("u{}", i)
            }
            Q::Cmp(op, f) => sign(*op, f),
            Q::Not(a) => format!("(not {})", pr(a, sign, uc)),
            Q::And(v) if v.is_empty() => "true".into(),
            Q::Or(v) if v.is_empty() => "false".into(),
            Q::And(v) => format!("(and {})", v.iter().map(|a| pr(a, sign, uc)).collect::<Vec<_>>().join(" ")),
            Q::Or(v) => format!("(or {})", v.iter().map(|a| pr(a, sign, uc)).collect::<Vec<_>>().join(" ")),
        }
    }
    for q in &qs {
        body.push_str(&format!("(assert {})\n", pr(q, &sign, &mut ucount)));
    }
    let mut dd = HashSet::new();
    for d in &dens {
        let s = sp(d);
        if dd.insert(s.clone()) {
            body.push_str(&format!("(assert (not (= {} 0.0)))\n", s));
        }
    }
    // axioms of atoms
    let mut ax = String::new();
    let sq = |f: &RatFn, other: &str, op: &str| -> String {
        // f op other with denominators cleared (den non-zero assumed and asserted)
        match f.d.is_const() {
            Some(c) if c.0 > 0 => format!("({} {} (* {} {}))", op, n.smt_poly(&f.n, &units), poly::smt_rat(c), other),
            _ => {
                let d = n.smt_poly(&f.d, &units);
                if op == "=" {
                    format!("(= {} (* {} {}))", n.smt_poly(&f.n, &units), d, other)
                } else {
                    format!("({} (* {} {}) (* {} {} {}))", op, n.smt_poly(&f.n, &units), d, d, d, other)
                }
            }
        }
    };
    // smt_poly clears negative exp exponents by scaling with positive powers; with such arguments
    // the cleared form is not the value, so axioms comparing values skip them
    let clean = |f: &RatFn| f.n.0.keys().chain(f.d.0.keys()).all(|m| m.iter().all(|(_, e)| e.0 > 0));
    for (i, a) in n.atoms.iter().enumerate() {
        used[i] = true;
        let v = format!("a{}", i);
        match &a.kind {
            Kind::Var(_) => {}
            Kind::Pi => ax.push_str(&format!("(assert (and (> {0} 3.14159265) (< {0} 3.14159266)))\n", v)),
            Kind::Inf => ax.push_str(&format!("(assert (> {} 1000000000000000000000000000000.0))\n", v)),
            Kind::Exp(m, d) => {
                ax.push_str(&format!("(assert (> {} 0.0))\n", v));
                if m.is_empty() && d.is_const().is_some() && *units.get(&i).unwrap_or(&1) == 1 {
                    ax.push_str(&format!("(assert (and (> {0} 2.718281828) (< {0} 2.718281829)))\n", v));
                }
                if m.len() == 1 && d.is_const().is_some() && m[0].1 == (1, 1) {
                    let u = *units.get(&i).unwrap_or(&1);
                    if let Kind::Fn("ln", args) = &n.atoms[m[0].0].kind {
                        if u <= 4 && clean(&args[0]) {
                            let p = vec![v.clone(); u as usize];
                            let p = if u == 1 { v.clone() } else { format!("(* {})", p.join(" ")) };
                            ax.push_str(&format!("(assert {})\n", sq(&args[0], &p, "=")));
                        }
                    }
                }
                // monotone: sign of the exponent against one
                if !m.is_empty() && d.is_const().is_some() && m.iter().all(|(j, e)| e.1 == 1 && e.0 > 0 && e.0 < 5 && !matches!(n.atoms[*j].kind, Kind::Exp(..))) {
                    let mut f = vec![];
                    for (j, e) in m {
                        for _ in 0..e.0 {
                            f.push(format!("a{}", j));
                        }
                    }
                    let p = if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) };
                    ax.push_str(&format!("(assert (and (= (> {0} 0.0) (> {1} 1.0)) (= (= {0} 0.0) (= {1} 1.0))))\n", p, v));
                }
            }
            Kind::Fn(f, args) => match *f {
                "sin" | "cos" => {
                    ax.push_str(&format!("(assert (and (<= {0} 1.0) (>= {0} (- 1.0))))\n", v));
                    if *f == "sin" {
                        for (j, b) in n.atoms.iter().enumerate() {
                            if let Kind::Fn("cos", bargs) = &b.kind {
                                if bargs == args {
                                    ax.push_str(&format!("(assert (= (+ (* {0} {0}) (* a{1} a{1})) 1.0))\n", v, j));
                                }
                            }
                        }
                    }
                }
                "sqrt" if clean(&args[0]) => {
                    ax.push_str(&format!("(assert (=> {} (and (>= {2} 0.0) {})))\n", sq(&args[0], "0.0", ">="), sq(&args[0], &format!("(* {0} {0})", v), "="), v));
                }
                "ln" if clean(&args[0]) => {
                    ax.push_str(&format!(
                        "(assert (=> {} (and (= {} (> {v} 0.0)) (= {} (= {v} 0.0)))))\n",
                        sq(&args[0], "0.0", ">"),
                        sq(&args[0], "1.0", ">"),
                        sq(&args[0], "1.0", "="),
                        v = v
                    ));
                }
                "pow" if clean(&args[0]) && clean(&args[1]) => {
                    let (b, e) = (&args[0], &args[1]);
                    ax.push_str(&format!("(assert (=> {} (> {} 0.0)))\n", sq(b, "0.0", ">"), v));
                    ax.push_str(&format!("(assert (=> {} (= {} 1.0)))\n", sq(b, "1.0", "="), v));
                    ax.push_str(&format!("(assert (=> {} (= {} 1.0)))\n", sq(e, "0.0", "="), v));
                    ax.push_str(&format!("(assert (=> (and {} {}) (= {} 0.0)))\n", sq(b, "0.0", "="), sq(e, "0.0", ">"), v));
                    ax.push_str(&format!("(assert (=> {} {}))\n", sq(e, "1.0", "="), sq(b, &v, "=")));
                    // pow(b, e + k) = pow(b, e) b^k
                    for (j, o) in n.atoms.iter().enumerate() {
                        if j == i {
                            continue;
                        }
                        if let Kind::Fn("pow", oa) = &o.kind {
                            if oa[0] == *b && b.d.is_const() == Some((1, 1)) {
                                if let Ok(df) = n.add(&oa[1], e, -1) {
                                    if let (Some(k), Some((1, 1))) = (df.n.is_const(), df.d.is_const()) {
                                        if k.1 == 1 && k.0 > 0 && k.0 <= 4 {
                                            let bb = vec![n.smt_poly(&b.n, &units); k.0 as usize].join(" ");
                                            ax.push_str(&format!("(assert (=> (not {}) (= a{} (* {} {}))))\n", sq(b, "0.0", "="), j, v, bb));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            },
        }
    }
    // congruence of uninterpreted atoms
    let fns: Vec<(usize, &'static str, &Vec<RatFn>)> = n
        .atoms
        .iter()
        .enumerate()
        .filter_map(|(i, a)| if let Kind::Fn(f, xs) = &a.kind { Some((i, *f, xs)) } else { None })
        .collect();
    if fns.len() <= 24 {
        for x in 0..fns.len() {
            for y in 0..x {
                if fns[x].1 == fns[y].1 && fns[x].2.len() == fns[y].2.len() && fns[x].2.iter().chain(fns[y].2.iter()).all(clean) {
                    let eqs: Vec<String> = fns[x]
                        .2
                        .iter()
                        .zip(fns[y].2.iter())
                        .map(|(a, b)| {
                            format!(
                                "(= (* {} {}) (* {} {}))",
                                n.smt_poly(&a.n, &units),
                                n.smt_poly(&b.d, &units),
                                n.smt_poly(&b.n, &units),
                                n.smt_poly(&a.d, &units)
                            )
                        })
                        .collect();
                    ax.push_str(&format!("(assert (=> (and {}) (= a{} a{})))\n", eqs.join(" "), fns[x].0, fns[y].0));
                }
            }
        }
    }
    let mut text = String::new();
    let mut values = vec![];
    for (i, a) in n.atoms.iter().enumerate() {
        text.push_str(&format!("(declare-const a{} Real) ; {}\n", i, describe(&a.kind)));
        if let Kind::Var(s) = &a.kind {
            values.push((s.clone(), format!("a{}", i)));
        }
    }
    for i in 0..ucount.len() {
        text.push_str(&format!("(declare-const u{} Bool)\n", i));
    }
    text.push_str(&ax);
    text.push_str(&body);
    Query { text, values }
}
fn describe(k: &Kind) -> String {
    let s = match k {
        Kind::Var(s) => s.clone(),
        Kind::Pi => "pi".into(),
        Kind::Inf => "inf".into(),
        Kind::Exp(m, _) => format!("exp of monomial {:?}", m),
        Kind::Fn(f, xs) => format!("{}/{}", f, xs.len()),
    };
    s.replace('\n', " ")
}

// ------------------------------------------------------------------ floats

fn build_fp(hyps: &[P], goal: Option<&P>) -> Query {
    let mut e = Fp { text: String::new(), done: HashMap::new(), values: vec![], muls: vec![], divs: vec![], apps: vec![] };
    let mut body = String::new();
    for h in hyps {
        let s = e.prop(h);
        body.push_str(&format!("(assert {})\n", s));
    }
    if let Some(g) = goal {
        let s = e.prop(g);
        body.push_str(&format!("(assert (not {}))\n", s));
    }
    let mut t = String::from(FP_PRELUDE);
    t.push_str(&e.text);
    t.push_str(&body);
    Query { text: t, values: e.values }
}
struct Fp {
    text: String,
    done: HashMap<Id, String>,
    values: Vec<(String, String)>,
    muls: Vec<(String, String, String)>,
    divs: Vec<(String, String, String)>,
    apps: Vec<(&'static str, String, String)>,
}
/// fmul/fdiv: the rounded product and quotient, known through facts that follow from
/// correct rounding (monotone, exact on representable results); exp/ln: assumed libm contract.
const FP_PRELUDE: &str = r#"(define-sort D () (_ FloatingPoint 11 53))
(define-fun zero () D (_ +zero 11 53))
(define-fun one () D ((_ to_fp 11 53) RNE 1.0))
(define-fun half () D ((_ to_fp 11 53) RNE 0.5))
(define-fun pinf () D (_ +oo 11 53))
(define-fun fin ((x D)) Bool (and (not (fp.isNaN x)) (not (fp.isInfinite x))))
(define-fun neg ((x D)) Bool (fp.isNegative x))
(declare-fun fmul (D D) D)
(declare-fun fdiv (D D) D)
"#;
impl Fp {
    fn prop(&mut self, p: &P) -> String {
        match p {
            P::T => "true".into(),
            P::F => "false".into(),
            P::Cmp(op, a, b) => {
                let (a, b) = (self.term(sid(a)), self.term(sid(b)));
                let o = match op {
                    Op::Lt => "fp.lt",
                    Op::Le => "fp.leq",
                    Op::Eq | Op::Near => "fp.eq",
                };
                format!("({} {} {})", o, a, b)
            }
            P::IsNan(a) => format!("(fp.isNaN {})", self.term(sid(a))),
            P::IsInf(a) => format!("(fp.isInfinite {})", self.term(sid(a))),
            P::SignNeg(a) => format!("(fp.isNegative {})", self.term(sid(a))),
            P::Not(a) => format!("(not {})", self.prop(a)),
            P::And(v) if v.is_empty() => "true".into(),
            P::Or(v) if v.is_empty() => "false".into(),
            P::And(v) => format!("(and {})", v.iter().map(|a| self.prop(a)).collect::<Vec<_>>().join(" ")),
            P::Or(v) => format!("(or {})", v.iter().map(|a| self.prop(a)).collect::<Vec<_>>().join(" ")),
        }
    }
    fn term(&mut self, i: Id) -> String {
        if let Some(s) = self.done.get(&i) {
            return s.clone();
        }
        let name = format!("f{}", i);
        match term::node(i) {
            Node::Var(s) => {
                self.text.push_str(&format!("(declare-const {} D) ; {}\n", name, s));
                self.values.push((s, name.clone()));
            }
            Node::Rat(n, d) => {
                let v = poly::smt_rat((n, d));
                self.text.push_str(&format!("(define-fun {} () D ((_ to_fp 11 53) RNE {}))\n", name, v));
            }
            Node::Inf => self.text.push_str(&format!("(define-fun {} () D (_ +oo 11 53))\n", name)),
            Node::NaN => self.text.push_str(&format!("(define-fun {} () D (_ NaN 11 53))\n", name)),
            Node::Add(a, b) | Node::Sub(a, b) => {
                let op = if matches!(term::node(i), Node::Add(..)) { "fp.add" } else { "fp.sub" };
                let (x, y) = (self.term(a), self.term(b));
                self.text.push_str(&format!("(define-fun {} () D ({} RNE {} {}))\n", name, op, x, y));
            }
            Node::Neg(a) => {
                let x = self.term(a);
                self.text.push_str(&format!("(define-fun {} () D (fp.neg {}))\n", name, x));
            }
            Node::Mul(a, b) => {
                let (x, y) = (self.term(a), self.term(b));
                self.text.push_str(&format!("(define-fun {} () D (fmul {} {}))\n", name, x, y));
                self.text.push_str(&format!(
                    "(assert (and (= (fp.isNaN {r}) (or (fp.isNaN {x}) (fp.isNaN {y}) (and (fp.isInfinite {x}) (fp.isZero {y})) (and (fp.isZero {x}) (fp.isInfinite {y}))))\n\
                     (=> (not (fp.isNaN {r})) (= (neg {r}) (xor (neg {x}) (neg {y}))))\n\
                     (=> (and (fin {x}) (fp.leq (fp.abs {y}) one)) (fp.leq (fp.abs {r}) (fp.abs {x})))\n\
                     (=> (and (fin {y}) (fp.leq (fp.abs {x}) one)) (fp.leq (fp.abs {r}) (fp.abs {y})))\n\
                     (=> (and (not (fp.isNaN {x})) (not (fp.isNaN {r})) (fp.geq (fp.abs {y}) one)) (fp.geq (fp.abs {r}) (fp.abs {x})))\n\
                     (=> (and (not (fp.isNaN {y})) (not (fp.isNaN {r})) (fp.geq (fp.abs {x}) one)) (fp.geq (fp.abs {r}) (fp.abs {y})))\n\
                     (=> (fp.eq {y} one) (= {r} {x})) (=> (fp.eq {x} one) (= {r} {y}))\n\
                     (=> (and (fp.eq {y} (fp.neg one)) (not (fp.isNaN {x}))) (= {r} (fp.neg {x}))) (=> (and (fp.eq {x} (fp.neg one)) (not (fp.isNaN {y}))) (= {r} (fp.neg {y})))\n\
                     (=> (fp.eq {x} (fp.add RNE one one)) (= {r} (fp.add RNE {y} {y}))) (=> (fp.eq {y} (fp.add RNE one one)) (= {r} (fp.add RNE {x} {x})))\n\
                     (= (fmul {x} {y}) (fmul {y} {x}))))\n",
                    r = name, x = x, y = y
                ));
                self.muls.push((name.clone(), x, y));
            }
            Node::Div(a, b) => {
                let (x, y) = (self.term(a), self.term(b));
                self.text.push_str(&format!("(define-fun {} () D (fdiv {} {}))\n", name, x, y));
                self.text.push_str(&format!(
                    "(assert (and (= (fp.isNaN {r}) (or (fp.isNaN {x}) (fp.isNaN {y}) (and (fp.isZero {x}) (fp.isZero {y})) (and (fp.isInfinite {x}) (fp.isInfinite {y}))))\n\
                     (=> (not (fp.isNaN {r})) (= (neg {r}) (xor (neg {x}) (neg {y}))))\n\
                     (=> (and (not (fp.isNaN {r})) (fp.leq (fp.abs {x}) (fp.abs {y}))) (fp.leq (fp.abs {r}) one))\n\
                     (=> (and (not (fp.isNaN {r})) (fp.geq (fp.abs {x}) (fp.abs {y}))) (fp.geq (fp.abs {r}) one))\n\
                     (=> (and (not (fp.isNaN {r})) (fp.leq (fp.add RNE (fp.abs {x}) (fp.abs {x})) (fp.abs {y})) (fin {x})) (fp.leq (fp.abs {r}) half))\n\
                     (=> (and (not (fp.isNaN {r})) (fp.geq (fp.add RNE (fp.abs {x}) (fp.abs {x})) (fp.abs {y})) (fin {y}) (not (fp.isInfinite (fp.add RNE (fp.abs {x}) (fp.abs {x}))))) (fp.geq (fp.abs {r}) half))\n\
                     (=> (fp.eq {y} one) (= {r} {x}))\n\
                     (=> (and (fin {x}) (fin {y}) (not (fp.isZero {y})) (= {x} {y})) (= {r} one))\n\
                     (=> (and (fin {x}) (fp.isInfinite {y})) (fp.isZero {r}))\n\
                     (=> (and (fp.isZero {x}) (not (fp.isNaN {r}))) (fp.isZero {r}))))\n",
                    r = name, x = x, y = y
                ));
                self.divs.push((name.clone(), x, y));
            }
            Node::App(f, xs) => {
                let args: Vec<String> = xs.iter().map(|x| self.term(*x)).collect();
                self.text.push_str(&format!("(declare-const {} D) ; {}\n", name, f));
                let r = &name;
                if args.len() == 1 {
                    let x = args[0].clone();
                    match f {
                        "exp" => self.text.push_str(&format!(
                            "(assert (and (= (fp.isNaN {r}) (fp.isNaN {x})) (=> (not (fp.isNaN {x})) (and (not (neg {r})) (=> (fp.leq {x} zero) (fp.leq {r} one)) (=> (fp.geq {x} zero) (fp.geq {r} one)) (=> (fp.isZero {x}) (= {r} one)) (=> (and (fp.isInfinite {x}) (neg {x})) (fp.isZero {r})) (=> (and (fp.isInfinite {x}) (not (neg {x}))) (and (fp.isInfinite {r}) (not (neg {r}))))))))\n",
                            r = r, x = x)),
                        "ln" => self.text.push_str(&format!(
                            "(assert (and (=> (or (fp.isNaN {x}) (fp.lt {x} zero)) (fp.isNaN {r})) (=> (and (fin {x}) (fp.gt {x} zero)) (and (fin {r}) (=> (fp.leq {x} one) (fp.leq {r} zero)) (=> (fp.geq {x} one) (fp.geq {r} zero)))) (=> (fp.isZero {x}) (and (fp.isInfinite {r}) (neg {r}))) (=> (and (fp.isInfinite {x}) (not (neg {x}))) (and (fp.isInfinite {r}) (not (neg {r}))))))\n",
                            r = r, x = x)),
                        "tanh" => self.text.push_str(&format!(
                            "(assert (and (= (fp.isNaN {r}) (fp.isNaN {x})) (=> (not (fp.isNaN {x})) (and (fp.leq (fp.abs {r}) one) (= (neg {r}) (neg {x})) (=> (fp.isZero {x}) (= {r} {x}))))))\n",
                            r = r, x = x)),
                        "abs" => self.text.push_str(&format!("(assert (= {r} (fp.abs {x})))\n", r = r, x = x)),
                        _ => {}
                    }
                    for (g, y, s) in self.apps.clone() {
                        if g == f {
                            self.text.push_str(&format!("(assert (=> (= {} {}) (= {} {})))\n", x, y, r, s));
                        }
                    }
                    self.apps.push((f, x, name.clone()));
                }
            }
        }
        self.done.insert(i, name.clone());
        name
    }
}

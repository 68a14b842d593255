//! Code of /repo that does not come back: what each worker is executing, and since when.
use std::cell::RefCell;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Default)]
pub struct Live {
    pub harness: &'static str,
    pub fun: String,
    pub choices: Vec<usize>,
    /// f64 inputs drawn so far, when running concretely
    pub used: Option<Vec<(String, f64)>>,
    /// start of the call into /repo, or of what it did after its last branch
    pub since: Option<Instant>,
    pub done: bool,
}
pub type Slot = Arc<Mutex<Live>>;
thread_local! {
    static SLOT: RefCell<Option<Slot>> = RefCell::new(None);
}
pub fn register() -> Slot {
    let s = Slot::default();
    SLOT.with(|x| *x.borrow_mut() = Some(s.clone()));
    s
}
fn with(f: impl FnOnce(&mut Live)) {
    SLOT.with(|x| {
        if let Some(s) = x.borrow().as_ref() {
            f(&mut s.lock().unwrap())
        }
    })
}
pub fn harness(n: &'static str) { with(|l| l.harness = n) }
pub fn done() { with(|l| { l.done = true; l.since = None }) }
pub fn enter(fun: &str, choices: Vec<usize>, used: Option<Vec<(String, f64)>>) {
    with(|l| {
        l.fun = fun.to_string();
        l.choices = choices;
        l.used = used;
        l.since = Some(Instant::now());
        if let Ok(p) = std::env::var("VCG_TRACE") {
            let u: Vec<String> = l.used.iter().flatten().map(|(n, v)| format!("{}={:?}", n, v)).collect();
            let c: Vec<String> = l.choices.iter().map(|c| c.to_string()).collect();
            let _ = std::fs::write(p, format!("{}\n{}\n{}\n{}\n", l.harness, l.fun, c.join(","), u.join(" ")));
        }
    })
}
pub fn progress() { with(|l| if l.since.is_some() { l.since = Some(Instant::now()) }) }
pub fn leave() { with(|l| l.since = None) }

/// resident memory in bytes
pub fn memory() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096
}
/// has this worker been inside one call for longer than that calls ever take?
pub fn stuck(s: &Slot, secs: f64, mem: u64) -> bool {
    let l = s.lock().unwrap();
    match l.since {
        Some(t) if !l.done => t.elapsed().as_secs_f64() > if memory() > mem { 1.0 } else { secs },
        _ => false,
    }
}

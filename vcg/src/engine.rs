//! Path exploration of the real code, obligations, replay, reporting.
use crate::smt::{self, Ans};
use crate::term::{self, Id};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Real,
    Fp,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Lt,
    Le,
    Eq,
    /// equality; at f64 only up to the accuracy of a numeric derivative
    Near,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Atom {
    S(Id),
    F(f64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    T,
    F,
    Cmp(Op, Atom, Atom),
    IsNan(Atom),
    IsInf(Atom),
    SignNeg(Atom),
    Not(Box<P>),
    And(Vec<P>),
    Or(Vec<P>),
}
impl P {
    pub fn not(self) -> P {
        match self {
            P::T => P::F,
            P::F => P::T,
            P::Not(a) => *a,
            a => P::Not(Box::new(a)),
        }
    }
    pub fn implies(self, o: P) -> P { P::Or(vec![self.not(), o]) }
    pub fn from(b: bool) -> P { if b { P::T } else { P::F } }
    pub fn show(&self) -> String {
        let a = |x: &Atom| match x {
            Atom::S(i) => term::show(*i),
            Atom::F(f) => format!("{:?}", f),
        };
        match self {
            P::T => "true".into(),
            P::F => "false".into(),
            P::Cmp(o, x, y) => format!("{} {} {}", a(x), match o { Op::Lt => "<", Op::Le => "<=", Op::Eq | Op::Near => "==" }, a(y)),
            P::IsNan(x) => format!("isnan({})", a(x)),
            P::IsInf(x) => format!("isinf({})", a(x)),
            P::SignNeg(x) => format!("signneg({})", a(x)),
            P::Not(x) => format!("!({})", x.show()),
            P::And(v) => format!("({})", v.iter().map(|p| p.show()).collect::<Vec<_>>().join(" && ")),
            P::Or(v) => format!("({})", v.iter().map(|p| p.show()).collect::<Vec<_>>().join(" || ")),
        }
    }
    fn holds(&self, mode: Mode) -> Option<bool> {
        // evaluation over f64; None = inconclusive
        let f = |x: &Atom| match x {
            Atom::F(f) => *f,
            Atom::S(_) => f64::NAN,
        };
        Some(match self {
            P::T => true,
            P::F => false,
            P::Cmp(op, x, y) => {
                let (x, y) = (f(x), f(y));
                if mode == Mode::Fp {
                    match op {
                        Op::Lt => x < y,
                        Op::Le => x <= y,
                        Op::Eq | Op::Near => x == y,
                    }
                } else {
                    // y is the oracle side by convention
                    if y.is_nan() || (y.is_infinite() && x != y && (*op == Op::Eq || *op == Op::Near)) {
                        return None;
                    }
                    let tol = tolerance() * e(|e| if e.rel { 0f64 } else { 1f64 }).max(x.abs().min(1e300)).max(y.abs().min(1e300));
                    match op {
                        Op::Eq => x == y || (x - y).abs() <= tol,
                        Op::Near => x == y || (x - y).abs() <= 1e4 * tol,
                        Op::Lt => x < y,
                        Op::Le => x <= y + tol,
                    }
                }
            }
            P::IsNan(x) => f(x).is_nan(),
            P::IsInf(x) => f(x).is_infinite(),
            P::SignNeg(x) => f(x).is_sign_negative(),
            P::Not(a) => !a.holds(mode)?,
            P::And(v) => {
                for p in v {
                    if !p.holds(mode)? {
                        return Some(false);
                    }
                }
                true
            }
            P::Or(v) => {
                let mut none = false;
                for p in v {
                    match p.holds(mode) {
                        Some(true) => return Some(true),
                        None => none = true,
                        _ => {}
                    }
                }
                if none {
                    return None;
                }
                false
            }
        })
    }
}

pub struct Abort(pub &'static str);

#[derive(Clone, Debug)]
pub struct Obl {
    pub fun: String,
    pub label: String,
    pub goal: P,
    pub nhyp: usize,
    pub note: String,
}

#[derive(Default)]
struct Eng {
    mode: Option<Mode>,
    concrete: bool,
    decisions: Vec<(usize, usize, bool)>, // taken, arity, is_choice
    pos: usize,
    pending: Vec<Vec<(usize, usize, bool)>>,
    hyps: Vec<P>,
    obls: Vec<Obl>,
    fun: String,
    exact: bool,
    real: bool,
    ints: BTreeSet<String>,
    // concrete
    given: HashMap<String, f64>,
    used: Vec<(String, f64)>,
    rng: u64,
    choices: Vec<usize>,
    cpos: usize,
    cfail: Vec<(String, String)>,
    csample: u64,
    fine: bool,
    /// compare relatively, whatever the magnitude
    rel: bool,
    /// numbers to look around
    near: Vec<f64>,
}
thread_local! {
    static E: RefCell<Eng> = RefCell::new(Eng::default());
    pub static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}
fn e<T>(f: impl FnOnce(&mut Eng) -> T) -> T { E.with(|x| f(&mut x.borrow_mut())) }

pub fn mode() -> Mode { e(|x| x.mode.unwrap_or(Mode::Real)) }
pub fn is_concrete() -> bool { e(|x| x.concrete) }
pub fn in_real_code() -> bool { e(|x| x.real) }

/// In a harness with a stated bound: what this path proves is not subject to it (no extent was fixed).
pub fn exact() { e(|x| x.exact = true) }

/// The function whose contract the following obligations belong to.
pub fn fun(name: &str) { e(|x| x.fun = name.to_string()) }

pub fn assume(p: P) {
    if is_concrete() {
        if p.holds(mode()) == Some(false) {
            std::panic::panic_any(Abort("reject"));
        }
        return;
    }
    let p = simp(p);
    match p {
        P::T => {}
        P::F => std::panic::panic_any(Abort("assume false")),
        p => e(|x| x.hyps.push(p)),
    }
}

pub fn prove(label: &str, p: P) { prove_note(label, p, String::new()) }
pub fn prove_note(label: &str, p: P, note: String) {
    if is_concrete() {
        if p.holds(mode()) == Some(false) {
            let s = p.show();
            e(|x| {
                let f = x.fun.clone();
                x.cfail.push((format!("{}#{}", f, label), format!("{} {}", s, note)))
            });
        }
        // still counts as reached
        return;
    }
    let g = simp(p);
    e(|x| {
        let o = Obl { fun: x.fun.clone(), label: label.to_string(), goal: g, nhyp: x.hyps.len(), note };
        x.obls.push(o)
    });
}
/// An obligation decided by evaluation alone.
pub fn check(label: &str, ok: bool, note: impl FnOnce() -> String) {
    let n = if ok { String::new() } else { note() };
    prove_note(label, P::from(ok), n)
}

fn simp(p: P) -> P {
    match p {
        P::Cmp(op, a, b) => {
            let op = if op == Op::Near { Op::Eq } else { op };
            if let (Some(x), Some(y)) = (rat_of(&a), rat_of(&b)) {
                let l = x.0.checked_mul(y.1);
                let r = y.0.checked_mul(x.1);
                if let (Some(l), Some(r)) = (l, r) {
                    return P::from(match op {
                        Op::Lt => l < r,
                        Op::Le => l <= r,
                        Op::Eq | Op::Near => l == r,
                    });
                }
            }
            if mode() == Mode::Real {
                if let (Atom::S(i), Atom::S(j)) = (a, b) {
                    if i == j {
                        return P::from(op != Op::Lt);
                    }
                }
            }
            P::Cmp(op, a, b)
        }
        P::Not(a) => simp(*a).not(),
        P::And(v) => {
            let mut o = vec![];
            for p in v {
                match simp(p) {
                    P::T => {}
                    P::F => return P::F,
                    P::And(w) => o.extend(w),
                    p => o.push(p),
                }
            }
            if o.is_empty() { P::T } else if o.len() == 1 { o.pop().unwrap() } else { P::And(o) }
        }
        P::Or(v) => {
            let mut o = vec![];
            for p in v {
                match simp(p) {
                    P::F => {}
                    P::T => return P::T,
                    p => o.push(p),
                }
            }
            if o.is_empty() { P::F } else if o.len() == 1 { o.pop().unwrap() } else { P::Or(o) }
        }
        p => p,
    }
}
fn rat_of(a: &Atom) -> Option<(i128, i128)> {
    match a {
        Atom::S(i) => term::as_rat(*i),
        Atom::F(f) => term::as_rat(term::from_f64(*f)),
    }
}

const BRANCH_TIMEOUT: u64 = 3000;
pub const MAX_PATHS: usize = 20000;

fn decide(arity: usize, choice: bool, feasible: impl Fn(usize) -> bool) -> usize {
    let (have, pos) = e(|x| (x.decisions.len(), x.pos));
    if pos < have {
        let d = e(|x| {
            x.pos += 1;
            x.decisions[pos]
        });
        return d.0;
    }
    let ok: Vec<usize> = (0..arity).filter(|i| feasible(*i)).collect();
    if ok.is_empty() {
        std::panic::panic_any(Abort("infeasible"));
    }
    e(|x| {
        for alt in ok.iter().skip(1).rev() {
            let mut p = x.decisions.clone();
            p.push((*alt, arity, choice));
            x.pending.push(p);
        }
        x.decisions.push((ok[0], arity, choice));
        x.pos += 1;
    });
    ok[0]
}

/// Symbolic branch on a condition: both outcomes are explored when both are feasible.
pub fn branch(p: P) -> bool {
    let p = simp(p);
    match p {
        P::T => return true,
        P::F => return false,
        _ => {}
    }
    crate::watch::progress();
    if e(|x| x.decisions.len()) > 4000 {
        prove_note("terminates", P::F, "no end after 4000 branches on symbolic values".into());
        std::panic::panic_any(Abort("code panicked"));
    }
    let hyps = e(|x| x.hyps.clone());
    let np = p.clone().not();
    if hyps.contains(&p) {
        return true;
    }
    if hyps.contains(&np) {
        return false;
    }
    let m = mode();
    let r = decide(2, false, |i| {
        if m == Mode::Fp {
            // feasible unless the hypotheses about these inputs imply the opposite
            let opposite = if i == 0 { np.clone() } else { p.clone() };
            return smt::ask(&smt::build(m, &hyps, Some(&opposite)), BRANCH_TIMEOUT) != Ans::Unsat;
        }
        let mut h = hyps.clone();
        h.push(if i == 0 { p.clone() } else { np.clone() });
        smt::ask(&smt::build(m, &h, None), BRANCH_TIMEOUT) != Ans::Unsat
    });
    e(|x| x.hyps.push(if r == 0 { p } else { np }));
    crate::watch::progress();
    r == 0
}

/// Demonic choice among `n` alternatives; every one is explored.
pub fn choose(n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    if is_concrete() {
        return e(|x| {
            let v = if x.cpos < x.choices.len() { x.choices[x.cpos] } else { 0 };
            x.cpos += 1;
            v.min(n - 1)
        });
    }
    decide(n, true, |_| true)
}

/// Mark a fresh name as ranging over the integers (only used for definedness of powers).
pub fn mark_integer(name: &str) { e(|x| { x.ints.insert(name.to_string()); }) }
pub fn is_integer_name(name: &str) -> bool { e(|x| x.ints.contains(name)) }

pub fn concrete_value(name: &str) -> f64 {
    e(|x| {
        if let Some((_, v)) = x.used.iter().find(|(n, _)| n == name) {
            return *v;
        }
        let v = if let Some(v) = x.given.get(name) {
            *v
        } else {
            // xorshift
            let mut r = x.rng;
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            x.rng = r;
            let specials = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0, -0.5, 1.5, 0.25];
            let u = (r >> 11) as f64 / (1u64 << 53) as f64;
            if !x.near.is_empty() && (r >> 45) % 4 == 0 {
                // by a distance of any magnitude, on either side
                let (c, m) = (x.near[(r >> 30) as usize % x.near.len()], 10f64.powf((r >> 9) as f64 % 1000.0 / 1000.0 * 18.0 - 15.0));
                c + if (r >> 47) % 2 == 0 { m } else { -m }
            } else if x.mode == Some(Mode::Fp) {
                let sp = [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e308, -1e308, 800.0, -800.0, f64::EPSILON, 0.5, 1e-300, 36.0, -36.0, 709.5, -745.0];
                match (r >> 3) % 3 {
                    0 => sp[(r >> 20) as usize % sp.len()],
                    1 => (u - 0.5) * 60.0,
                    _ => f64::from_bits(r),
                }
            } else if x.fine && (r >> 5) % 2 == 0 {
                (u - 0.5) * 60.0
            } else if x.csample < 3 || (r >> 5) % 5 == 0 {
                specials[(r >> 20) as usize % specials.len()]
            } else if (r >> 5) % 5 == 1 {
                (u - 0.5) * 30.0
            } else {
                (u - 0.5) * 6.0
            }
        };
        x.used.push((name.to_string(), v));
        v
    })
}

/// Run code of /repo: records definedness conditions of the operations it performs, and turns a
/// panic into a failed obligation.
pub fn real<T>(f: impl FnOnce() -> T) -> T {
    let was = e(|x| std::mem::replace(&mut x.real, true));
    if !was {
        let (fun, choices, used) = e(|x| {
            let c = if x.concrete { x.choices.clone() } else { x.decisions.iter().filter(|d| d.2).map(|d| d.0).collect() };
            (x.fun.clone(), c, x.concrete.then(|| x.used.clone()))
        });
        crate::watch::enter(&fun, choices, used);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    e(|x| x.real = was);
    if !was {
        crate::watch::leave();
    }
    match r {
        Ok(v) => v,
        Err(p) => {
            if p.downcast_ref::<Abort>().is_some() {
                std::panic::resume_unwind(p)
            }
            let m = PANIC_MSG.with(|m| m.borrow().clone());
            prove_note("no panic", P::F, format!("the code panicked: {}", m));
            std::panic::panic_any(Abort("code panicked"))
        }
    }
}
/// Definedness of an operation performed by the code under contract: where the operation may be
/// undefined over the reals, both cases are explored, and in the undefined one its result is a value
/// about which nothing is known (binary64 returns a NaN or an infinity there).
pub fn defined(p: P) -> bool {
    if in_real_code() && !is_concrete() && mode() == Mode::Real { branch(p) } else { true }
}

// ---------------------------------------------------------------- harnesses

pub struct Harness {
    pub name: &'static str,
    pub mode: Mode,
    pub sym: fn(),
    pub conc: fn(),
    pub bounded: &'static str,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub harness: &'static str,
    pub id: String,
    pub goal: String,
    pub note: String,
    pub hyps: Vec<String>,
    pub status: String,
    pub model: Vec<(String, f64)>,
    pub choices: Vec<usize>,
    pub smt: String,
    /// points where the obligation certainly fails, although by a small amount
    pub witnesses: Vec<Vec<(String, f64)>>,
    /// numbers the path and the obligation mention: where a replay also looks
    pub near: Vec<f64>,
}
/// The numbers written in the hypotheses and the goal.
fn numbers(ps: &[P]) -> Vec<f64> {
    fn walk(i: crate::term::Id, seen: &mut BTreeSet<crate::term::Id>, out: &mut Vec<f64>) {
        use crate::term::Node::*;
        if !seen.insert(i) {
            return;
        }
        match crate::term::node(i) {
            Rat(n, d) => {
                let v = n as f64 / d as f64;
                if !out.contains(&v) && out.len() < 40 {
                    out.push(v)
                }
            }
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) => {
                walk(a, seen, out);
                walk(b, seen, out)
            }
            Neg(a) => walk(a, seen, out),
            App(_, xs) => xs.into_iter().for_each(|x| walk(x, seen, out)),
            _ => {}
        }
    }
    fn go(p: &P, seen: &mut BTreeSet<crate::term::Id>, out: &mut Vec<f64>) {
        match p {
            P::Cmp(_, a, b) => [a, b].into_iter().for_each(|x| if let Atom::S(i) = x { walk(*i, seen, out) }),
            P::IsNan(a) | P::IsInf(a) | P::SignNeg(a) => if let Atom::S(i) = a { walk(*i, seen, out) },
            P::Not(p) => go(p, seen, out),
            P::And(ps) | P::Or(ps) => ps.iter().for_each(|p| go(p, seen, out)),
            _ => {}
        }
    }
    let (mut seen, mut out) = (BTreeSet::new(), vec![]);
    ps.iter().for_each(|p| go(p, &mut seen, &mut out));
    out.retain(|x| x.abs() > 1e-300 && x.is_finite());
    out
}
#[derive(Default, Clone)]
pub struct Outcome {
    pub paths: usize,
    pub live: usize,
    pub obligations: usize,
    pub discharged: usize,
    pub failures: Vec<Failure>,
    pub per_fun: BTreeMap<String, (usize, usize)>,
    pub errors: Vec<String>,
    pub by_eval: usize,
    /// of those, the ones under the harness's stated bound
    pub bounded: usize,
    pub bounded_ok: usize,
}

fn prove_timeout() -> u64 { if thorough() { 60000 } else { 12000 } }
pub fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }

pub fn explore(h: &Harness) -> Outcome {
    let mut out = Outcome::default();
    let mut work: Vec<Vec<(usize, usize, bool)>> = vec![vec![]];
    term::reset_arena();
    smt::reset_cache();
    while let Some(pre) = work.pop() {
        if out.paths >= MAX_PATHS {
            out.errors.push(format!("{}: more than {} paths", h.name, MAX_PATHS));
            break;
        }
        out.paths += 1;
        e(|x| {
            *x = Eng::default();
            x.mode = Some(h.mode);
            x.decisions = pre;
        });
        crate::sym::reset_path();
        let r = catch_unwind(AssertUnwindSafe(h.sym));
        let (obls, hyps, dec, pending) = e(|x| (std::mem::take(&mut x.obls), std::mem::take(&mut x.hyps), x.decisions.clone(), std::mem::take(&mut x.pending)));
        e(|x| x.real = false);
        work.extend(pending);
        let mut dead = false;
        if let Err(p) = r {
            match p.downcast_ref::<Abort>() {
                Some(Abort("code panicked")) => {}
                Some(Abort(_)) => dead = obls.is_empty(),
                None => {
                    let m = PANIC_MSG.with(|m| m.borrow().clone());
                    out.errors.push(format!("{}: harness panicked: {}", h.name, m));
                    continue;
                }
            }
        }
        if dead {
            continue;
        }
        // vacuity: the path's hypotheses must not be contradictory
        if !hyps.is_empty() && smt::ask(&smt::build(h.mode, &hyps, None), BRANCH_TIMEOUT) == Ans::Unsat {
            continue;
        }
        out.live += 1;
        let limited = !h.bounded.is_empty() && !e(|x| x.exact);
        let before = (out.obligations, out.discharged);
        let choices: Vec<usize> = dec.iter().filter(|d| d.2).map(|d| d.0).collect();
        // group by hypothesis prefix, discharge conjunctions first
        let mut groups: BTreeMap<usize, Vec<Obl>> = BTreeMap::new();
        for o in obls {
            groups.entry(o.nhyp).or_default().push(o);
        }
        for (n, g) in groups {
            let hy = &hyps[..n];
            out.obligations += g.len();
            let pend: Vec<&Obl> = g.iter().filter(|o| o.goal != P::T).collect();
            for o in &g {
                let c = out.per_fun.entry(o.fun.clone()).or_insert((0, 0));
                c.0 += 1;
                if o.goal == P::T {
                    c.1 += 1;
                    out.discharged += 1;
                    out.by_eval += 1;
                }
            }
            if pend.is_empty() {
                continue;
            }
            if h.mode == Mode::Real && pend.len() > 1 && pend.len() <= 64 && pend.iter().all(|o| o.goal != P::F) {
                let all = P::And(pend.iter().map(|o| o.goal.clone()).collect());
                if smt::ask(&smt::build(h.mode, hy, Some(&all)), prove_timeout() / 4) == Ans::Unsat {
                    out.discharged += pend.len();
                    for o in &pend {
                        out.per_fun.get_mut(&o.fun).unwrap().1 += 1;
                    }
                    continue;
                }
            }
            for o in pend {
                let q = smt::build(h.mode, hy, Some(&o.goal));
                let mut a = if o.goal == P::F { smt::ask(&smt::build(h.mode, hy, None), prove_timeout()) } else { smt::ask(&q, prove_timeout()) };
                if let Ans::Unknown(_) = a {
                    let b = smt::cvc5(&q, prove_timeout());
                    if b == Ans::Unsat {
                        a = b
                    }
                }
                match a {
                    Ans::Unsat => {
                        out.discharged += 1;
                        out.per_fun.get_mut(&o.fun).unwrap().1 += 1;
                    }
                    a => {
                        let (status, model) = match a {
                            Ans::Sat(m) => ("counterexample".to_string(), m),
                            Ans::Unknown(s) => (format!("undecided ({})", s), vec![]),
                            _ => unreachable!(),
                        };
                        if out.failures.len() < 200 {
                            let id = format!("{}#{}", o.fun, o.label);
                            let witnesses = if h.mode == Mode::Real && o.goal != P::F && out.failures.iter().filter(|f| f.id == id).count() < 3 { crate::track::witnesses(hy, &o.goal, &model) } else { vec![] };
                            out.failures.push(Failure {
                                harness: h.name,
                                id,
                                goal: o.goal.show(),
                                note: o.note.clone(),
                                hyps: hy.iter().map(|p| p.show()).collect(),
                                status,
                                model,
                                choices: choices.clone(),
                                smt: q.text.clone(),
                                witnesses,
                                near: numbers(&hy.iter().cloned().chain([o.goal.clone()]).collect::<Vec<_>>()),
                            });
                        }
                    }
                }
            }
        }
        if limited {
            out.bounded += out.obligations - before.0;
            out.bounded_ok += out.discharged - before.1;
        }
    }
    if out.live == 0 {
        out.errors.push(format!("{}: vacuous (no live path)", h.name));
    }
    if out.obligations == 0 {
        out.errors.push(format!("{}: produced no obligation", h.name));
    }
    out
}

/// A failure found by watching rather than by an obligation of the harness.
pub fn observed(harness: &'static str, fun: &str, what: &str, choices: Vec<usize>) -> Failure {
    Failure {
        harness,
        id: format!("{}#terminates", fun),
        goal: "false".into(),
        note: what.into(),
        hyps: vec![],
        status: what.into(),
        model: vec![],
        choices,
        smt: String::new(),
        witnesses: vec![],
        near: vec![],
    }
}
/// Run the harness at f64 on samples (for a supervising thread or process to watch).
pub fn sample(h: &Harness, choices: &[usize], seed: u64) {
    for k in 0..600u64 {
        e(|x| {
            *x = Eng::default();
            x.mode = Some(h.mode);
            x.concrete = true;
            x.choices = choices.to_vec();
            x.rng = 0x9E3779B97F4A7C15u64.wrapping_mul(seed.wrapping_add(k + 1)) | 1;
            x.csample = k;
        });
        crate::sym::reset_path();
        let _ = catch_unwind(AssertUnwindSafe(h.conc));
        e(|x| x.real = false);
    }
}
/// Execute the harness at f64 on the model, then on samples, looking for a real failing input.
/// What a concrete run still takes for rounding.
fn tolerance() -> f64 { e(|x| if x.fine { 1e-10 } else { 1e-7 }) }

pub fn replay(h: &Harness, f: &Failure, seed: u64) -> Option<(Vec<(String, f64)>, String)> {
    let n = if thorough() { 8000 } else if h.mode == Mode::Fp { 3000 } else { 600 };
    let mut same: Option<(Vec<(String, f64)>, String)> = None;
    // the last rounds look for differences just above rounding, at the solver's point and around it
    let fine = if f.status == "counterexample" { 60 } else { 0 };
    for k in 0..n + fine + f.witnesses.len() as u64 {
        let witness = (k >= n + fine).then(|| &f.witnesses[(k - n - fine) as usize]);
        let given: HashMap<String, f64> = if let Some(w) = witness {
            w.iter().cloned().collect()
        } else if k == 0 || (k < 40 && k % 2 == 0) || k == n {
            f.model.iter().cloned().filter(|_| true).collect()
        } else {
            HashMap::new()
        };
        e(|x| {
            *x = Eng::default();
            x.mode = Some(h.mode);
            x.concrete = true;
            x.choices = f.choices.clone();
            // partial models: on later even rounds drop half of the model
            x.given = given;
            x.rng = 0x9E3779B97F4A7C15u64.wrapping_mul(seed.wrapping_add(k + 1)) | 1;
            x.csample = k;
            x.fine = k >= n;
            x.rel = witness.is_some();
            if k >= 40 {
                x.near = f.near.clone();
            }
        });
        crate::sym::reset_path();
        let r = catch_unwind(AssertUnwindSafe(h.conc));
        let (fails, used) = e(|x| (std::mem::take(&mut x.cfail), std::mem::take(&mut x.used)));
        e(|x| x.real = false);
        if let Err(p) = &r {
            if let Some(Abort("reject")) = p.downcast_ref::<Abort>() {
                continue;
            }
            if p.downcast_ref::<Abort>().is_none() {
                continue;
            }
        }
        if let Some((_, d)) = fails.iter().find(|x| x.0 == f.id) {
            return Some((used, format!("{}: {}", f.id, d)));
        }
        if witness.is_some() {
            continue;
        }
        if let (Some((id, d)), None) = (fails.first(), &same) {
            same = Some((used, format!("{}: {}", id, d)));
        }
    }
    same
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Abort>().is_some() {
            return;
        }
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
    }));
}

//! Evaluation of terms and predicates at a point of f64 inputs with a running error bound, so that a
//! difference far below rounding at ordinary magnitudes can still be told from rounding.
use crate::engine::{Atom, Op, P};
use crate::term::{self, Id, Node};
use std::collections::HashMap;

const U: f64 = 2.3e-16;

pub struct Track<'a> {
    point: &'a HashMap<String, f64>,
    memo: HashMap<Id, Option<(f64, f64)>>,
}
impl<'a> Track<'a> {
    pub fn new(point: &'a HashMap<String, f64>) -> Self { Track { point, memo: HashMap::new() } }
    fn term(&mut self, i: Id) -> Option<(f64, f64)> {
        if let Some(r) = self.memo.get(&i) {
            return *r;
        }
        let r = self.fresh(i).filter(|(v, e)| v.is_finite() && e.is_finite() && v.abs() < 1e290);
        self.memo.insert(i, r);
        r
    }
    fn fresh(&mut self, i: Id) -> Option<(f64, f64)> {
        // results that may have been rounded into the subnormal range say nothing
        let done = |v: f64, e: f64| Some((v, e + 4.0 * U * v.abs() + if v != 0.0 && v.abs() < 1e-290 { 1.0 } else { 0.0 }));
        Some(match term::node(i) {
            Node::Var(n) => (*self.point.get(&n)?, 0.0),
            Node::Rat(n, d) => {
                let v = n as f64 / d as f64;
                let exact = (n.unsigned_abs() < 1 << 53) && (d & (d - 1)) == 0;
                (v, if exact { 0.0 } else { U * v.abs() })
            }
            Node::Inf | Node::NaN => return None,
            Node::Neg(a) => {
                let (a, e) = self.term(a)?;
                (-a, e)
            }
            Node::Add(a, b) => {
                let ((a, ea), (b, eb)) = (self.term(a)?, self.term(b)?);
                if a == 0.0 && ea == 0.0 { (b, eb) } else if b == 0.0 && eb == 0.0 { (a, ea) } else { return done(a + b, ea + eb) }
            }
            Node::Sub(a, b) => {
                let ((a, ea), (b, eb)) = (self.term(a)?, self.term(b)?);
                if a == 0.0 && ea == 0.0 { (-b, eb) } else if b == 0.0 && eb == 0.0 { (a, ea) } else { return done(a - b, ea + eb) }
            }
            Node::Mul(a, b) => {
                let ((a, ea), (b, eb)) = (self.term(a)?, self.term(b)?);
                if (a == 0.0 && ea == 0.0) || (b == 0.0 && eb == 0.0) {
                    (0.0, 0.0)
                } else {
                    if a * b == 0.0 { return None }
                    return done(a * b, a.abs() * eb + b.abs() * ea + ea * eb);
                }
            }
            Node::Div(a, b) => {
                let ((a, ea), (b, eb)) = (self.term(a)?, self.term(b)?);
                if b.abs() <= 2.0 * eb || b == 0.0 {
                    return None;
                }
                let v = a / b;
                if v == 0.0 && (a != 0.0 || ea != 0.0) { return None }
                return done(v, (ea + v.abs() * eb) / (b.abs() - eb));
            }
            Node::App(f, xs) => {
                if f == "pi" {
                    return done(std::f64::consts::PI, 0.0);
                }
                if f == "pow" {
                    let ((a, ea), (b, eb)) = (self.term(xs[0])?, self.term(xs[1])?);
                    let v = a.powf(b);
                    if ea == 0.0 && eb == 0.0 {
                        return done(v, 4.0 * U * v.abs());
                    }
                    if a <= 2.0 * ea {
                        return None;
                    }
                    return done(v, v * ((eb + U) * (a.ln().abs() + 1.0) + (b.abs() + eb) * ea / (a - ea)).exp_m1());
                }
                if xs.len() != 1 {
                    return None;
                }
                let (a, e) = self.term(xs[0])?;
                let v = <f64 as crate::sym::Val>::o(f, &[a]);
                match f {
                    "exp" => return done(v, v * e.exp_m1()),
                    "ln" => return if a > 2.0 * e { done(v, 2.0 * e / a) } else { None },
                    "sin" | "cos" | "tanh" | "atan" | "asinh" => return if a.abs() < 1e6 { done(v, 1.1 * e) } else { None },
                    "sinh" | "cosh" => return done(v, 1.1 * e * (a.abs() + e).cosh()),
                    "tan" => return if e < 1e-3 && v.abs() < 1e2 { done(v, 4.0 * e * (1.0 + v * v)) } else { None },
                    "asin" | "acos" => {
                        let m = a.abs() + e;
                        return if m < 1.0 { done(v, 1.1 * e / (1.0 - m * m).sqrt()) } else { None };
                    }
                    "atanh" => {
                        let m = a.abs() + e;
                        return if m < 1.0 { done(v, 1.1 * e / (1.0 - m * m)) } else { None };
                    }
                    "acosh" => return if a - e > 1.0 { done(v, 1.1 * e / ((a - e).powi(2) - 1.0).sqrt()) } else { None },
                    "sqrt" => return if a > 2.0 * e { done(v, e / a.sqrt()) } else { None },
                    "abs" => (v, e),
                    "gamma" | "loggamma" | "digamma" | "erf" | "erfc" if e == 0.0 && v != 0.0 => return done(v, 1e-7 * v.abs()),
                    _ => return None,
                }
            }
        })
    }
    fn atom(&mut self, a: &Atom) -> Option<(f64, f64)> {
        match a {
            Atom::S(i) => self.term(*i),
            Atom::F(f) if f.is_finite() => Some((*f, 0.0)),
            _ => None,
        }
    }
    /// definitely true, definitely false, or not known
    pub fn holds(&mut self, p: &P) -> Option<bool> {
        match p {
            P::T => Some(true),
            P::F => Some(false),
            P::Cmp(op, a, b) => {
                let ((a, ea), (b, eb)) = (self.atom(a)?, self.atom(b)?);
                let (d, e) = (a - b, 2.0 * (ea + eb));
                match op {
                    Op::Eq | Op::Near => if d.abs() > e { Some(false) } else if e == 0.0 { Some(true) } else { None },
                    Op::Lt => if d < -e { Some(true) } else if d >= e && (d > e || e == 0.0) { Some(false) } else { None },
                    Op::Le => if d < -e || (e == 0.0 && d == 0.0) { Some(true) } else if d > e { Some(false) } else { None },
                }
            }
            P::Not(a) => self.holds(a).map(|b| !b),
            P::And(v) => {
                let r: Vec<_> = v.iter().map(|p| self.holds(p)).collect();
                if r.contains(&Some(false)) { Some(false) } else if r.contains(&None) { None } else { Some(true) }
            }
            P::Or(v) => {
                let r: Vec<_> = v.iter().map(|p| self.holds(p)).collect();
                if r.contains(&Some(true)) { Some(true) } else if r.contains(&None) { None } else { Some(false) }
            }
            _ => None,
        }
    }
}

fn names(p: &P, out: &mut Vec<(String, Id)>, seen: &mut std::collections::HashSet<Id>) {
    match p {
        P::Cmp(_, a, b) => {
            for x in [a, b] {
                if let Atom::S(i) = x {
                    term::vars(*i, out, seen)
                }
            }
        }
        P::Not(a) => names(a, out, seen),
        P::And(v) | P::Or(v) => v.iter().for_each(|p| names(p, out, seen)),
        _ => {}
    }
}

/// Points at which the hypotheses definitely hold and the goal definitely fails.
pub fn witnesses(hyps: &[P], goal: &P, model: &[(String, f64)]) -> Vec<Vec<(String, f64)>> {
    let (mut vs, mut seen) = (vec![], Default::default());
    hyps.iter().for_each(|p| names(p, &mut vs, &mut seen));
    names(goal, &mut vs, &mut seen);
    let mut ns: Vec<String> = vs.into_iter().map(|x| x.0).collect();
    ns.sort();
    ns.dedup();
    let model: HashMap<String, f64> = model.iter().cloned().collect();
    let mut r = 0x2545F4914F6CDD1Du64;
    let mut rnd = || {
        r ^= r << 13;
        r ^= r >> 7;
        r ^= r << 17;
        (r >> 11) as f64 / (1u64 << 53) as f64
    };
    let mut out = vec![];
    for k in 0..800 {
        let mut pt = HashMap::new();
        for n in &ns {
            let m = model.get(n).copied().filter(|x| x.is_finite());
            let v = match (m, k % 4) {
                (Some(m), _) if k == 0 => m,
                (Some(m), 0) => if (k / 4) % 2 == 0 { m * 0.5f64.powi(k / 8) } else if rnd() < 0.5 { m } else { m * 10f64.powf(rnd() * 8.0 - 4.0) },
                (_, 1) => (rnd() - 0.5) * 6.0,
                (_, 2) => [0.0, 1.0, -1.0, 2.0, 0.5, -2.0, 3.0][(rnd() * 7.0) as usize % 7],
                _ => (if rnd() < 0.4 { -1.0 } else { 1.0 }) * 10f64.powf(rnd() * 24.0 - 20.0),
            };
            pt.insert(n.clone(), if crate::engine::is_integer_name(n) { v.round().clamp(-30.0, 30.0) } else { v });
        }
        let mut t = Track::new(&pt);
        if hyps.iter().all(|p| t.holds(p) == Some(true)) && t.holds(goal) == Some(false) {
            let mut v: Vec<(String, f64)> = pt.into_iter().collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            out.push(v);
            if out.len() >= 24 {
                break;
            }
        }
    }
    out
}

//! Hash-consed symbolic terms over which the real generic code of /repo is executed.
use std::cell::RefCell;
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Var(String),
    /// exact rational constant, denominator > 0, reduced
    Rat(i128, i128),
    Inf,
    NaN,
    Add(Id, Id),
    Sub(Id, Id),
    Mul(Id, Id),
    Div(Id, Id),
    Neg(Id),
    App(&'static str, Vec<Id>),
}

#[derive(Default)]
struct Arena {
    nodes: Vec<Node>,
    map: HashMap<Node, Id>,
}

thread_local! {
    static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn mk(n: Node) -> Id {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(&i) = a.map.get(&n) {
            return i;
        }
        let i = a.nodes.len() as Id;
        a.nodes.push(n.clone());
        a.map.insert(n, i);
        i
    })
}
pub fn node(i: Id) -> Node { ARENA.with(|a| a.borrow().nodes[i as usize].clone()) }
pub fn reset_arena() { ARENA.with(|a| *a.borrow_mut() = Arena::default()) }

pub fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }

pub fn rat(n: i128, d: i128) -> Id {
    let g = gcd(n, d).max(1);
    let s = if d < 0 { -1 } else { 1 };
    mk(Node::Rat(s * n / g, s * d / g))
}
pub fn int(n: i128) -> Id { rat(n, 1) }

/// exact rational value of a finite double when it fits into i128/i128
pub fn from_f64(x: f64) -> Id {
    if x.is_nan() {
        return mk(Node::NaN);
    }
    if x.is_infinite() {
        let i = mk(Node::Inf);
        return if x > 0.0 { i } else { mk(Node::Neg(i)) };
    }
    if x == std::f64::consts::PI { return mk(Node::App("pi", vec![])); }
    if x == std::f64::consts::FRAC_PI_2 { return mk(Node::Div(mk(Node::App("pi", vec![])), int(2))); }
    if x == std::f64::consts::E { return mk(Node::App("exp", vec![int(1)])); }
    if x == std::f64::consts::LN_2 { return mk(Node::App("ln", vec![int(2)])); }
    if x == std::f64::consts::LN_10 { return mk(Node::App("ln", vec![int(10)])); }
    let bits = x.to_bits();
    let sign: i128 = if bits >> 63 == 1 { -1 } else { 1 };
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = (bits & ((1u64 << 52) - 1)) as i128;
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    if m == 0 {
        return int(0);
    }
    while m % 2 == 0 {
        m /= 2;
        e += 1;
    }
    if e >= 0 && e < 70 {
        int(sign * (m << e))
    } else if e < 0 && e > -120 {
        rat(sign * m, 1i128 << (-e))
    } else {
        // outside the exact range: an opaque constant named by its bits
        mk(Node::Var(format!("c_{:016x}", bits)))
    }
}

pub fn as_rat(i: Id) -> Option<(i128, i128)> {
    match node(i) {
        Node::Rat(n, d) => Some((n, d)),
        _ => None,
    }
}

pub fn show(i: Id) -> String {
    match node(i) {
        Node::Var(s) => s,
        Node::Rat(n, 1) => format!("{}", n),
        Node::Rat(n, d) => format!("{}/{}", n, d),
        Node::Inf => "inf".into(),
        Node::NaN => "NaN".into(),
        Node::Add(a, b) => format!("({} + {})", show(a), show(b)),
        Node::Sub(a, b) => format!("({} - {})", show(a), show(b)),
        Node::Mul(a, b) => format!("({} * {})", show(a), show(b)),
        Node::Div(a, b) => format!("({} / {})", show(a), show(b)),
        Node::Neg(a) => format!("(-{})", show(a)),
        Node::App(f, xs) => format!("{}({})", f, xs.iter().map(|x| show(*x)).collect::<Vec<_>>().join(", ")),
    }
}

pub fn vars(i: Id, out: &mut Vec<(String, Id)>, seen: &mut std::collections::HashSet<Id>) {
    if !seen.insert(i) {
        return;
    }
    match node(i) {
        Node::Var(s) => out.push((s, i)),
        Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => {
            vars(a, out, seen);
            vars(b, out, seen)
        }
        Node::Neg(a) => vars(a, out, seen),
        Node::App(_, xs) => xs.iter().for_each(|x| vars(*x, out, seen)),
        _ => {}
    }
}
pub fn has_nonfinite(i: Id) -> bool {
    match node(i) {
        Node::Inf | Node::NaN => true,
        Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => has_nonfinite(a) || has_nonfinite(b),
        Node::Neg(a) => has_nonfinite(a),
        Node::App(_, xs) => xs.iter().any(|x| has_nonfinite(*x)),
        _ => false,
    }
}

/// does the term contain the result of an operation outside its domain?
pub fn has_undef(i: Id) -> bool {
    match node(i) {
        Node::Inf | Node::NaN => true,
        Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => has_undef(a) || has_undef(b),
        Node::Neg(a) => has_undef(a),
        Node::App(f, xs) => f.starts_with("undef_") || xs.iter().any(|x| has_undef(*x)),
        _ => false,
    }
}

/// Replace a variable, folding rational constants.
pub fn subst(i: Id, v: Id, by: Id, memo: &mut HashMap<Id, Id>) -> Id {
    if i == v {
        return by;
    }
    if let Some(&r) = memo.get(&i) {
        return r;
    }
    let ok = |x: i128| x.abs() < 1 << 60;
    let mut bin = |a: Id, b: Id, memo: &mut HashMap<Id, Id>| {
        let (x, y) = (subst(a, v, by, memo), subst(b, v, by, memo));
        let k = match (as_rat(x), as_rat(y)) {
            (Some(p), Some(q)) if ok(p.0) && ok(p.1) && ok(q.0) && ok(q.1) => Some((p, q)),
            _ => None,
        };
        (x, y, k)
    };
    let r = match node(i) {
        Node::Add(a, b) => match bin(a, b, memo) {
            (_, _, Some((p, q))) => rat(p.0 * q.1 + q.0 * p.1, p.1 * q.1),
            (x, y, _) => mk(Node::Add(x, y)),
        },
        Node::Sub(a, b) => match bin(a, b, memo) {
            (_, _, Some((p, q))) => rat(p.0 * q.1 - q.0 * p.1, p.1 * q.1),
            (x, y, _) => mk(Node::Sub(x, y)),
        },
        Node::Mul(a, b) => match bin(a, b, memo) {
            (_, _, Some((p, q))) => rat(p.0 * q.0, p.1 * q.1),
            (x, y, _) => mk(Node::Mul(x, y)),
        },
        Node::Div(a, b) => match bin(a, b, memo) {
            (_, _, Some((p, q))) if q.0 != 0 => rat(p.0 * q.1, p.1 * q.0),
            (x, y, _) => mk(Node::Div(x, y)),
        },
        Node::Neg(a) => {
            let x = subst(a, v, by, memo);
            match as_rat(x) {
                Some((n, d)) => rat(-n, d),
                None => mk(Node::Neg(x)),
            }
        }
        Node::App(f, xs) => mk(Node::App(f, xs.iter().map(|x| subst(*x, v, by, memo)).collect())),
        _ => i,
    };
    memo.insert(i, r);
    r
}
/// `i` as `k * var + c` over the rationals.
pub fn linear(i: Id) -> Option<(Option<Id>, (i128, i128), (i128, i128))> {
    let g = |n: i128, d: i128| {
        let k = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        (s * n / k, s * d / k)
    };
    let ok = |x: (i128, i128)| x.0.abs() < 1 << 60 && x.1 < 1 << 60;
    let comb = |a: Id, b: Id, s: i128| {
        let (p, q) = (linear(a)?, linear(b)?);
        if !(ok(p.1) && ok(p.2) && ok(q.1) && ok(q.2)) {
            return None;
        }
        let v = match (p.0, q.0) {
            (Some(x), Some(y)) if x != y => return None,
            (Some(x), _) | (None, Some(x)) => Some(x),
            _ => None,
        };
        let add = |x: (i128, i128), y: (i128, i128)| g(x.0 * y.1 + s * y.0 * x.1, x.1 * y.1);
        Some((v, add(p.1, q.1), add(p.2, q.2)))
    };
    match node(i) {
        Node::Var(_) => Some((Some(i), (1, 1), (0, 1))),
        Node::Rat(n, d) => Some((None, (0, 1), (n, d))),
        Node::Add(a, b) => comb(a, b, 1),
        Node::Sub(a, b) => comb(a, b, -1),
        Node::Neg(a) => comb(int(0), a, -1),
        Node::Mul(a, b) => {
            let (p, q) = (linear(a)?, linear(b)?);
            let (k, l) = if p.0.is_none() { (p.2, q) } else if q.0.is_none() { (q.2, p) } else { return None };
            if !(ok(k) && ok(l.1) && ok(l.2)) {
                return None;
            }
            Some((l.0, g(k.0 * l.1 .0, k.1 * l.1 .1), g(k.0 * l.2 .0, k.1 * l.2 .1)))
        }
        _ => None,
    }
}

/// Formal derivative: `d` gives the tangent of each variable.
pub fn diff(i: Id, d: &dyn Fn(&str) -> Id) -> Id {
    let app = |f: &'static str, x: Id| mk(Node::App(f, vec![x]));
    let mul = |a: Id, b: Id| mk(Node::Mul(a, b));
    let add = |a: Id, b: Id| mk(Node::Add(a, b));
    let sub = |a: Id, b: Id| mk(Node::Sub(a, b));
    let div = |a: Id, b: Id| mk(Node::Div(a, b));
    let neg = |a: Id| mk(Node::Neg(a));
    match node(i) {
        Node::Var(s) => d(&s),
        Node::Rat(..) | Node::Inf | Node::NaN => int(0),
        Node::Add(a, b) => add(diff(a, d), diff(b, d)),
        Node::Sub(a, b) => sub(diff(a, d), diff(b, d)),
        Node::Mul(a, b) => add(mul(diff(a, d), b), mul(a, diff(b, d))),
        Node::Div(a, b) => div(sub(mul(diff(a, d), b), mul(a, diff(b, d))), mul(b, b)),
        Node::Neg(a) => neg(diff(a, d)),
        Node::App("pi", _) => int(0),
        Node::App("pow", xs) => {
            let (b, e) = (xs[0], xs[1]);
            let (db, de) = (diff(b, d), diff(e, d));
            // e * b^(e-1) * b'  +  ln(b) * b^e * e'
            let t1 = mul(mul(e, mk(Node::App("pow", vec![b, sub(e, int(1))]))), db);
            if as_rat(de) == Some((0, 1)) {
                t1
            } else {
                add(t1, mul(mul(app("ln", b), i), de))
            }
        }
        Node::App(f, xs) if xs.len() == 1 => {
            let x = xs[0];
            let dx = diff(x, d);
            let one = int(1);
            let outer = match f {
                "exp" => i,
                "ln" => div(one, x),
                "sin" => app("cos", x),
                "cos" => neg(app("sin", x)),
                "tan" => add(one, mul(i, i)),
                "sinh" => app("cosh", x),
                "cosh" => app("sinh", x),
                "tanh" => sub(one, mul(i, i)),
                "asin" => div(one, app("sqrt", sub(one, mul(x, x)))),
                "acos" => neg(div(one, app("sqrt", sub(one, mul(x, x))))),
                "atan" => div(one, add(one, mul(x, x))),
                "asinh" => div(one, app("sqrt", add(mul(x, x), one))),
                "acosh" => div(one, app("sqrt", sub(mul(x, x), one))),
                "atanh" => div(one, sub(one, mul(x, x))),
                "sqrt" => div(one, mul(int(2), i)),
                "gamma" => mul(i, app("digamma", x)),
                "loggamma" => app("digamma", x),
                "digamma" => app("trigamma", x),
                "erf" => div(mul(int(2), app("exp", neg(mul(x, x)))), app("sqrt", mk(Node::App("pi", vec![])))),
                _ => mk(Node::App("D?", vec![i])),
            };
            mul(outer, dx)
        }
        Node::App(..) => mk(Node::App("D?", vec![i])),
    }
}

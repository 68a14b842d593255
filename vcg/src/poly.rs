//! Rational-function normal form over atoms, and the axioms of the atoms.
//! `exp` is a homomorphism here: exp(sum c_i m_i) = prod E(m_i)^c_i with E(m) > 0;
//! `tan`, `tanh`, `sinh`, `cosh` are written through sin/cos and exp, and b^e for b > 0 as exp(e ln b).
use crate::term::{self, Id, Node};
use std::collections::{BTreeMap, HashMap};

pub type R = (i128, i128);
pub type Mono = Vec<(usize, R)>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Poly(pub BTreeMap<Mono, R>);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RatFn {
    pub n: Poly,
    pub d: Poly,
}
#[derive(Debug)]
pub struct TooBig;
type Res<T> = Result<T, TooBig>;

pub fn radd(a: R, b: R) -> Res<R> {
    let n = a.0.checked_mul(b.1).ok_or(TooBig)?.checked_add(b.0.checked_mul(a.1).ok_or(TooBig)?).ok_or(TooBig)?;
    let d = a.1.checked_mul(b.1).ok_or(TooBig)?;
    Ok(rn(n, d))
}
pub fn rmul(a: R, b: R) -> Res<R> {
    Ok(rn(a.0.checked_mul(b.0).ok_or(TooBig)?, a.1.checked_mul(b.1).ok_or(TooBig)?))
}
fn rn(n: i128, d: i128) -> R {
    let g = term::gcd(n, d).max(1);
    let s = if d < 0 { -1 } else { 1 };
    (s * n / g, s * d / g)
}
fn rinv(a: R) -> R { rn(a.1, a.0) }

#[derive(Clone, Debug)]
pub enum Kind {
    Var(String),
    Pi,
    Inf,
    /// E(m/d) with exp atoms
    Exp(Mono, Poly),
    Fn(&'static str, Vec<RatFn>),
}
#[derive(Clone, Debug)]
pub struct Atom {
    pub kind: Kind,
    pub key: String,
}

pub fn pconst(r: R) -> Poly {
    let mut m = BTreeMap::new();
    if r.0 != 0 {
        m.insert(vec![], r);
    }
    Poly(m)
}
impl Poly {
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn is_const(&self) -> Option<R> {
        if self.0.is_empty() {
            return Some((0, 1));
        }
        if self.0.len() == 1 {
            let (m, c) = self.0.iter().next().unwrap();
            if m.is_empty() {
                return Some(*c);
            }
        }
        None
    }
}
fn madd(a: &Mono, b: &Mono) -> Res<Mono> {
    let mut m: BTreeMap<usize, R> = a.iter().cloned().collect();
    for (i, e) in b {
        let cur = m.get(i).cloned().unwrap_or((0, 1));
        let s = radd(cur, *e)?;
        if s.0 == 0 {
            m.remove(i);
        } else {
            m.insert(*i, s);
        }
    }
    Ok(m.into_iter().collect())
}
pub fn padd(a: &Poly, b: &Poly) -> Res<Poly> {
    let mut m = a.0.clone();
    for (k, c) in &b.0 {
        let s = radd(m.get(k).cloned().unwrap_or((0, 1)), *c)?;
        if s.0 == 0 {
            m.remove(k);
        } else {
            m.insert(k.clone(), s);
        }
    }
    Ok(Poly(m))
}
pub fn pscale(a: &Poly, r: R) -> Res<Poly> {
    let mut m = BTreeMap::new();
    for (k, c) in &a.0 {
        let v = rmul(*c, r)?;
        if v.0 != 0 {
            m.insert(k.clone(), v);
        }
    }
    Ok(Poly(m))
}
pub fn pmul(a: &Poly, b: &Poly) -> Res<Poly> {
    if a.0.len() * b.0.len() > 20000 {
        return Err(TooBig);
    }
    let mut m: BTreeMap<Mono, R> = BTreeMap::new();
    for (ka, ca) in &a.0 {
        for (kb, cb) in &b.0 {
            let k = madd(ka, kb)?;
            let s = radd(m.get(&k).cloned().unwrap_or((0, 1)), rmul(*ca, *cb)?)?;
            if s.0 == 0 {
                m.remove(&k);
            } else {
                m.insert(k, s);
            }
        }
    }
    Ok(Poly(m))
}

pub struct Norm<'a> {
    pub atoms: Vec<Atom>,
    idx: HashMap<String, usize>,
    memo: HashMap<Id, RatFn>,
    /// bases proved positive under the current path condition
    pub positive: &'a dyn Fn(Id) -> bool,
}

fn one() -> Poly { pconst((1, 1)) }

impl<'a> Norm<'a> {
    pub fn new(positive: &'a dyn Fn(Id) -> bool) -> Self {
        Norm { atoms: vec![], idx: HashMap::new(), memo: HashMap::new(), positive }
    }
    fn atom(&mut self, kind: Kind) -> usize {
        let key = format!("{:?}", kind);
        if let Some(i) = self.idx.get(&key) {
            return *i;
        }
        let i = self.atoms.len();
        self.atoms.push(Atom { kind, key: key.clone() });
        self.idx.insert(key, i);
        i
    }
    fn is_exp(&self, i: usize) -> bool { matches!(self.atoms[i].kind, Kind::Exp(..)) }
    pub fn of_poly(&self, p: Poly) -> RatFn { RatFn { n: p, d: one() } }
    fn of_atom(&mut self, kind: Kind) -> RatFn {
        let i = self.atom(kind);
        let mut m = BTreeMap::new();
        m.insert(vec![(i, (1, 1))], (1, 1));
        RatFn { n: Poly(m), d: one() }
    }
    /// Cancel a common monomial and make the denominator monic; exp atoms never stay in a
    /// single-monomial denominator.
    fn simp(&self, f: RatFn) -> Res<RatFn> {
        if f.n.is_zero() {
            return Ok(RatFn { n: f.n, d: one() });
        }
        if f.n == f.d {
            return Ok(RatFn { n: one(), d: one() });
        }
        // gcd monomial over both
        let mut common: Option<BTreeMap<usize, R>> = None;
        for m in f.n.0.keys().chain(f.d.0.keys()) {
            let mm: BTreeMap<usize, R> = m.iter().cloned().collect();
            common = Some(match common {
                None => mm,
                Some(c) => c
                    .into_iter()
                    .filter_map(|(i, e)| {
                        let o = mm.get(&i).cloned().unwrap_or((0, 1));
                        let mn = if e.0 * o.1 < o.0 * e.1 { e } else { o };
                        if mn.0 > 0 { Some((i, mn)) } else { None }
                    })
                    .collect(),
            });
        }
        let mut inv: Mono = common.unwrap().into_iter().map(|(i, e)| (i, (-e.0, e.1))).collect();
        let mut lead = (1, 1);
        if f.d.0.len() == 1 {
            let (m, c) = f.d.0.iter().next().unwrap();
            lead = rinv(*c);
            // move exp atoms of a monomial denominator upstairs
            let ex: Mono = m.iter().filter(|(i, _)| self.is_exp(*i)).map(|(i, e)| (*i, (-e.0, e.1))).collect();
            let exi: Mono = inv.iter().filter(|(i, _)| !self.is_exp(*i)).cloned().collect();
            inv = madd(&exi, &ex)?;
        } else if let Some((_, c)) = f.d.0.iter().next() {
            lead = rinv(*c);
        }
        let mut k = BTreeMap::new();
        k.insert(inv, lead);
        let k = Poly(k);
        Ok(RatFn { n: pmul(&f.n, &k)?, d: pmul(&f.d, &k)? })
    }
    pub fn add(&self, a: &RatFn, b: &RatFn, sign: i128) -> Res<RatFn> {
        let bn = pscale(&b.n, (sign, 1))?;
        if a.d == b.d {
            return self.simp(RatFn { n: padd(&a.n, &bn)?, d: a.d.clone() });
        }
        self.simp(RatFn { n: padd(&pmul(&a.n, &b.d)?, &pmul(&bn, &a.d)?)?, d: pmul(&a.d, &b.d)? })
    }
    pub fn mul(&self, a: &RatFn, b: &RatFn) -> Res<RatFn> {
        let (a1, b1) = (self.simp(RatFn { n: a.n.clone(), d: b.d.clone() })?, self.simp(RatFn { n: b.n.clone(), d: a.d.clone() })?);
        self.simp(RatFn { n: pmul(&a1.n, &b1.n)?, d: pmul(&a1.d, &b1.d)? })
    }
    pub fn inv(&self, a: &RatFn) -> Res<RatFn> { self.simp(RatFn { n: a.d.clone(), d: a.n.clone() }) }
    fn powi(&self, a: &RatFn, k: i128) -> Res<RatFn> {
        if k < 0 {
            return self.powi(&self.inv(a)?, -k);
        }
        let mut r = self.of_poly(one());
        for _ in 0..k {
            r = self.mul(&r, a)?;
        }
        Ok(r)
    }
    fn exp(&mut self, a: &RatFn) -> Res<RatFn> {
        let mut r = self.of_poly(one());
        let dconst = a.d.is_const();
        let terms: Vec<(Mono, R)> = a.n.0.iter().map(|(m, c)| (m.clone(), *c)).collect();
        for (m, c) in terms {
            let (c, d) = match dconst {
                Some(k) => (rmul(c, rinv(k))?, one()),
                None => (c, a.d.clone()),
            };
            // exp(c * ln(g)) = g^c
            if d == one() && m.len() == 1 && m[0].1 == (1, 1) {
                if let Kind::Fn("ln", args) = self.atoms[m[0].0].kind.clone() {
                    if c.1 == 1 && c.0.abs() <= 12 {
                        let p = self.powi(&args[0], c.0)?;
                        r = self.mul(&r, &p)?;
                        continue;
                    }
                }
            }
            let i = self.atom(Kind::Exp(m, d));
            let mut p = BTreeMap::new();
            p.insert(vec![(i, c)], (1, 1));
            r = self.mul(&r, &RatFn { n: Poly(p), d: one() })?;
        }
        Ok(r)
    }
    fn neg_lead(&self, a: &RatFn) -> bool { a.n.0.values().next().map(|c| c.0 < 0).unwrap_or(false) }

    pub fn norm(&mut self, id: Id) -> Res<RatFn> {
        if let Some(r) = self.memo.get(&id) {
            return Ok(r.clone());
        }
        let r = self.norm_(id)?;
        if r.n.0.len() > 3000 || r.d.0.len() > 3000 {
            return Err(TooBig);
        }
        self.memo.insert(id, r.clone());
        Ok(r)
    }
    fn func(&mut self, f: &'static str, args: Vec<RatFn>) -> RatFn { self.of_atom(Kind::Fn(f, args)) }
    fn norm_(&mut self, id: Id) -> Res<RatFn> {
        Ok(match term::node(id) {
            Node::Var(s) => self.of_atom(Kind::Var(s)),
            Node::Rat(n, d) => self.of_poly(pconst((n, d))),
            Node::Inf => self.of_atom(Kind::Inf),
            Node::NaN => return Err(TooBig),
            Node::Add(a, b) => {
                let (a, b) = (self.norm(a)?, self.norm(b)?);
                self.add(&a, &b, 1)?
            }
            Node::Sub(a, b) => {
                let (a, b) = (self.norm(a)?, self.norm(b)?);
                self.add(&a, &b, -1)?
            }
            Node::Mul(a, b) => {
                let (a, b) = (self.norm(a)?, self.norm(b)?);
                self.mul(&a, &b)?
            }
            Node::Div(a, b) => {
                let (a, b) = (self.norm(a)?, self.norm(b)?);
                if b.n.is_zero() {
                    return Err(TooBig);
                }
                let bi = self.inv(&b)?;
                self.mul(&a, &bi)?
            }
            Node::Neg(a) => {
                let a = self.norm(a)?;
                RatFn { n: pscale(&a.n, (-1, 1))?, d: a.d }
            }
            Node::App(f, xs) => self.app(f, &xs)?,
        })
    }
    fn app(&mut self, f: &'static str, xs: &[Id]) -> Res<RatFn> {
        let c = |r: i128| RatFn { n: pconst((r, 1)), d: one() };
        if f == "pi" {
            return Ok(self.of_atom(Kind::Pi));
        }
        if f == "pow" {
            let (b, e) = (self.norm(xs[0])?, self.norm(xs[1])?);
            if let (Some(k), true) = (e.n.is_const(), e.d == one()) {
                if k.1 == 1 && k.0.abs() <= 12 && !(b.n.is_zero() && k.0 < 0) {
                    return self.powi(&b, k.0);
                }
            }
            if (self.positive)(xs[0]) {
                let ln = self.app("ln", &xs[..1])?;
                let a = self.mul(&e, &ln)?;
                return self.exp(&a);
            }
            return Ok(self.func("pow", vec![b, e]));
        }
        if xs.len() != 1 {
            let mut args = vec![];
            for x in xs {
                args.push(self.norm(*x)?);
            }
            return Ok(self.func(f, args));
        }
        let x = self.norm(xs[0])?;
        let xc = if x.d == one() { x.n.is_const() } else { None };
        let odd = ["sin", "tan", "sinh", "tanh", "asin", "atan", "asinh", "atanh", "erf", "cbrt"];
        if xc == Some((0, 1)) {
            if odd.contains(&f) || f == "sqrt" {
                return Ok(c(0));
            }
            if f == "cos" || f == "cosh" || f == "exp" {
                return Ok(c(1));
            }
        }
        if xc == Some((1, 1)) {
            match f {
                "ln" | "acos" | "acosh" | "loggamma" => return Ok(c(0)),
                "sqrt" | "gamma" => return Ok(c(1)),
                "asin" | "atan" => {
                    let pi = self.of_atom(Kind::Pi);
                    let k = RatFn { n: pconst((1, if f == "asin" { 2 } else { 4 })), d: one() };
                    return self.mul(&pi, &k);
                }
                _ => {}
            }
        }
        match f {
            "exp" => return self.exp(&x),
            "tan" => {
                let (s, k) = (self.app("sin", xs)?, self.app("cos", xs)?);
                let ki = self.inv(&k)?;
                return self.mul(&s, &ki);
            }
            "sinh" | "cosh" | "tanh" => {
                let p = self.exp(&x)?;
                let q = self.inv(&p)?;
                let (s, k) = (self.add(&p, &q, -1)?, self.add(&p, &q, 1)?);
                let half = RatFn { n: pconst((1, 2)), d: one() };
                return match f {
                    "sinh" => self.mul(&s, &half),
                    "cosh" => self.mul(&k, &half),
                    _ => {
                        let ki = self.inv(&k)?;
                        self.mul(&s, &ki)
                    }
                };
            }
            "acos" => {
                let pi = self.of_atom(Kind::Pi);
                let half = RatFn { n: pconst((1, 2)), d: one() };
                let h = self.mul(&pi, &half)?;
                let a = self.app("asin", xs)?;
                return self.add(&h, &a, -1);
            }
            "erfc" => {
                let a = self.app("erf", xs)?;
                return self.add(&c(1), &a, -1);
            }
            "ln" => {
                // ln of a product of exp atoms
                if x.d == one() && x.n.0.len() == 1 {
                    let (m, k) = x.n.0.iter().next().unwrap();
                    let m = m.clone();
                    if *k == (1, 1) && !m.is_empty() && m.iter().all(|(i, _)| self.is_exp(*i)) {
                        let mut r = c(0);
                        for (i, e) in m {
                            if let Kind::Exp(mm, dd) = self.atoms[i].kind.clone() {
                                let mut p = BTreeMap::new();
                                p.insert(mm, e);
                                r = self.add(&r, &RatFn { n: Poly(p), d: dd }, 1)?;
                            }
                        }
                        return Ok(r);
                    }
                }
            }
            _ => {}
        }
        if self.neg_lead(&x) {
            let nx = RatFn { n: pscale(&x.n, (-1, 1))?, d: x.d.clone() };
            if odd.contains(&f) {
                let a = self.func(f, vec![nx]);
                return Ok(RatFn { n: pscale(&a.n, (-1, 1))?, d: a.d });
            }
            if f == "cos" {
                return Ok(self.func(f, vec![nx]));
            }
        }
        Ok(self.func(f, vec![x]))
    }

    // ---- SMT emission -------------------------------------------------
    /// integer scale of each exp atom so that every exponent used is integral
    pub fn units(&self, polys: &[&Poly]) -> HashMap<usize, i128> {
        let mut u: HashMap<usize, i128> = HashMap::new();
        for p in polys {
            for m in p.0.keys() {
                for (i, e) in m {
                    let cur = *u.get(i).unwrap_or(&1);
                    u.insert(*i, cur / term::gcd(cur, e.1) * e.1);
                }
            }
        }
        u
    }
    pub fn smt_poly(&self, p: &Poly, units: &HashMap<usize, i128>) -> String {
        // clear negative exponents (exp atoms are positive, so signs are preserved)
        let mut min: HashMap<usize, i128> = HashMap::new();
        let ex = |i: usize, e: R| -> i128 { e.0 * (units.get(&i).cloned().unwrap_or(1)) / e.1 };
        for m in p.0.keys() {
            for (i, e) in m {
                let k = ex(*i, *e);
                let cur = *min.get(i).unwrap_or(&0);
                min.insert(*i, cur.min(k));
            }
        }
        if p.0.is_empty() {
            return "0.0".into();
        }
        let mut terms = vec![];
        for (m, c) in &p.0 {
            let mut f = vec![smt_rat(*c)];
            let mut exps: BTreeMap<usize, i128> = min.iter().map(|(i, k)| (*i, -*k)).collect();
            for (i, e) in m {
                *exps.entry(*i).or_insert(0) += ex(*i, *e);
            }
            for (i, k) in exps {
                for _ in 0..k {
                    f.push(format!("a{}", i));
                }
            }
            terms.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
        }
        if terms.len() == 1 { terms.pop().unwrap() } else { format!("(+ {})", terms.join(" ")) }
    }
}
pub fn smt_rat(c: R) -> String {
    let s = if c.1 == 1 { format!("{}.0", c.0.abs()) } else { format!("(/ {}.0 {}.0)", c.0.abs(), c.1) };
    if c.0 < 0 { format!("(- {})", s) } else { s }
}

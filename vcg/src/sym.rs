//! The symbolic scalar: /repo's generic code is monomorphised at `Sym` and executed.
use crate::engine::{self, Atom, Mode, Op, P};
use crate::term::{self, Id, Node};
use aegir::buffers::{
    shapes::{IncompatibleShapes, Shaped, S0},
    Buffer, Scalar, Scalars, ZipFold, ZipMap,
};
use num_traits::{Float, FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub Id);

pub fn reset_path() { crate::stub::reset(); }

impl Sym {
    pub fn a(self) -> Atom { Atom::S(self.0) }
    pub fn var(n: &str) -> Sym { Sym(term::mk(Node::Var(n.to_string()))) }
    pub fn rat(n: i128, d: i128) -> Sym { Sym(term::rat(n, d)) }
    pub fn ap(f: &'static str, xs: &[Sym]) -> Sym { Sym(term::mk(Node::App(f, xs.iter().map(|x| x.0).collect()))) }
    fn r(self) -> Option<(i128, i128)> { if engine::mode() == Mode::Real { term::as_rat(self.0) } else { None } }
    fn cmp(op: Op, a: Sym, b: Sym) -> P { P::Cmp(op, a.a(), b.a()) }
}
fn lt(a: Sym, b: Sym) -> P { Sym::cmp(Op::Lt, a, b) }
fn le(a: Sym, b: Sym) -> P { Sym::cmp(Op::Le, a, b) }
fn eq(a: Sym, b: Sym) -> P { Sym::cmp(Op::Eq, a, b) }
fn k(n: i128) -> Sym { Sym::rat(n, 1) }
fn small(x: (i128, i128)) -> bool { x.0.abs() < 1 << 60 && x.1 < 1 << 60 }

impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        if let (Some(a), Some(b)) = (self.r(), o.r()) {
            if small(a) && small(b) {
                return Sym::rat(a.0 * b.1 + b.0 * a.1, a.1 * b.1);
            }
        }
        if self.r() == Some((0, 1)) {
            return o;
        }
        if o.r() == Some((0, 1)) {
            return self;
        }
        Sym(term::mk(Node::Add(self.0, o.0)))
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        if let (Some(a), Some(b)) = (self.r(), o.r()) {
            if small(a) && small(b) {
                return Sym::rat(a.0 * b.1 - b.0 * a.1, a.1 * b.1);
            }
        }
        if o.r() == Some((0, 1)) {
            return self;
        }
        Sym(term::mk(Node::Sub(self.0, o.0)))
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        if let (Some(a), Some(b)) = (self.r(), o.r()) {
            if small(a) && small(b) {
                return Sym::rat(a.0 * b.0, a.1 * b.1);
            }
        }
        for (x, y) in [(self, o), (o, self)] {
            if x.r() == Some((1, 1)) {
                return y;
            }
            if x.r() == Some((0, 1)) && !term::has_nonfinite(y.0) {
                return x;
            }
        }
        Sym(term::mk(Node::Mul(self.0, o.0)))
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        if !engine::defined(eq(o, k(0)).not()) {
            return Sym::ap("undef_div", &[self, o]);
        }
        if let (Some(a), Some(b)) = (self.r(), o.r()) {
            if small(a) && small(b) && b.0 != 0 {
                return Sym::rat(a.0 * b.1, a.1 * b.0);
            }
        }
        if o.r() == Some((1, 1)) {
            return self;
        }
        Sym(term::mk(Node::Div(self.0, o.0)))
    }
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym { Sym::ap("rem", &[self, o]) }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        if let Some(a) = self.r() {
            return Sym::rat(-a.0, a.1);
        }
        Sym(term::mk(Node::Neg(self.0)))
    }
}
macro_rules! assign {
    ($($t:ident $f:ident $o:tt),*) => { $(
        impl $t for Sym { fn $f(&mut self, o: Sym) { *self = *self $o o } }
        impl<'a> $t<&'a Sym> for Sym { fn $f(&mut self, o: &'a Sym) { *self = *self $o *o } }
    )* };
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
macro_rules! refs {
    ($($t:ident $f:ident),*) => { $(
        impl<'a> $t<&'a Sym> for Sym { type Output = Sym; fn $f(self, o: &'a Sym) -> Sym { $t::$f(self, *o) } }
        impl<'a> $t<Sym> for &'a Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { $t::$f(*self, o) } }
        impl<'a, 'b> $t<&'b Sym> for &'a Sym { type Output = Sym; fn $f(self, o: &'b Sym) -> Sym { $t::$f(*self, *o) } }
    )* };
}
refs!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym { -*self }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym::zero(), |a, b| a + b) }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym { i.fold(Sym::zero(), |a, b| a + *b) }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym::one(), |a, b| a * b) }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool { engine::branch(eq(*self, *o)) }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        if *self == *o {
            return Some(Equal);
        }
        if *self < *o {
            return Some(Less);
        }
        if engine::mode() == Mode::Real || *o < *self {
            return Some(Greater);
        }
        None
    }
    fn lt(&self, o: &Sym) -> bool { engine::branch(lt(*self, *o)) }
    fn le(&self, o: &Sym) -> bool { engine::branch(le(*self, *o)) }
    fn gt(&self, o: &Sym) -> bool { engine::branch(lt(*o, *self)) }
    fn ge(&self, o: &Sym) -> bool { engine::branch(le(*o, *self)) }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", term::show(self.0)) }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", term::show(self.0)) }
}
impl Zero for Sym {
    fn zero() -> Sym { k(0) }
    fn is_zero(&self) -> bool { *self == k(0) }
}
impl One for Sym {
    fn one() -> Sym { k(1) }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, r: u32) -> Result<Sym, ()> {
        if r == 10 { s.parse::<f64>().map(|x| Sym(term::from_f64(x))).map_err(|_| ()) } else { Err(()) }
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> { term::as_rat(self.0).and_then(|(n, d)| if d == 1 { i64::try_from(n).ok() } else { None }) }
    fn to_u64(&self) -> Option<u64> { term::as_rat(self.0).and_then(|(n, d)| if d == 1 { u64::try_from(n).ok() } else { None }) }
    fn to_f64(&self) -> Option<f64> { term::as_rat(self.0).map(|(n, d)| n as f64 / d as f64) }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> { n.to_f64().map(|x| Sym(term::from_f64(x))) }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> { Some(k(n as i128)) }
    fn from_u64(n: u64) -> Option<Sym> { Some(k(n as i128)) }
    fn from_f64(n: f64) -> Option<Sym> { Some(Sym(term::from_f64(n))) }
}

fn rpow(b: Sym, e: Sym) -> Sym {
    // real powers: defined for a positive base, or an integral exponent (non-zero base when it
    // is negative)
    let int_e = match term::as_rat(e.0) {
        Some((_, d)) => d == 1,
        None => integral(e.0),
    };
    if int_e {
        if !engine::defined(P::Or(vec![le(k(0), e), eq(b, k(0)).not()])) {
            return Sym::ap("undef_pow", &[b, e]);
        }
    } else {
        if !engine::defined(P::Or(vec![lt(k(0), b), P::And(vec![eq(b, k(0)), le(k(0), e)])])) {
            return Sym::ap("undef_pow", &[b, e]);
        }
    }
    Sym::ap("pow", &[b, e])
}
pub fn integral(i: Id) -> bool {
    match term::node(i) {
        Node::Var(s) => engine::is_integer_name(&s),
        Node::Rat(_, d) => d == 1,
        Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => integral(a) && integral(b),
        Node::Neg(a) => integral(a),
        _ => false,
    }
}
impl num_traits::Pow<Sym> for Sym {
    type Output = Sym;
    fn pow(self, e: Sym) -> Sym { rpow(self, e) }
}
impl<'a> num_traits::Pow<&'a Sym> for Sym {
    type Output = Sym;
    fn pow(self, e: &'a Sym) -> Sym { rpow(self, *e) }
}
impl num_traits::Pow<i32> for Sym {
    type Output = Sym;
    fn pow(self, e: i32) -> Sym { rpow(self, k(e as i128)) }
}

macro_rules! una { ($($n:ident),*) => { $( fn $n(self) -> Sym { Sym::ap(stringify!($n), &[self]) } )* }; }

impl Float for Sym {
    fn nan() -> Sym { Sym(term::mk(Node::NaN)) }
    fn infinity() -> Sym { Sym(term::mk(Node::Inf)) }
    fn neg_infinity() -> Sym { Sym(term::mk(Node::Neg(term::mk(Node::Inf)))) }
    fn neg_zero() -> Sym { Sym(term::mk(Node::Neg(term::int(0)))) }
    fn min_value() -> Sym { Sym(term::from_f64(f64::MIN)) }
    fn min_positive_value() -> Sym { Sym(term::from_f64(f64::MIN_POSITIVE)) }
    fn max_value() -> Sym { Sym(term::from_f64(f64::MAX)) }
    fn epsilon() -> Sym { Sym(term::from_f64(f64::EPSILON)) }
    fn is_nan(self) -> bool { engine::branch(P::IsNan(self.a())) }
    fn is_infinite(self) -> bool { engine::branch(P::IsInf(self.a())) }
    fn is_finite(self) -> bool { !self.is_nan() && !self.is_infinite() }
    fn is_normal(self) -> bool { unimplemented!() }
    fn classify(self) -> FpCategory { unimplemented!() }
    fn is_sign_negative(self) -> bool { engine::branch(P::SignNeg(self.a())) }
    fn is_sign_positive(self) -> bool { !self.is_sign_negative() }
    fn abs(self) -> Sym {
        if engine::mode() == Mode::Fp {
            return Sym::ap("abs", &[self]);
        }
        if self < k(0) { -self } else { self }
    }
    fn signum(self) -> Sym {
        if engine::mode() == Mode::Fp {
            if self.is_nan() {
                return self;
            }
            return if self.is_sign_negative() { k(-1) } else { k(1) };
        }
        if self < k(0) { k(-1) } else { k(1) }
    }
    fn max(self, o: Sym) -> Sym { if engine::mode() == Mode::Fp && self.is_nan() || self < o { o } else { self } }
    fn min(self, o: Sym) -> Sym { if engine::mode() == Mode::Fp && self.is_nan() || o < self { o } else { self } }
    fn abs_sub(self, o: Sym) -> Sym { if self <= o { k(0) } else { self - o } }
    fn mul_add(self, a: Sym, b: Sym) -> Sym { if engine::mode() == Mode::Fp { Sym::ap("fma", &[self, a, b]) } else { self * a + b } }
    fn recip(self) -> Sym { k(1) / self }
    fn powi(self, n: i32) -> Sym { rpow(self, k(n as i128)) }
    fn powf(self, n: Sym) -> Sym { rpow(self, n) }
    una!(floor, ceil, round, trunc, exp, sin, cos, sinh, cosh, tanh, atan, asinh, cbrt);
    fn fract(self) -> Sym { self - self.trunc() }
    fn tan(self) -> Sym {
        if !engine::defined(eq(self.cos(), k(0)).not()) {
            return Sym::ap("undef_tan", &[self]);
        }
        Sym::ap("tan", &[self])
    }
    fn sqrt(self) -> Sym {
        if !engine::defined(le(k(0), self)) {
            return Sym::ap("undef_sqrt", &[self]);
        }
        Sym::ap("sqrt", &[self])
    }
    fn ln(self) -> Sym {
        if !engine::defined(lt(k(0), self)) {
            return Sym::ap("undef_ln", &[self]);
        }
        Sym::ap("ln", &[self])
    }
    fn asin(self) -> Sym {
        if !engine::defined(P::And(vec![le(k(-1), self), le(self, k(1))])) {
            return Sym::ap("undef_asin", &[self]);
        }
        Sym::ap("asin", &[self])
    }
    fn acos(self) -> Sym {
        if !engine::defined(P::And(vec![le(k(-1), self), le(self, k(1))])) {
            return Sym::ap("undef_acos", &[self]);
        }
        Sym::ap("acos", &[self])
    }
    fn acosh(self) -> Sym {
        if !engine::defined(le(k(1), self)) {
            return Sym::ap("undef_acosh", &[self]);
        }
        Sym::ap("acosh", &[self])
    }
    fn atanh(self) -> Sym {
        if !engine::defined(P::And(vec![lt(k(-1), self), lt(self, k(1))])) {
            return Sym::ap("undef_atanh", &[self]);
        }
        Sym::ap("atanh", &[self])
    }
    fn exp2(self) -> Sym { rpow(k(2), self) }
    fn log(self, b: Sym) -> Sym { self.ln() / b.ln() }
    fn log2(self) -> Sym { self.ln() / k(2).ln() }
    fn log10(self) -> Sym { self.ln() / k(10).ln() }
    fn hypot(self, o: Sym) -> Sym { (self * self + o * o).sqrt() }
    fn atan2(self, o: Sym) -> Sym { Sym::ap("atan2", &[self, o]) }
    fn sin_cos(self) -> (Sym, Sym) { (self.sin(), self.cos()) }
    fn exp_m1(self) -> Sym { if engine::mode() == Mode::Fp { Sym::ap("exp_m1", &[self]) } else { self.exp() - k(1) } }
    fn ln_1p(self) -> Sym { if engine::mode() == Mode::Fp { Sym::ap("ln_1p", &[self]) } else { (self + k(1)).ln() } }
    fn integer_decode(self) -> (u64, i16, i8) { unimplemented!() }
}

macro_rules! fs1 { ($($n:ident),*) => { $( fn $n(self) -> Sym { Sym::ap(stringify!($n), &[self]) } )* }; }
impl special_fun::FloatSpecial for Sym {
    fn beta(self, b: Sym) -> Sym { self.gamma() * b.gamma() / (self + b).gamma() }
    fn betainc(self, a: Sym, b: Sym) -> Sym { Sym::ap("betainc", &[self, a, b]) }
    fn betainc_inv(self, a: Sym, b: Sym) -> Sym { Sym::ap("betainc_inv", &[self, a, b]) }
    fn factorial(self) -> Sym { (self + k(1)).gamma() }
    fs1!(gamma, loggamma, digamma, erf, erfc, norm, norm_inv, riemann_zeta);
    fn rgamma(self) -> Sym { k(1) / self.gamma() }
    fn gammainc(self, a: Sym) -> Sym { Sym::ap("gammainc", &[self, a]) }
    fn gammac(self, a: Sym) -> Sym { Sym::ap("gammac", &[self, a]) }
    fn gammac_inv(self, a: Sym) -> Sym { Sym::ap("gammac_inv", &[self, a]) }
    fn hyp1f1(self, a: Sym, b: Sym) -> Sym { Sym::ap("hyp1f1", &[self, a, b]) }
    fn hyp1f2(self, a: Sym, b: Sym, c: Sym) -> Sym { Sym::ap("hyp1f2", &[self, a, b, c]) }
    fn hyp2f1(self, a: Sym, b: Sym, c: Sym) -> Sym { Sym::ap("hyp2f1", &[self, a, b, c]) }
    fn hyp3f0(self, a: Sym, b: Sym, c: Sym) -> Sym { Sym::ap("hyp3f0", &[self, a, b, c]) }
    fn besselj(self, v: Sym) -> Sym { Sym::ap("besselj", &[self, v]) }
    fn bessely(self, v: Sym) -> Sym { Sym::ap("bessely", &[self, v]) }
    fn besseli(self, v: Sym) -> Sym { Sym::ap("besseli", &[self, v]) }
    fn besselk(self, v: i32) -> Sym { Sym::ap("besselk", &[self, k(v as i128)]) }
    fn hurwitz_zeta(self, q: Sym) -> Sym { Sym::ap("hurwitz_zeta", &[self, q]) }
}

impl Shaped for Sym {
    type Shape = S0;
    fn shape(&self) -> S0 { S0 }
}
/// Same bodies as /repo's `impl_scalar!` (checked for the primitive types under C07/C08).
impl Buffer for Sym {
    type Class = Scalars;
    type Field = Sym;
    fn class() -> Scalars { Scalars }
    fn get(&self, _: ()) -> Option<Sym> { Some(*self) }
    fn get_unchecked(&self, _: ()) -> Sym { *self }
    fn map<F: Scalar, M: Fn(Sym) -> F>(self, f: M) -> F { f(self) }
    fn map_ref<F: Scalar, M: Fn(Sym) -> F>(&self, f: M) -> F { f(*self) }
    fn mutate<M: Fn(Sym) -> Sym>(&mut self, f: M) { *self = f(*self); }
    fn fold<F, M: Fn(F, Sym) -> F>(&self, init: F, f: M) -> F { f(init, *self) }
}
impl ZipFold for Sym {
    fn zip_fold<A: Scalar, M: Fn(A, (Sym, Sym)) -> A>(&self, rhs: &Sym, init: A, f: M) -> Result<A, IncompatibleShapes<S0>> {
        Ok(f(init, (*self, *rhs)))
    }
}
impl ZipMap for Sym {
    type Output<A: Scalar> = A;
    fn zip_map<A: Scalar, M: Fn(Sym, Sym) -> A>(self, rhs: &Sym, f: M) -> Result<A, IncompatibleShapes<S0>> { Ok(f(self, *rhs)) }
    fn zip_shape(self, _: S0) -> Result<Sym, IncompatibleShapes<S0>> { Ok(self) }
}
impl Scalar for Sym {}

// ------------------------------------------------------------------ Val

/// What a harness needs of the scalar it is instantiated at: `Sym` for the proof, `f64` for the
/// replay of a counterexample.
pub trait Val:
    Float + FromPrimitive + num_traits::Pow<Self, Output = Self> + special_fun::FloatSpecial + Scalar + std::fmt::Debug + std::fmt::Display + 'static
{
    const SYM: bool;
    fn fresh(n: &str) -> Self;
    fn fresh_int(n: &str) -> Self;
    fn atom(self) -> Atom;
    fn c(x: f64) -> Self;
    fn rat_(n: i64, d: i64) -> Self { Self::c(n as f64) / Self::c(d as f64) }
    /// mathematical function by name (oracle side: no definedness obligation)
    fn o(f: &'static str, x: &[Self]) -> Self;
    /// directional derivative of `f` at `xs` along `dxs` (`xs` are fresh variables)
    fn tangent(f: &dyn Fn(&[Self]) -> Self, xs: &[Self], dxs: &[Self]) -> Self;
    fn feq(self, o: Self) -> P { P::Cmp(Op::Eq, self.atom(), o.atom()) }
    fn near(self, o: Self) -> P { P::Cmp(Op::Near, self.atom(), o.atom()) }
    fn flt(self, o: Self) -> P { P::Cmp(Op::Lt, self.atom(), o.atom()) }
    fn fle(self, o: Self) -> P { P::Cmp(Op::Le, self.atom(), o.atom()) }
    fn fnan(self) -> P { P::IsNan(self.atom()) }
    fn finf(self) -> P { P::IsInf(self.atom()) }
    /// is the value known to be infinite, or the result of an operation outside its domain?
    fn undefined(self) -> bool;
    fn fneg(self) -> P { P::SignNeg(self.atom()) }
    /// identical as a value: equal, or (in floating point) both NaN
    fn same(self, o: Self) -> P {
        if engine::mode() == Mode::Real { self.feq(o) } else { P::Or(vec![self.feq(o), P::And(vec![self.fnan(), o.fnan()])]) }
    }
}
impl Val for Sym {
    const SYM: bool = true;
    fn fresh(n: &str) -> Sym { Sym::var(n) }
    fn fresh_int(n: &str) -> Sym {
        engine::mark_integer(n);
        Sym::var(n)
    }
    fn atom(self) -> Atom { Atom::S(self.0) }
    fn undefined(self) -> bool { term::has_undef(self.0) }
    fn c(x: f64) -> Sym { Sym(term::from_f64(x)) }
    fn rat_(n: i64, d: i64) -> Sym { Sym::rat(n as i128, d as i128) }
    fn o(f: &'static str, x: &[Sym]) -> Sym { Sym::ap(f, x) }
    fn tangent(f: &dyn Fn(&[Sym]) -> Sym, xs: &[Sym], dxs: &[Sym]) -> Sym {
        let names: Vec<(String, Id)> = xs
            .iter()
            .zip(dxs)
            .map(|(x, d)| match term::node(x.0) {
                Node::Var(s) => (s, d.0),
                _ => panic!("tangent at a non-variable"),
            })
            .collect();
        let t = f(xs);
        Sym(term::diff(t.0, &|n| names.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(term::int(0))))
    }
}
impl Val for f64 {
    const SYM: bool = false;
    fn fresh(n: &str) -> f64 { engine::concrete_value(n) }
    fn fresh_int(n: &str) -> f64 { engine::concrete_value(n).round() }
    fn atom(self) -> Atom { Atom::F(self) }
    fn undefined(self) -> bool { !self.is_finite() }
    fn c(x: f64) -> f64 { x }
    fn o(f: &'static str, x: &[f64]) -> f64 {
        use special_fun::FloatSpecial as FS;
        let a = *x.first().unwrap_or(&0.0);
        match f {
            "pow" => a.powf(x[1]),
            "pi" => std::f64::consts::PI,
            "exp" => a.exp(),
            "ln" => a.ln(),
            "sin" => a.sin(),
            "cos" => a.cos(),
            "tan" => a.tan(),
            "sinh" => a.sinh(),
            "cosh" => a.cosh(),
            "tanh" => a.tanh(),
            "asin" => a.asin(),
            "acos" => a.acos(),
            "atan" => a.atan(),
            "asinh" => a.asinh(),
            "acosh" => a.acosh(),
            "atanh" => a.atanh(),
            "sqrt" => a.sqrt(),
            "abs" => a.abs(),
            "gamma" => FS::gamma(a),
            "loggamma" => FS::loggamma(a),
            "digamma" => FS::digamma(a),
            "erf" => FS::erf(a),
            "erfc" => FS::erfc(a),
            _ => f64::NAN,
        }
    }
    fn tangent(f: &dyn Fn(&[f64]) -> f64, xs: &[f64], dxs: &[f64]) -> f64 {
        let at = |h: f64| {
            let p: Vec<f64> = xs.iter().zip(dxs).map(|(x, d)| x + h * d).collect();
            f(&p)
        };
        let m = dxs.iter().fold(1f64, |a, b| a.max(b.abs()));
        let d = |h: f64| (at(h) - at(-h)) / (2.0 * h);
        let h = 1e-3 / m;
        let r1 = (4.0 * d(h / 2.0) - d(h)) / 3.0;
        let h = h / 4.0;
        let r2 = (4.0 * d(h / 2.0) - d(h)) / 3.0;
        // reject points where the numeric derivative is not trustworthy
        if (r1 - r2).abs() <= 1e-5 * 1f64.max(r2.abs()) { r2 } else { f64::NAN }
    }
}

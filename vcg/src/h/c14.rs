// What a printed expression denotes. Included at S = Sym (proof) and S = f64 (replay).
//
// Contract of `to_expr`: the result is Zero (the value is 0), One (the value is 1), or a text which, read by
// the grammar below, denotes the value; if the text is said to need no brackets it reads as one primary, so
// that it denotes the same wherever it is put. Each operator is proved against operands of which only this
// contract is known, hence by induction every expression built from them.
#[allow(unused_imports)]
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::{
    buffers::Spec,
    fmt::{Expr, PreWrap, ToExpr},
    ids, ops, Context, Differentiable, Function, Identifier, Node,
};

// ------------------------------------------------------------------ the grammar
#[derive(Clone, Debug)]
enum Ast {
    Num(i64, i64),
    Name(String),
    Call(String, Box<Ast>),
    Abs(Box<Ast>),
    Angle(Box<Ast>, Box<Ast>),
    Neg(Box<Ast>),
    Bin(char, Box<Ast>, Box<Ast>),
    Total(Box<Ast>),
}
struct Parse {
    t: Vec<char>,
    i: usize,
}
type R<T> = Result<T, String>;
impl Parse {
    fn ws(&mut self) {
        while self.i < self.t.len() && self.t[self.i] == ' ' {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<char> {
        self.ws();
        self.t.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> R<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {} in {:?}", c, self.i, self.t.iter().collect::<String>()))
        }
    }
    // sums, then products and quotients, then negation, then right-associative powers
    fn sum(&mut self) -> R<Ast> {
        let mut a = self.product()?;
        while let Some(c @ ('+' | '-')) = self.peek() {
            self.i += 1;
            a = Ast::Bin(c, Box::new(a), Box::new(self.product()?));
        }
        Ok(a)
    }
    fn product(&mut self) -> R<Ast> {
        let mut a = self.negation()?;
        while let Some(c @ ('\u{2218}' | '/' | '\u{2297}' | ':')) = self.peek() {
            self.i += 1;
            a = Ast::Bin(c, Box::new(a), Box::new(self.negation()?));
        }
        Ok(a)
    }
    fn negation(&mut self) -> R<Ast> {
        if self.peek() == Some('-') {
            self.i += 1;
            return Ok(Ast::Neg(Box::new(self.negation()?)));
        }
        self.power()
    }
    fn power(&mut self) -> R<Ast> {
        let a = self.primary()?;
        if self.peek() == Some('^') {
            self.i += 1;
            return Ok(Ast::Bin('^', Box::new(a), Box::new(self.negation()?)));
        }
        Ok(a)
    }
    fn primary(&mut self) -> R<Ast> {
        match self.peek() {
            Some('(') => {
                self.i += 1;
                let a = self.sum()?;
                self.eat(')')?;
                Ok(a)
            }
            Some('|') => {
                self.i += 1;
                let a = self.sum()?;
                self.eat('|')?;
                Ok(Ast::Abs(Box::new(a)))
            }
            Some('\u{27E8}') => {
                self.i += 1;
                let a = self.sum()?;
                self.eat(',')?;
                let b = self.sum()?;
                self.eat('\u{27E9}')?;
                Ok(Ast::Angle(Box::new(a), Box::new(b)))
            }
            Some('\u{BD}') => {
                self.i += 1;
                Ok(Ast::Num(1, 2))
            }
            Some('\u{221E}') => {
                self.i += 1;
                Ok(Ast::Name("\u{221E}".into()))
            }
            Some(c) if c.is_ascii_digit() => {
                let (mut n, mut d, mut point) = (0i64, 1i64, false);
                while let Some(&c) = self.t.get(self.i) {
                    if c == '.' && !point {
                        point = true;
                    } else if let Some(k) = c.to_digit(10) {
                        n = n * 10 + k as i64;
                        if point {
                            d *= 10;
                        }
                    } else {
                        break;
                    }
                    self.i += 1;
                }
                Ok(Ast::Num(n, d))
            }
            Some(c) if c.is_alphabetic() => {
                let mut s = String::new();
                while let Some(&c) = self.t.get(self.i) {
                    if !c.is_alphanumeric() && c != '_' {
                        break;
                    }
                    s.push(c);
                    self.i += 1;
                }
                if s == "\u{3A3}_i" {
                    self.eat('(')?;
                    let a = self.sum()?;
                    self.eat(')')?;
                    self.eat('_')?;
                    self.eat('i')?;
                    return Ok(Ast::Total(Box::new(a)));
                }
                // a function applied: its bracket follows at once
                if self.t.get(self.i) == Some(&'(') {
                    self.i += 1;
                    let a = self.sum()?;
                    self.eat(')')?;
                    return Ok(Ast::Call(s, Box::new(a)));
                }
                Ok(Ast::Name(s))
            }
            c => Err(format!("{:?} at {} in {:?}", c, self.i, self.t.iter().collect::<String>())),
        }
    }
}
fn read(t: &str, primary: bool) -> R<Ast> {
    let mut p = Parse { t: t.chars().collect(), i: 0 };
    let a = if primary { p.primary()? } else { p.sum()? };
    if p.peek().is_some() {
        return Err(format!("{:?} goes on after a complete expression at {}", t, p.i));
    }
    Ok(a)
}

// ------------------------------------------------------------------ what it denotes
#[derive(Clone, Debug)]
enum V {
    A(S),
    B(Vec<S>),
    C(Vec<Vec<S>>),
}
fn map(v: V, f: &dyn Fn(S) -> S) -> V {
    match v {
        V::A(x) => V::A(f(x)),
        V::B(x) => V::B(x.into_iter().map(f).collect()),
        V::C(x) => V::C(x.into_iter().map(|r| r.into_iter().map(f).collect()).collect()),
    }
}
fn zip(a: V, b: V, f: &dyn Fn(S, S) -> S) -> R<V> {
    Ok(match (a, b) {
        (V::A(x), b) => map(b, &|y| f(x, y)),
        (a, V::A(y)) => map(a, &|x| f(x, y)),
        (V::B(x), V::B(y)) => V::B(x.into_iter().zip(y).map(|p| f(p.0, p.1)).collect()),
        (V::C(x), V::C(y)) => V::C(x.into_iter().zip(y).map(|p| p.0.into_iter().zip(p.1).map(|q| f(q.0, q.1)).collect()).collect()),
        _ => return Err("entrywise operation on values of different rank".into()),
    })
}
fn flat(v: &V) -> Vec<S> {
    match v {
        V::A(x) => vec![*x],
        V::B(x) => x.clone(),
        V::C(x) => x.concat(),
    }
}
fn absolute(x: S) -> S { if engine::branch(x.flt(S::c(0.0))) { -x } else { x } }
type Env<'a> = &'a dyn Fn(&str) -> Option<V>;
fn denote(a: &Ast, env: Env) -> R<V> {
    Ok(match a {
        Ast::Num(n, d) => V::A(S::rat_(*n, *d)),
        Ast::Name(s) => match &s[..] {
            "\u{1D452}" => V::A(S::o("exp", &[S::c(1.0)])),
            "\u{3C0}" => V::A(S::o("pi", &[])),
            "\u{221E}" => V::A(S::c(f64::INFINITY)),
            n => env(n).ok_or_else(|| format!("unknown name {}", n))?,
        },
        Ast::Abs(x) => map(denote(x, env)?, &|x| absolute(x)),
        Ast::Neg(x) => map(denote(x, env)?, &|x| -x),
        Ast::Total(x) => V::A(flat(&denote(x, env)?).into_iter().fold(S::c(0.0), |a, b| a + b)),
        Ast::Angle(x, y) => match (denote(x, env)?, denote(y, env)?) {
            (V::A(x), V::A(y)) => V::A(x * y),
            (V::B(x), V::B(y)) => V::A(x.into_iter().zip(y).fold(S::c(0.0), |t, p| t + p.0 * p.1)),
            _ => return Err("inner product of values of these ranks".into()),
        },
        Ast::Call(f, x) => {
            let x = denote(x, env)?;
            let g: &dyn Fn(S) -> S = match &f[..] {
                "cos" | "sin" | "tan" | "cosh" | "sinh" | "tanh" | "acos" | "asin" | "atan" | "acosh" | "asinh" | "atanh" | "ln" | "erf" => {
                    let f = ["cos", "sin", "tan", "cosh", "sinh", "tanh", "acos", "asin", "atan", "acosh", "asinh", "atanh", "ln", "erf"].into_iter().find(|g| g == f).unwrap();
                    &move |x| S::o(f, &[x])
                }
                "\u{393}" => &|x| S::o("gamma", &[x]),
                "ln\u{393}" => &|x| S::o("loggamma", &[x]),
                "\u{3C8}" => &|x| S::o("digamma", &[x]),
                "\u{3C3}" => &|x| S::c(1.0) / (S::c(1.0) + S::o("exp", &[-x])),
                "sgn" => &|x| {
                    if engine::branch(x.flt(S::c(0.0))) {
                        S::c(-1.0)
                    } else if engine::branch(x.feq(S::c(0.0))) {
                        S::c(0.0)
                    } else {
                        S::c(1.0)
                    }
                },
                "\u{3B4}" => &|x| if engine::branch(x.feq(S::c(0.0))) { S::c(f64::INFINITY) } else { S::c(0.0) },
                _ => return Err(format!("unknown function {}", f)),
            };
            map(x, g)
        }
        Ast::Bin('^', x, y) if matches!(&**x, Ast::Name(s) if s == "\u{1D452}") => map(denote(y, env)?, &|y| S::o("exp", &[y])),
        Ast::Bin(c, x, y) => {
            let (x, y) = (denote(x, env)?, denote(y, env)?);
            match c {
                '+' => zip(x, y, &|x, y| x + y)?,
                '-' => zip(x, y, &|x, y| x - y)?,
                '\u{2218}' => zip(x, y, &|x, y| x * y)?,
                '/' => zip(x, y, &|x, y| x / y)?,
                '^' => zip(x, y, &|x, y| S::o("pow", &[x, y]))?,
                '\u{2297}' => match (x, y) {
                    (V::B(x), V::B(y)) => V::C(x.iter().map(|x| y.iter().map(|y| *x * *y).collect()).collect()),
                    (V::C(_), _) | (_, V::C(_)) => return Err("tensor product of matrices".into()),
                    (x, y) => zip(x, y, &|x, y| x * y)?,
                },
                ':' => match (x, y) {
                    (V::C(x), V::C(y)) => V::A(x.concat().into_iter().zip(y.concat()).fold(S::c(0.0), |t, p| t + p.0 * p.1)),
                    (V::A(x), V::A(y)) => V::A(x * y),
                    _ => return Err("double dot of values of these ranks".into()),
                },
                _ => unreachable!(),
            }
        }
    })
}

// ------------------------------------------------------------------ operands that meet the contract
#[derive(Clone)]
enum E {
    Zero,
    One,
    T(String, bool),
}
#[derive(Clone)]
struct Kid<B: Buf> {
    s: Stub<B>,
    e: E,
}
impl<B: Buf> Node for Kid<B> {}
impl<B: Buf, C: Context> Function<C> for Kid<B> {
    type Error = StubErr;
    type Value = B;
    fn evaluate<CR: AsMut<C>>(&self, ctx: CR) -> Result<B, StubErr> { self.s.evaluate(ctx) }
    fn evaluate_spec<CR: AsMut<C>>(&self, ctx: CR) -> Result<Spec<B>, StubErr> { self.s.evaluate_spec(ctx) }
    fn evaluate_shape<CR: AsMut<C>>(&self, ctx: CR) -> Result<B::Shape, StubErr> { self.s.evaluate_shape(ctx) }
}
impl<B: Buf> ToExpr for Kid<B> {
    fn to_expr(&self) -> Expr {
        match &self.e {
            E::Zero => Expr::Zero,
            E::One => Expr::One,
            E::T(t, w) => Expr::Text(PreWrap { text: t.clone(), needs_wrap: *w }),
        }
    }
}
impl<B: Buf> std::fmt::Display for Kid<B> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match &self.e {
            E::Zero => f.write_str("0"),
            E::One => f.write_str("1"),
            E::T(t, _) => f.write_str(t),
        }
    }
}
const KIDS: usize = 12;
/// any operand: known to be zero, known to be one, or with a text of each level of the grammar
fn kid(p: &'static str, q: &'static str, k: usize) -> Kid<S> {
    let (x, y) = (S::fresh(p), S::fresh(q));
    let t = |s: String, w| E::T(s, w);
    let (v, e) = match k {
        0 => (S::c(0.0), E::Zero),
        1 => (S::c(1.0), E::One),
        2 => (x, t(p.to_string(), false)),
        3 => (x + y, t(format!("{} + {}", p, q), true)),
        4 => (x - y, t(format!("{} - {}", p, q), true)),
        5 => (x * y, t(format!("{} \u{2218} {}", p, q), true)),
        6 => {
            assume(y.feq(S::c(0.0)).not());
            (x / y, t(format!("{} / {}", p, q), true))
        }
        7 => (-x, t(format!("-{}", p), true)),
        8 => {
            assume(S::c(0.0).flt(x));
            (S::o("pow", &[x, y]), t(format!("{}^{}", p, q), true))
        }
        9 => (absolute(x), t(format!("|{}|", p), false)),
        10 => (S::c(-1.0), t("-1".into(), true)),
        _ => (S::c(2.0), t("2".into(), false)),
    };
    Kid { s: Stub::ok(p, Spec::Raw(v)), e }
}

// ------------------------------------------------------------------ the contract itself
fn denotes<B: Buf<V = S>>(label: &str, t: &str, v: &B, env: Env) {
    let d = match read(t, false).and_then(|a| denote(&a, env)) {
        Ok(d) => d,
        Err(e) => return check(&format!("{}: readable", label), false, || format!("{:?}: {}", t, e)),
    };
    let ixs = B::ixs(&v.dims());
    let at = |ix: &[usize]| -> Option<S> {
        match (&d, ix) {
            (V::A(x), _) => Some(*x),
            (V::B(x), [i]) => x.get(*i).copied(),
            (V::C(x), [i, j]) => x.get(*i).and_then(|r| r.get(*j)).copied(),
            _ => None,
        }
    };
    for ix in ixs {
        match at(&ix) {
            None => return check(&format!("{}: denotes a value of the right rank", label), false, || format!("{:?} denotes {:?}", t, d)),
            Some(x) if x.undefined() => return check(&format!("{}: denotes the value", label), false, || format!("{:?} is not finite, the value is", t)),
            Some(x) => prove_note(&format!("{}: denotes the value", label), v.at(&ix).near(x), format!("{:?}", t)),
        }
    }
}
fn post<C: Context + AsMut<C> + Clone, O: Function<C> + ToExpr + std::fmt::Display>(f: &str, op: &O, c: &C, env: Env)
where
    O::Value: Buf<V = S>,
{
    fun(&format!("{}::to_expr", f));
    let v = match real(|| op.evaluate(&mut c.clone())) {
        Ok(v) => v,
        Err(_) => return check("evaluates", false, || "error although every operand evaluated".into()),
    };
    if O::Value::ixs(&v.dims()).iter().any(|i| v.at(i).undefined()) {
        return;
    }
    let constant = |k: f64| {
        for i in O::Value::ixs(&v.dims()) {
            prove(if k == 0.0 { "what is printed as known to be zero is zero" } else { "what is printed as known to be one is one" }, v.at(&i).near(S::c(k)));
        }
    };
    match real(|| op.to_expr()) {
        Expr::Zero => constant(0.0),
        Expr::One => constant(1.0),
        Expr::Text(pw) => {
            denotes("printed form", &pw.text, &v, env);
            if !pw.needs_wrap {
                check("a form that is not bracketed when used as an operand is atomic", read(&pw.text, true).is_ok(), || format!("{:?} is put bare next to other operators", pw.text));
            }
        }
    }
    fun(&format!("{}::fmt", f));
    let t = real(|| op.to_string());
    denotes("displayed form", &t, &v, env);
    let e = real(|| op.to_expr());
    match e {
        Expr::Zero => check("what is known to be zero is printed as 0", t == "0", || t.clone()),
        Expr::One => check("what is known to be one is printed as 1", t == "1", || t.clone()),
        Expr::Text(_) => {}
    }
    let t = real(|| op.to_expr().to_string());
    denotes("displayed form of the expression", &t, &v, env);
}
fn scalars(n: &str) -> Option<V> {
    match n {
        "p" => Some(V::A(S::fresh("p"))),
        "q" => Some(V::A(S::fresh("q"))),
        "r" => Some(V::A(S::fresh("r"))),
        "s" => Some(V::A(S::fresh("s"))),
        _ => None,
    }
}
macro_rules! unary { ($($f:ident $n:literal |$k:ident| $e:expr, $pre:expr;)*) => {
    mod un {
        use super::*;
        $( pub fn $f() {
            let $k = kid("p", "q", engine::choose(KIDS));
            if let Some(x) = $k.s.res.as_ref().ok().map(|s| spec_at(s, &[])) {
                let pre: fn(S) -> P = $pre;
                assume(pre(x));
            }
            post($n, &$e, &Nc, &scalars);
        } )*
    }
    fn unary() {
        let v: Vec<fn()> = vec![$(un::$f),*];
        let c = engine::choose(v.len());
        v[c]()
    }
    // derivatives of the operators applied to a variable
    mod der {
        use super::*;
        $( pub fn $f() {
            let x = S::fresh("x");
            let pre: fn(S) -> P = $pre;
            assume(pre(x));
            let c = Two::<S, S>(Some(Spec::Raw(x)), Some(Spec::Raw(S::fresh("y"))));
            let $k = ids::X.into_var();
            let d = real(|| $e.adjoint(ids::X));
            post(concat!($n, " differentiated"), &d, &c, &xy);
            let $k = ids::X.into_var();
            let d = real(|| $e.adjoint(ids::Y));
            post(concat!($n, " differentiated by another variable"), &d, &c, &xy);
        } )*
    }
} }
fn xy(n: &str) -> Option<V> {
    match n {
        "x" => Some(V::A(S::fresh("x"))),
        "y" => Some(V::A(S::fresh("y"))),
        _ => None,
    }
}
fn any(_: S) -> P { P::T }
fn pos(x: S) -> P { S::c(0.0).flt(x) }
unary! {
    square "Square" |k| ops::Square(k), any;
    double "Double" |k| ops::Double(k), any;
    negate "Negate" |k| ops::Negate(k), any;
    abs "Abs" |k| ops::Abs(k), any;
    sign "Sign" |k| ops::Sign(k), any;
    add_one "AddOne" |k| ops::AddOne(k), any;
    sub_one "SubOne" |k| ops::SubOne(k), any;
    one_sub "OneSub" |k| ops::OneSub(k), any;
    ln "Ln" |k| ops::Ln(k), any;
    xlnx "XLnX" |k| ops::XLnX(k), pos;
    exp "Exp" |k| ops::Exp(k), any;
    sigmoid "Sigmoid" |k| ops::Sigmoid(k), any;
    rabbit "Rabbit" |k| ops::Rabbit(k), any;
    cos "Cos" |k| ops::trig::Cos(k), any;
    sin "Sin" |k| ops::trig::Sin(k), any;
    gamma "Gamma" |k| ops::special::Gamma(k), pos;
    loggamma "LogGamma" |k| ops::special::LogGamma(k), pos;
}
macro_rules! plain { ($($f:ident $n:literal |$k:ident| $e:expr, $pre:expr;)*) => {
    mod pl {
        use super::*;
        $( pub fn $f() {
            let $k = kid("p", "q", engine::choose(KIDS));
            if let Some(x) = $k.s.res.as_ref().ok().map(|s| spec_at(s, &[])) {
                let pre: fn(S) -> P = $pre;
                assume(pre(x));
            }
            post($n, &$e, &Nc, &scalars);
        } )*
    }
    fn plain() {
        let v: Vec<fn()> = vec![$(pl::$f),*];
        let c = engine::choose(v.len());
        v[c]()
    }
} }
plain! {
    acos "ArcCos" |k| ops::trig::ArcCos(k), any;
    asin "ArcSin" |k| ops::trig::ArcSin(k), any;
    atan "ArcTan" |k| ops::trig::ArcTan(k), any;
    acosh "ArcCosh" |k| ops::trig::ArcCosh(k), any;
    asinh "ArcSinh" |k| ops::trig::ArcSinh(k), any;
    atanh "ArcTanh" |k| ops::trig::ArcTanh(k), any;
    tan "Tan" |k| ops::trig::Tan(k), any;
    cosh "Cosh" |k| ops::trig::Cosh(k), any;
    sinh "Sinh" |k| ops::trig::Sinh(k), any;
    tanh "Tanh" |k| ops::trig::Tanh(k), any;
    erf "Erf" |k| ops::special::Erf(k), any;
    digamma "DiGamma" |k| ops::special::DiGamma(k), pos;
    dirac "Dirac" |k| ops::Dirac(k), any;
}
fn derived() {
    let v: Vec<fn()> = vec![
        der::square, der::double, der::negate, der::abs, der::sign, der::add_one, der::sub_one, der::one_sub, der::ln, der::xlnx, der::exp, der::sigmoid, der::rabbit,
        der::cos, der::sin, der::gamma, der::loggamma,
    ];
    let c = engine::choose(v.len());
    v[c]()
}
/// No buffer of the crate supports double contraction, so the value is given here: for scalars, the product.
struct DoubleDot(S, ops::TensorDoubleDot<Kid<S>, Kid<S>>);
impl Node for DoubleDot {}
impl<C: Context> Function<C> for DoubleDot {
    type Error = StubErr;
    type Value = S;
    fn evaluate<CR: AsMut<C>>(&self, _: CR) -> Result<S, StubErr> { Ok(self.0) }
    fn evaluate_shape<CR: AsMut<C>>(&self, _: CR) -> Result<aegir::buffers::shapes::S0, StubErr> { Ok(aegir::buffers::shapes::S0) }
}
impl ToExpr for DoubleDot {
    fn to_expr(&self) -> Expr { self.1.to_expr() }
}
impl std::fmt::Display for DoubleDot {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.1.fmt(f) }
}
macro_rules! binary { ($($f:ident $n:literal |$k:ident, $l:ident| $e:expr;)*) => {
    mod bi {
        use super::*;
        $( pub fn $f() {
            let $k = kid("p", "q", engine::choose(KIDS));
            let $l = kid("r", "s", engine::choose(KIDS));
            post($n, &$e, &Nc, &scalars);
        } )*
    }
    fn binary() {
        let v: Vec<fn()> = vec![$(bi::$f),*];
        let c = engine::choose(v.len());
        v[c]()
    }
} }
binary! {
    add "Add" |k, l| ops::Add(k, l);
    sub "Sub" |k, l| ops::Sub(k, l);
    mul "Mul" |k, l| ops::Mul(k, l);
    div "Div" |k, l| ops::Div(k, l);
    power "Power" |k, l| ops::Power(k, l);
    dot "TensorDot" |k, l| ops::TensorDot::new(k, l);
    outer "TensorProduct" |k, l| ops::TensorProduct::new(k, l);
    ddot "TensorDoubleDot" |k, l| DoubleDot(spec_at(k.s.res.as_ref().unwrap(), &[]) * spec_at(l.s.res.as_ref().unwrap(), &[]), ops::TensorDoubleDot::new(k, l));
}
// vectors and matrices under the products
fn vec_kid<B: Buf<V = S>>(p: &'static str, q: &'static str, k: usize, d: &[usize]) -> Kid<B> {
    let (x, y) = (fresh_buf::<B>(p, d), fresh_buf::<B>(q, d));
    let (v, e) = match k {
        0 => (B::mk(d, &mut |_| S::c(0.0)), E::Zero),
        1 => (x, E::T(p.into(), false)),
        2 => (B::mk(d, &mut |i| x.at(i) - y.at(i)), E::T(format!("{} - {}", p, q), true)),
        _ => (B::mk(d, &mut |i| -x.at(i)), E::T(format!("-{}", p), true)),
    };
    Kid { s: Stub::ok(p, Spec::Raw(v)), e }
}
fn vecs(n: &str) -> Option<V> { if ["p", "q", "r", "s"].contains(&n) { Some(V::B((0..2).map(|i| S::fresh(&format!("{}_{}", n, i))).collect())) } else { None } }
fn products() {
    let (k, l) = (engine::choose(4), engine::choose(4));
    type B = [S; 2];
    match engine::choose(2) {
        0 => post("TensorDot", &ops::TensorDot::new(vec_kid::<B>("p", "q", k, &[2]), vec_kid::<B>("r", "s", l, &[2])), &Nc, &vecs),
        _ => post("TensorProduct", &ops::TensorProduct::new(vec_kid::<B>("p", "q", k, &[2]), vec_kid::<B>("r", "s", l, &[2])), &Nc, &vecs),
    }
}
fn total() {
    let k = vec_kid::<[S; 2]>("p", "q", engine::choose(4), &[2]);
    let op = ops::Sum(k);
    fun("Sum::fmt");
    let t = real(|| op.to_string());
    if let Ok(v) = real(|| op.evaluate(Nc)) {
        denotes("displayed form", &t, &v, &vecs);
    }
}
// ------------------------------------------------------------------ sources
fn sources() {
    let (x, y) = (S::fresh("x"), S::fresh("y"));
    let c = Two::<S, S>(Some(Spec::Raw(x)), Some(Spec::Raw(y)));
    post("Variable", &real(|| ids::X.into_var()), &c, &xy);
    post("Variable", &real(|| ids::Y.into_var()), &c, &xy);
    post("VariableAdjoint", &real(|| ids::X.into_var().adjoint(ids::X)), &c, &xy);
    post("VariableAdjoint", &real(|| ids::X.into_var().adjoint(ids::Y)), &c, &xy);
    post("ConstantAdjoint", &real(|| ids::X.into_var().adjoint(ids::X).adjoint(ids::X)), &c, &xy);
    post("ConstantAdjoint", &real(|| aegir::meta::Constant(x).adjoint(ids::X)), &c, &xy);
}
fn constants() {
    fun("Constant::to_expr");
    let say = |e: Expr, t: String, v: f64| {
        let w = match e {
            Expr::Zero => return check("what is printed as known to be zero is zero", v == 0.0 && t == "0", || t),
            Expr::One => return check("what is printed as known to be one is one", v == 1.0 && t == "1", || t),
            Expr::Text(pw) => pw,
        };
        denotes("printed form", &w.text, &S::c(v), &scalars);
        denotes("displayed form", &t, &S::c(v), &scalars);
        if !w.needs_wrap {
            check("a form that is not bracketed when used as an operand is atomic", read(&w.text, true).is_ok(), || w.text.clone());
        }
    };
    for v in [0.0, 1.0, -1.0, 2.0, 0.5, -0.25, 3.0, -7.75, 1024.0, 1048577.0, -0.0009765625] {
        let k = aegir::meta::Constant(v);
        say(real(|| k.to_expr()), real(|| k.to_string()), v);
        let k = aegir::meta::Constant(v as f32);
        say(real(|| k.to_expr()), real(|| k.to_string()), (v as f32) as f64);
    }
    for v in [0, 1, -1, 2, -2, 10, -120] {
        let k = aegir::meta::Constant(v as i64);
        say(real(|| k.to_expr()), real(|| k.to_string()), v as f64);
        let k = aegir::meta::Constant(v as i8);
        say(real(|| k.to_expr()), real(|| k.to_string()), v as f64);
    }
}
macro_rules! binder { ($($n:literal |$k:ident, $l:ident| $e:expr;)*) => {
    fn binder() {
        let c = Two::<S, S>(Some(Spec::Raw(S::fresh("x"))), Some(Spec::Raw(S::fresh("y"))));
        let v: Vec<Box<dyn Fn()>> = vec![$(Box::new(|| {
            let ($k, $l) = (ids::X.into_var(), ids::Y.into_var());
            assume(pos(S::fresh("x"))); // a power's base, a logarithm's operand
            post(concat!($n, " differentiated by its first operand"), &real(|| $e.adjoint(ids::X)), &c, &xy);
            post(concat!($n, " differentiated by its second operand"), &real(|| $e.adjoint(ids::Y)), &c, &xy);
            let ($k, $l) = (ops::AddOne(ids::X.into_var()), ops::Negate(ids::Y.into_var()));
            post(concat!($n, " of a sum and a negation, differentiated"), &real(|| $e.adjoint(ids::X)), &c, &xy);
            post(concat!($n, " of a sum and a negation, differentiated by the second"), &real(|| $e.adjoint(ids::Y)), &c, &xy);
        })),*];
        let k = engine::choose(v.len());
        v[k]()
    }
} }
binder! {
    "Add" |k, l| ops::Add(k, l);
    "Sub" |k, l| ops::Sub(k, l);
    "Mul" |k, l| ops::Mul(k, l);
    "Div" |k, l| ops::Div(k, l);
    "Power" |k, l| ops::Power(k, l);
    "TensorDot" |k, l| ops::TensorDot::new(k, l);
    "TensorProduct" |k, l| ops::TensorProduct::new(k, l);
}
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![
        ("unary operators", Mode::Real, unary as fn(), ""),
        ("inverse functions, polygamma, delta", Mode::Real, plain, ""),
        ("binary operators", Mode::Real, binary, ""),
        ("products of vectors and matrices", Mode::Real, products, "extent 2"),
        ("sums of entries", Mode::Real, total, "extent 2"),
        ("variables and derivatives of sources", Mode::Real, sources, ""),
        ("constants", Mode::Real, constants, "18 numbers of 4 types"),
        ("derivatives of unary operators", Mode::Real, derived, ""),
        ("derivatives of binary operators", Mode::Real, binder, ""),
    ]
}

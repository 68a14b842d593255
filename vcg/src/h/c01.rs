// Contracts of the derivative trees. Included at S = Sym (proof) and S = f64 (replay).
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::buffers::Spec;
use aegir::{ids, ops, Differentiable, Function, Node};
type J = Jet<S>;

fn jet(id: &'static str, ids: [&'static str; 3]) -> J {
    // every derivative order of the operand is an arbitrary lifted scalar
    let k: Vec<Spec<S>> = ids.iter().map(|n| if engine::choose(2) == 0 { Spec::Raw(S::fresh(n)) } else { Spec::Full(aegir::buffers::shapes::S0, S::fresh(n)) }).collect();
    let mut v = vec![];
    for (i, s) in k.into_iter().enumerate() {
        v.push(Stub::ok(if i == 0 { id } else { ids[i] }, s));
    }
    Jet { ord: 0, v }
}
fn var(n: &str) -> S { S::fresh(n) }

fn post<O>(f: &str, op: &O, val: S, der: S)
where
    O: Function<Nc, Value = S> + Differentiable<ids::T>,
    O::Adjoint: Function<Nc, Value = S>,
{
    fun(&format!("{}::evaluate", f));
    let v = real(|| op.evaluate(Nc));
    match v {
        Ok(v) => prove("the operator's own value", v.feq(val)),
        Err(_) => check("evaluates", false, || "error although every operand evaluated".into()),
    }
    fun(&format!("{}::adjoint", f));
    let a = real(|| op.adjoint(ids::T).evaluate(Nc));
    match a {
        Ok(a) => prove("derivative tree == derivative of the value", a.near(der)),
        Err(_) => check("derivative evaluates", false, || "error although every operand evaluated".into()),
    }
    let a = real(|| op.adjoint(ids::T).evaluate_spec(Nc));
    match a {
        Ok(a) => prove("lifted derivative == derivative of the value", spec_at(&a, &[]).near(der)),
        Err(_) => check("lifted derivative evaluates", false, || "error although every operand evaluated".into()),
    }
    fun(&format!("{}::evaluate_adjoint", f));
    let a = real(|| op.evaluate_adjoint(ids::T, Nc));
    match a {
        Ok(a) => prove("one-step derivative == derivative of the value", a.near(der)),
        Err(_) => check("one-step derivative evaluates", false, || "error although every operand evaluated".into()),
    }
    fun(&format!("{}::evaluate_dual", f));
    let d = real(|| op.evaluate_dual(ids::T, Nc));
    match d {
        Ok(d) => {
            prove("dual value", d.value.feq(val));
            prove("dual coefficient", d.adjoint.near(der));
        }
        Err(_) => check("dual evaluates", false, || "error although every operand evaluated".into()),
    }
}
fn second<O>(f: &str, op: &O, dd: S)
where
    O: Differentiable<ids::T>,
    O::Adjoint: Differentiable<ids::T>,
    <O::Adjoint as Differentiable<ids::T>>::Adjoint: Function<Nc, Value = S>,
{
    fun(&format!("{}::adjoint::adjoint", f));
    match real(|| op.adjoint(ids::T).adjoint(ids::T).evaluate(Nc)) {
        Ok(a) => prove("second derivative tree == second derivative", a.near(dd)),
        Err(_) => check("second derivative evaluates", false, || "error although every operand evaluated".into()),
    }
}
fn x1() -> (J, S, S) {
    let j = jet("x", ["x", "dx", "ddx"]);
    (j, var("x"), var("dx"))
}
fn any(_: S) -> P { P::T }
fn pos(x: S) -> P { S::c(0.0).flt(x) }
fn nonzero(x: S) -> P { x.feq(S::c(0.0)).not() }

macro_rules! unary {
    ($($h:ident, $name:literal, |$j:ident| $op:expr, $dom:expr, |$x:ident| $spec:expr;)*) => { $(
        fn $h() {
            let ($j, x, dx) = x1();
            assume($dom(x));
            let op = $op;
            let spec = |v: &[S]| -> S { let $x = v[0]; $spec };
            let val = spec(&[x]);
            let der = S::tangent(&spec, &[x], &[dx]);
            post($name, &op, val, der);
        }
    )* };
}
unary! {
    neg, "Negate", |j| ops::Negate(j), any, |x| S::c(0.0) - x;
    double, "Double", |j| ops::Double(j), any, |x| x + x;
    square, "Square", |j| ops::Square(j), any, |x| x * x;
    addone, "AddOne", |j| ops::AddOne(j), any, |x| x + S::c(1.0);
    subone, "SubOne", |j| ops::SubOne(j), any, |x| x - S::c(1.0);
    onesub, "OneSub", |j| ops::OneSub(j), any, |x| S::c(1.0) - x;
    abs, "Abs", |j| ops::Abs(j), nonzero, |x| if x < S::c(0.0) { S::c(0.0) - x } else { x };
    sign, "Sign", |j| ops::Sign(j), nonzero, |x| if x < S::c(0.0) { S::c(-1.0) } else { S::c(1.0) };
    exp, "Exp", |j| ops::Exp(j), any, |x| S::o("exp", &[x]);
    ln, "Ln", |j| ops::Ln(j), pos, |x| S::o("ln", &[x]);
    xlnx, "XLnX", |j| ops::XLnX(j), pos, |x| x * S::o("ln", &[x]);
    sin, "Sin", |j| ops::trig::Sin(j), any, |x| S::o("sin", &[x]);
    cos, "Cos", |j| ops::trig::Cos(j), any, |x| S::o("cos", &[x]);
    sigmoid, "Sigmoid", |j| ops::Sigmoid(j), any, |x| S::c(1.0) / (S::c(1.0) + S::o("exp", &[S::c(0.0) - x]));
    rabbit, "Rabbit", |j| ops::Rabbit(j), any, |x| x * (S::c(1.0) - x);
    gamma, "Gamma", |j| ops::special::Gamma(j), pos, |x| S::o("gamma", &[x]);
    loggamma, "LogGamma", |j| ops::special::LogGamma(j), pos, |x| S::o("loggamma", &[x]);
    factorial, "Factorial", |j| ops::special::Factorial::factorial(j), pos, |x| S::o("gamma", &[x + S::c(1.0)]);
}
macro_rules! binary {
    ($($h:ident, $name:literal, |$j:ident, $l:ident| $op:expr, |$a:ident, $b:ident| $dom:expr, $spec:expr;)*) => { $(
        fn $h() {
            let $j = jet("x", ["x", "dx", "ddx"]);
            let $l = jet("y", ["y", "dy", "ddy"]);
            let (x, dx, y, dy) = (var("x"), var("dx"), var("y"), var("dy"));
            { let ($a, $b) = (x, y); let _ = ($a, $b); assume($dom); }
            let op = $op;
            let spec = |v: &[S]| -> S { let ($a, $b) = (v[0], v[1]); $spec };
            let val = spec(&[x, y]);
            let der = S::tangent(&spec, &[x, y], &[dx, dy]);
            post($name, &op, val, der);
        }
    )* };
}
binary! {
    add, "Add", |l, r| ops::Add(l, r), |a, b| P::T, a + b;
    sub, "Sub", |l, r| ops::Sub(l, r), |a, b| P::T, a - b;
    mul, "Mul", |l, r| ops::Mul(l, r), |a, b| P::T, a * b;
    div, "Div", |l, r| ops::Div(l, r), |a, b| nonzero(b), a / b;
    power, "Power", |l, r| ops::Power(l, r), |a, b| pos(a), S::o("pow", &[a, b]);
    dot, "Contract<1> of scalars", |l, r| ops::TensorDot::new(l, r), |a, b| P::T, a * b;
    outer, "Contract<0> of scalars", |l, r| ops::TensorProduct::new(l, r), |a, b| P::T, a * b;
}
/// b^n for a constant integer n and any base (b != 0 unless n >= 1)
fn power_int() {
    let j = jet("x", ["x", "dx", "ddx"]);
    let (x, dx) = (var("x"), var("dx"));
    let n = S::fresh_int("n");
    assume(P::Or(vec![S::c(1.0).fle(n), nonzero(x)]));
    let e = |v: S| if engine::choose(2) == 0 { Spec::Raw(v) } else { Spec::Full(aegir::buffers::shapes::S0, v) };
    let k = Jet { ord: 0, v: vec![Stub::ok("n", e(n)), Stub::ok("dn", e(S::c(0.0)))] };
    let op = ops::Power(j, k);
    let spec = |v: &[S]| S::o("pow", &[v[0], v[1]]);
    let der = S::tangent(&spec, &[x, n], &[dx, S::c(0.0)]);
    post("Power (integer exponent)", &op, spec(&[x, n]), der);
}
/// the squared base through the literal exponent
fn power_consts() {
    let k = [0i32, 1, 2, 3, -1, -2][engine::choose(6)];
    let j = jet("x", ["x", "dx", "ddx"]);
    let (x, dx) = (var("x"), var("dx"));
    assume(nonzero(x));
    let n = S::c(k as f64);
    let kk = Jet { ord: 0, v: vec![Stub::ok("n", Spec::Raw(n)), Stub::ok("dn", Spec::Full(aegir::buffers::shapes::S0, S::c(0.0)))] };
    let op = ops::Power(j, kk);
    let val = { let mut p = S::c(1.0); for _ in 0..k.abs() { p = p * x } if k < 0 { S::c(1.0) / p } else { p } };
    let der = { let mut p = S::c(1.0); for _ in 0..(k - 1).abs() { p = p * x } let p = if k < 1 { S::c(1.0) / p } else { p }; S::c(k as f64) * p * dx };
    post(&format!("Power (exponent {})", k), &op, val, der);
}

// second derivatives: the derivative of each derivative tree
macro_rules! unary2 {
    ($($h:ident, $name:literal, |$j:ident| $op:expr, $dom:expr, |$x:ident, $dx:ident| $spec:expr;)*) => { $(
        fn $h() {
            let ($j, x, dx) = x1();
            let ddx = var("ddx");
            assume($dom(x));
            let op = $op;
            // derivative of the (already established) first derivative, as a function of (x, dx)
            let spec = |v: &[S]| -> S { let ($x, $dx) = (v[0], v[1]); $spec };
            let dd = S::tangent(&spec, &[x, dx], &[dx, ddx]);
            second($name, &op, dd);
        }
    )* };
}
unary2! {
    neg2, "Negate", |j| ops::Negate(j), any, |x, dx| { let _ = x; S::c(0.0) - dx };
    double2, "Double", |j| ops::Double(j), any, |x, dx| { let _ = x; dx + dx };
    square2, "Square", |j| ops::Square(j), any, |x, dx| (x + x) * dx;
    addone2, "AddOne", |j| ops::AddOne(j), any, |x, dx| { let _ = x; dx };
    subone2, "SubOne", |j| ops::SubOne(j), any, |x, dx| { let _ = x; dx };
    onesub2, "OneSub", |j| ops::OneSub(j), any, |x, dx| { let _ = x; S::c(0.0) - dx };
    exp2, "Exp", |j| ops::Exp(j), any, |x, dx| S::o("exp", &[x]) * dx;
    ln2, "Ln", |j| ops::Ln(j), pos, |x, dx| dx / x;
    xlnx2, "XLnX", |j| ops::XLnX(j), pos, |x, dx| (S::o("ln", &[x]) + S::c(1.0)) * dx;
    sin2, "Sin", |j| ops::trig::Sin(j), any, |x, dx| S::o("cos", &[x]) * dx;
    cos2, "Cos", |j| ops::trig::Cos(j), any, |x, dx| S::c(0.0) - S::o("sin", &[x]) * dx;
    sigmoid2, "Sigmoid", |j| ops::Sigmoid(j), any, |x, dx| { let e = S::o("exp", &[S::c(0.0) - x]); let o = S::c(1.0) + e; e / (o * o) * dx };
    rabbit2, "Rabbit", |j| ops::Rabbit(j), any, |x, dx| (S::c(1.0) - (x + x)) * dx;
}
macro_rules! binary2 {
    ($($h:ident, $name:literal, |$j:ident, $l:ident| $op:expr, |$a:ident, $b:ident, $da:ident, $db:ident| $dom:expr, $spec:expr;)*) => { $(
        fn $h() {
            let $j = jet("x", ["x", "dx", "ddx"]);
            let $l = jet("y", ["y", "dy", "ddy"]);
            let (x, dx, ddx, y, dy, ddy) = (var("x"), var("dx"), var("ddx"), var("y"), var("dy"), var("ddy"));
            { let ($a, $b, $da, $db) = (x, y, dx, dy); let _ = ($a, $b, $da, $db); assume($dom); }
            let op = $op;
            let spec = |v: &[S]| -> S { let ($a, $b, $da, $db) = (v[0], v[1], v[2], v[3]); let _ = ($a, $b); $spec };
            let dd = S::tangent(&spec, &[x, y, dx, dy], &[dx, dy, ddx, ddy]);
            second($name, &op, dd);
        }
    )* };
}
binary2! {
    add2, "Add", |l, r| ops::Add(l, r), |a, b, da, db| P::T, da + db;
    sub2, "Sub", |l, r| ops::Sub(l, r), |a, b, da, db| P::T, da - db;
    mul2, "Mul", |l, r| ops::Mul(l, r), |a, b, da, db| P::T, a * db + b * da;
    div2, "Div", |l, r| ops::Div(l, r), |a, b, da, db| nonzero(b), (da * b - a * db) / (b * b);
}

pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    macro_rules! l { ($($f:ident),* $(,)?) => { vec![$((concat!("c01::", stringify!($f)), Mode::Real, $f as fn(), "")),*] } }
    l![
        neg, double, square, addone, subone, onesub, abs, sign, exp, ln, xlnx, sin, cos, sigmoid, rabbit, gamma, loggamma, factorial,
        add, sub, mul, div, power, dot, outer, power_int, power_consts,
        neg2, double2, square2, addone2, subone2, onesub2, exp2, ln2, xlnx2, sin2, cos2, sigmoid2, rabbit2, add2, sub2, mul2, div2
    ]
}

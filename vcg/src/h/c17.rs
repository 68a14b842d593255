// Contracts of the piecewise and saturating operators on every 64-bit float.
#[allow(unused_imports)]
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::{buffers::{Buffer, Spec}, ops, Function};

fn run<B: Buf<V = S>, O: Function<Nc, Value = B>>(f: &str, d: &[usize], x: &Spec<B>, op: O, post: &dyn Fn(&str, S, S)) {
    fun(&format!("{}::evaluate ({})", f, tn::<B>()));
    match real(|| op.evaluate(Nc)) {
        Ok(v) => for ix in B::ixs(d) {
            post("", spec_at(x, &ix), v.at(&ix))
        },
        Err(_) => check("evaluation succeeds", false, || "an error was returned".into()),
    }
    fun(&format!("{}::evaluate_spec ({})", f, tn::<B>()));
    match real(|| op.evaluate_spec(Nc)) {
        Ok(v) => for ix in B::ixs(d) {
            post(" (lifted)", spec_at(x, &ix), spec_at(&v, &ix))
        },
        Err(_) => check("evaluation succeeds", false, || "an error was returned".into()),
    }
}
fn operand<B: Buf<V = S>>(d: &[usize]) -> Spec<B> {
    let x = any_spec::<B>("x", d);
    for ix in B::ixs(d) {
        assume(spec_at(&x, &ix).fnan().not());
    }
    x
}
fn z() -> S { S::c(0.0) }
fn one() -> S { S::c(1.0) }
fn two() -> S { S::c(2.0) }
/// the same float, or not a number on both sides
fn eq(a: S, b: S) -> P { P::Or(vec![a.feq(b), P::And(vec![a.fnan(), b.fnan()])]) }
fn inf(x: S) -> P { P::And(vec![x.finf(), x.fneg().not()]) }

macro_rules! over {
    ($name:ident, $op:ident, $post:expr) => {
        fn $name() {
            fn go<B: Buf<V = S, Field = S>>(d: &[usize])
            where
                ops::$op<Stub<B>>: Function<Nc, Value = B>,
            {
                let x = operand::<B>(d);
                run(stringify!($op), d, &x, ops::$op(Stub::ok("x", x.clone())), &$post);
            }
            let v: Vec<fn()> = vec![|| go::<S>(&[]), || go::<[S; 2]>(&[2]), || go::<Vec<S>>(&[2]), || go::<(S, S)>(&[2]), || go::<[[S; 2]; 2]>(&[2, 2]), || go::<Gen<S>>(&[3])];
            let c = engine::choose(v.len());
            v[c]()
        }
    };
}
over!(sigmoid, Sigmoid, |l: &str, x: S, y: S| {
    prove(&format!("is never NaN{}", l), y.fnan().not());
    prove(&format!("is at least 0{}", l), z().fle(y));
    prove(&format!("is at most 1{}", l), y.fle(one()));
    prove(&format!("is one half at zero{}", l), x.feq(z()).implies(y.feq(S::c(0.5))));
});
over!(xlnx, XLnX, |l: &str, x: S, y: S| {
    prove(&format!("is zero for every non-positive input{}", l), x.fle(z()).implies(y.feq(z())));
    prove(&format!("is never NaN for finite input{}", l), x.finf().not().implies(y.fnan().not()));
});
over!(sign, Sign, |l: &str, x: S, y: S| {
    prove(&format!("is 1 for positive input{}", l), z().flt(x).implies(y.feq(one())));
    prove(&format!("is -1 for negative input{}", l), x.flt(z()).implies(y.feq(-one())));
    prove(&format!("is 0 at zero{}", l), x.feq(z()).implies(y.feq(z())));
});
over!(abs, Abs, |l: &str, x: S, y: S| {
    prove(&format!("is non-negative{}", l), z().fle(y));
    prove(&format!("is the input or its negation{}", l), P::Or(vec![y.feq(x), y.feq(-x)]));
});
over!(dirac, Dirac, |l: &str, x: S, y: S| {
    prove(&format!("is zero off zero{}", l), x.feq(z()).not().implies(y.feq(z())));
    prove(&format!("is infinite at zero{}", l), x.feq(z()).implies(inf(y)));
});
over!(rabbit, Rabbit, |l: &str, x: S, y: S| prove(&format!("is the float expression x * (1 - x){}", l), eq(y, x * (one() - x))));
over!(double, Double, |l: &str, x: S, y: S| prove(&format!("is the float expression 2 * x{}", l), eq(y, two() * x)));
over!(add_one, AddOne, |l: &str, x: S, y: S| prove(&format!("is the float expression x + 1{}", l), eq(y, x + one())));
over!(sub_one, SubOne, |l: &str, x: S, y: S| prove(&format!("is the float expression x - 1{}", l), eq(y, x - one())));
over!(one_sub, OneSub, |l: &str, x: S, y: S| prove(&format!("is the float expression 1 - x{}", l), eq(y, one() - x)));
over!(negate, Negate, |l: &str, x: S, y: S| prove(&format!("is the float expression -x{}", l), eq(y, -x)));

fn sigmoid_fn() {
    let x = S::fresh("x");
    assume(x.fnan().not());
    fun("sigmoid");
    let y = real(|| ops::sigmoid(x));
    prove("is never NaN", y.fnan().not());
    prove("is at least 0", z().fle(y));
    prove("is at most 1", y.fle(one()));
    prove("is one half at zero", x.feq(z()).implies(y.feq(S::c(0.5))));
}
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![
        ("the sigmoid function", Mode::Fp, sigmoid_fn as fn(), ""),
        ("Sigmoid", Mode::Fp, sigmoid, ""),
        ("XLnX", Mode::Fp, xlnx, ""),
        ("Sign", Mode::Fp, sign, ""),
        ("Abs", Mode::Fp, abs, ""),
        ("Dirac", Mode::Fp, dirac, ""),
        ("Rabbit", Mode::Fp, rabbit, ""),
        ("Double", Mode::Fp, double, ""),
        ("AddOne", Mode::Fp, add_one, ""),
        ("SubOne", Mode::Fp, sub_one, ""),
        ("OneSub", Mode::Fp, one_sub, ""),
        ("Negate", Mode::Fp, negate, ""),
    ]
}

// Elementwise operators: one table of operators and their documented functions, used for the value
// (C03), lifted transparency (C04), shape (C05) and failure (C06) contracts. WHAT selects which.
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::buffers::{shapes::IncompatibleShapes, Buffer, Spec};
use aegir::errors::BinaryError;
use aegir::{ids, ops, Differentiable, Function, Node};

fn any(_: S) -> P { P::T }
fn pos(x: S) -> P { S::c(0.0).flt(x) }
fn nonzero(x: S) -> P { x.feq(S::c(0.0)).not() }
fn unit(x: S) -> P { P::And(vec![S::c(-1.0).fle(x), x.fle(S::c(1.0))]) }
fn unit_open(x: S) -> P { P::And(vec![S::c(-1.0).flt(x), x.flt(S::c(1.0))]) }
fn ge1(x: S) -> P { S::c(1.0).fle(x) }
fn cosnz(x: S) -> P { S::o("cos", &[x]).feq(S::c(0.0)).not() }

/// value contract: shape and every entry
fn val_is<B: Buf<V = S>>(label: &str, b: &B, d: &[usize], f: &dyn Fn(&[usize]) -> S) {
    check(&format!("{}: shape", label), b.dims() == d, || format!("has {:?}, should have {:?}", b.dims(), d));
    if b.dims() == d {
        for ix in B::ixs(d) {
            prove(&format!("{}: every entry is the documented function of the matching operand entries", label), b.at(&ix).same(f(&ix)));
        }
    }
}
fn spec_is<B: Buf<V = S>>(label: &str, b: &Spec<B>, d: &[usize], f: &dyn Fn(&[usize]) -> S) {
    check(&format!("{}: shape", label), spec_dims(b) == d, || format!("has {:?}, should have {:?}", spec_dims(b), d));
    if spec_dims(b) == d {
        for ix in B::ixs(d) {
            prove(&format!("{}: every entry is the documented function of the matching operand entries", label), spec_at(b, &ix).same(f(&ix)));
        }
    }
}
fn eq_buf<B: Buf<V = S>>(label: &str, a: &B, b: &B) {
    check(&format!("{}: shape", label), a.dims() == b.dims(), || format!("{:?} and {:?}", a.dims(), b.dims()));
    if a.dims() == b.dims() {
        for ix in B::ixs(&a.dims()) {
            prove(&format!("{}: entries", label), a.at(&ix).same(b.at(&ix)));
        }
    }
}
fn failed<E: std::fmt::Debug>(label: &str, e: E) { check(&format!("{}: succeeds", label), false, || format!("failed with {:?} although every operand succeeded and the shapes fit", e)) }

/// evaluate / evaluate_spec of `op`, and of the same operator over dense operands
fn transparent<B: Buf<V = S>, O: Function<Nc, Value = B>, D: Function<Nc, Value = B>>(f: &str, op: &O, dn: &D) {
    fun(&format!("{}::evaluate_spec", f));
    let sp = match real(|| op.evaluate_spec(Nc)) {
        Ok(s) => s,
        Err(e) => return failed("lifted evaluation", e.to_string()),
    };
    fun(&format!("{}::evaluate", f));
    let v = match real(|| op.evaluate(Nc)) {
        Ok(s) => s,
        Err(e) => return failed("evaluation", e.to_string()),
    };
    let w = match real(|| dn.evaluate(Nc)) {
        Ok(s) => s,
        Err(e) => return failed("evaluation over dense operands", e.to_string()),
    };
    eq_buf("lifted evaluation densified == plain evaluation", &dense(&sp), &v);
    eq_buf("plain evaluation == plain evaluation over dense operands", &v, &w);
    fun(&format!("{}::evaluate_spec", f));
    match real(|| dn.evaluate_spec(Nc)) {
        Ok(s) => eq_buf("lifted evaluation over dense operands densified == plain evaluation", &dense(&s), &v),
        Err(e) => failed("lifted evaluation over dense operands", e.to_string()),
    }
    fun("Spec::unwrap");
    let u = real(|| sp.clone().unwrap());
    eq_buf("unwrap of the lifted value == plain evaluation", &u, &v);
}
fn shapes<B: Buf<V = S>, O: Function<Nc, Value = B>>(f: &str, op: &O) { shapes_in(f, op, &Nc) }
/// in the context `c` (every query starts from it)
fn shapes_in<C: aegir::Context + AsMut<C> + Clone, B: Buf<V = S>, O: Function<C, Value = B>>(f: &str, op: &O, c: &C) {
    let _ = take_log();
    let v = real(|| op.evaluate(c.clone()));
    let used: Vec<String> = take_log().into_iter().map(|x| x.0).collect();
    let v = match v {
        Ok(v) => v,
        Err(_) => return,
    };
    fun(&format!("{}::evaluate_shape", f));
    match real(|| op.evaluate_shape(c.clone())) {
        Ok(s) => check("the shape query returns the shape of the evaluated buffer", B::sdims(&s) == v.dims(), || format!("query {:?}, buffer {:?}", B::sdims(&s), v.dims())),
        Err(e) => check("the shape query succeeds when evaluation does", false, || format!("failed with {}", e)),
    }
    let asked: Vec<String> = take_log().into_iter().map(|x| x.0).collect();
    check("the shape query asks only for what evaluation asks for", asked.iter().all(|a| used.contains(a)), || format!("asked {:?}, evaluation used {:?}", asked, used));
    fun(&format!("{}::evaluate_spec", f));
    match real(|| op.evaluate_spec(c.clone())) {
        Ok(s) => {
            check("the lifted value carries the shape of the evaluated buffer", spec_dims(&s) == v.dims(), || format!("lifted {:?}, buffer {:?}", spec_dims(&s), v.dims()));
            fun("Spec::shape");
            let t = real(|| aegir::buffers::shapes::Shaped::shape(&s));
            check("the lifted value reports the shape of the evaluated buffer", B::sdims(&t) == v.dims(), || format!("lifted {:?}, buffer {:?}", B::sdims(&t), v.dims()));
        }
        Err(e) => failed("lifted evaluation", e.to_string()),
    }
    fun("Buffer::shape");
    let t = real(|| aegir::buffers::shapes::Shaped::shape(&v));
    check("the evaluated buffer reports its own extents", B::sdims(&t) == v.dims(), || format!("{:?}, has {:?}", B::sdims(&t), v.dims()));
}

fn unary_case<B: Buf<V = S>, O: Function<Nc, Value = B, Error = StubErr>>(f: &str, d: &[usize], op: &dyn Fn(Stub<B>) -> O, dom: &dyn Fn(S) -> P, spec: &dyn Fn(S) -> S) {
    if WHAT == 6 && engine::choose(2) == 1 {
        let o = op(Stub::fails("x", 1, d));
        fun(&format!("{}::evaluate", f));
        let r = real(|| o.evaluate(Nc).map(|_| ()));
        check("a failing operand's own error is reported", r == Err(StubErr(1)), || format!("{:?}", r));
        fun(&format!("{}::evaluate_spec", f));
        let r = real(|| o.evaluate_spec(Nc).map(|_| ()));
        check("a failing operand's own error is reported (lifted)", r == Err(StubErr(1)), || format!("{:?}", r));
        fun(&format!("{}::evaluate_shape", f));
        let r = real(|| o.evaluate_shape(Nc).map(|_| ()));
        check("a shape query that fails reports the operand's own error", r.is_ok() || r == Err(StubErr(1)), || format!("{:?}", r));
        return;
    }
    let x = any_spec::<B>("x", d);
    for ix in B::ixs(d) {
        assume(dom(spec_at(&x, &ix)));
    }
    if let Spec::Full(_, v) = &x {
        assume(dom(B::unv(*v)));
    }
    let o = op(Stub::ok("x", x.clone()));
    let want = |ix: &[usize]| spec(spec_at(&x, ix));
    match WHAT {
        3 => {
            fun(&format!("{}::evaluate", f));
            match real(|| o.evaluate(Nc)) {
                Ok(v) => val_is("value", &v, d, &want),
                Err(e) => failed("evaluation", e),
            }
            fun(&format!("{}::evaluate_spec", f));
            match real(|| o.evaluate_spec(Nc)) {
                Ok(v) => spec_is("lifted value", &v, d, &want),
                Err(e) => failed("lifted evaluation", e),
            }
        }
        4 => transparent(f, &o, &op(Stub::ok("x", Spec::Raw(dense(&x))))),
        5 => shapes(f, &o),
        _ => only_ok(f, &o),
    }
}
fn only_ok<O: Function<Nc>>(f: &str, o: &O) {
    fun(&format!("{}::evaluate", f));
    if let Err(e) = real(|| o.evaluate(Nc).map(|_| ())) { failed("evaluation", e.to_string()) } else { check("evaluation: succeeds", true, String::new) }
    fun(&format!("{}::evaluate_spec", f));
    if let Err(e) = real(|| o.evaluate_spec(Nc).map(|_| ())) { failed("lifted evaluation", e.to_string()) } else { check("lifted evaluation: succeeds", true, String::new) }
    fun(&format!("{}::evaluate_shape", f));
    if let Err(e) = real(|| o.evaluate_shape(Nc).map(|_| ())) { failed("shape query", e.to_string()) } else { check("shape query: succeeds", true, String::new) }
}

type BErr<L, R> = BinaryError<StubErr, StubErr, IncompatibleShapes<<L as aegir::buffers::shapes::Shaped>::Shape, <R as aegir::buffers::shapes::Shaped>::Shape>>;
fn err_show<L: Buf, R: Buf>(e: &BErr<L, R>) -> String {
    match e {
        BinaryError::Left(e) => format!("left {}", e.0),
        BinaryError::Right(e) => format!("right {}", e.0),
        BinaryError::Output(i) => format!("output {:?} vs {:?}", L::sdims(&i.left), R::sdims(&i.right)),
    }
}
/// failing operands: the operator reports the operand's own error, tagged with its side, left first
fn operand_failures<L: Buf<V = S>, R: Buf<V = S>, O: Function<Nc, Error = BErr<L, R>>>(f: &str, dl: &[usize], dr: &[usize], op: &dyn Fn(Stub<L>, Stub<R>) -> O) {
    let c = engine::choose(3);
    let l = if c == 1 { Stub::ok("x", any_spec::<L>("x", dl)) } else { Stub::fails("x", 1, dl) };
    let r = if c == 0 { Stub::ok("y", any_spec::<R>("y", dr)) } else { Stub::fails("y", 2, dr) };
    let want = if c == 1 { "right 2" } else { "left 1" };
    let shape_want = if l.shape.is_err() { "left 1" } else { "right 2" };
    let o = op(l, r);
    fun(&format!("{}::evaluate", f));
    let e = real(|| o.evaluate(Nc).map(|_| ()).map_err(|e| err_show::<L, R>(&e)));
    check("a failing operand's error is reported with its side, the left one first", e.as_ref().err().map(|s| s.as_str()) == Some(want), || format!("{:?}, should be {}", e, want));
    fun(&format!("{}::evaluate_spec", f));
    let e = real(|| o.evaluate_spec(Nc).map(|_| ()).map_err(|e| err_show::<L, R>(&e)));
    check("a failing operand's error is reported with its side, the left one first (lifted)", e.as_ref().err().map(|s| s.as_str()) == Some(want), || format!("{:?}, should be {}", e, want));
    fun(&format!("{}::evaluate_shape", f));
    let e = real(|| o.evaluate_shape(Nc).map(|_| ()).map_err(|e| err_show::<L, R>(&e)));
    check("a shape query that fails reports the same failure", e.is_ok() || e == Err(shape_want.into()) || e == Err(want.into()), || format!("{:?}, should be {}", e, want));
}
/// incompatible run-time shapes
fn mismatch<L: Buf<V = S>, R: Buf<V = S>, O: Function<Nc, Error = BErr<L, R>>>(f: &str, dl: &[usize], dr: &[usize], o: &O) {
    let want = format!("output {:?} vs {:?}", dl, dr);
    fun(&format!("{}::evaluate", f));
    let e = real(|| o.evaluate(Nc).map(|_| ()).map_err(|e| err_show::<L, R>(&e)));
    let ok = e == Err(want.clone());
    check("incompatible shapes are reported with the left and the right shape", ok, || format!("{:?}, should be {}", e, want));
    fun(&format!("{}::evaluate_spec", f));
    let e2 = real(|| o.evaluate_spec(Nc).map(|_| ()).map_err(|e| err_show::<L, R>(&e)));
    check("incompatible shapes are reported with the left and the right shape (lifted)", e2 == Err(want.clone()), || format!("{:?}, should be {}", e2, want));
    fun(&format!("{}::evaluate_shape", f));
    let e3 = real(|| o.evaluate_shape(Nc).map(|_| ()).map_err(|e| err_show::<L, R>(&e)));
    check("the shape query fails with the same error", e3 == Err(want.clone()), || format!("{:?}, should be {}", e3, want));
}

fn binary_case<L: Buf<V = S>, R: Buf<V = S>, B: Buf<V = S>, O: Function<Nc, Value = B, Error = BErr<L, R>>>(
    f: &str, dl: &[usize], dr: &[usize], dom: &dyn Fn(S, S) -> P, spec: &dyn Fn(S, S) -> S, op: &dyn Fn(Stub<L>, Stub<R>) -> O,
) {
    let scalar = |d: &[usize]| d.is_empty();
    let fits = dl == dr || scalar(dl) || scalar(dr);
    if WHAT == 6 && fits && engine::choose(2) == 1 {
        return operand_failures(f, dl, dr, op);
    }
    let x = any_spec::<L>("x", dl);
    let y = any_spec::<R>("y", dr);
    let d: Vec<usize> = if scalar(dl) { dr.to_vec() } else { dl.to_vec() };
    if !fits {
        let o = op(Stub::ok("x", x.clone()), Stub::ok("y", y.clone()));
        if WHAT >= 5 { mismatch::<L, R, O>(f, dl, dr, &o) }
        return;
    }
    let z: &[usize] = &[];
    let at = |ix: &[usize]| (spec_at(&x, if scalar(dl) { z } else { ix }), spec_at(&y, if scalar(dr) { z } else { ix }));
    for ix in B::ixs(&d) {
        let (a, b) = at(&ix);
        assume(dom(a, b));
    }
    let o = op(Stub::ok("x", x.clone()), Stub::ok("y", y.clone()));
    let want = |ix: &[usize]| { let (a, b) = at(ix); spec(a, b) };
    match WHAT {
        3 => {
            fun(&format!("{}::evaluate", f));
            match real(|| o.evaluate(Nc)) {
                Ok(v) => val_is("value", &v, &d, &want),
                Err(e) => failed("evaluation", err_show::<L, R>(&e)),
            }
            fun(&format!("{}::evaluate_spec", f));
            match real(|| o.evaluate_spec(Nc)) {
                Ok(v) => spec_is("lifted value", &v, &d, &want),
                Err(e) => failed("lifted evaluation", err_show::<L, R>(&e)),
            }
        }
        4 => transparent(f, &o, &op(Stub::ok("x", Spec::Raw(dense(&x))), Stub::ok("y", Spec::Raw(dense(&y))))),
        5 => shapes(f, &o),
        _ => only_ok(f, &o),
    }
}

// The buffer kinds. `Gen` is the contract buffer: every kind, rank and size at once; the concrete
// kinds run the operator on /repo's own buffers.
macro_rules! bufs {
    ($B:ident, $d:ident => $e:expr) => {
        match engine::choose(11) {
            0 => { type $B = Gen<S>; let $d: &[usize] = &[1]; $e }
            1 => { type $B = S; let $d: &[usize] = &[]; $e }
            2 => { type $B = [S; 3]; let $d: &[usize] = &[3]; $e }
            3 => { type $B = [[S; 2]; 3]; let $d: &[usize] = &[3, 2]; $e }
            4 => { type $B = [[[S; 2]; 1]; 2]; let $d: &[usize] = &[2, 1, 2]; $e }
            5 => { type $B = [[[[S; 2]; 1]; 2]; 1]; let $d: &[usize] = &[1, 2, 1, 2]; $e }
            6 => { type $B = [[[[[S; 1]; 2]; 1]; 1]; 2]; let $d: &[usize] = &[2, 1, 1, 2, 1]; $e }
            7 => { type $B = (S, S); let $d: &[usize] = &[2]; $e }
            8 => { type $B = Vec<S>; let $d: &[usize] = &[0]; $e }
            9 => { type $B = Vec<S>; let $d: &[usize] = &[3]; $e }
            _ => { type $B = [S; 0]; let $d: &[usize] = &[0]; $e }
        }
    };
}
/// as `bufs!`, for operators with three cases per entry
macro_rules! bufs_small {
    ($B:ident, $d:ident => $e:expr) => {
        match engine::choose(9) {
            0 => { type $B = Gen<S>; let $d: &[usize] = &[1]; $e }
            1 => { type $B = S; let $d: &[usize] = &[]; $e }
            2 => { type $B = [S; 3]; let $d: &[usize] = &[3]; $e }
            3 => { type $B = [[S; 3]; 1]; let $d: &[usize] = &[1, 3]; $e }
            4 => { type $B = [[[S; 1]; 1]; 2]; let $d: &[usize] = &[2, 1, 1]; $e }
            5 => { type $B = [[[[S; 2]; 1]; 1]; 1]; let $d: &[usize] = &[1, 1, 1, 2]; $e }
            6 => { type $B = [[[[[S; 1]; 2]; 1]; 1]; 1]; let $d: &[usize] = &[1, 1, 1, 2, 1]; $e }
            7 => { type $B = (S, S); let $d: &[usize] = &[2]; $e }
            _ => { type $B = Vec<S>; let $d: &[usize] = &[2]; $e }
        }
    };
}
macro_rules! pairs {
    ($L:ident, $R:ident, $dl:ident, $dr:ident => $e:expr) => {
        pairs!(@ $L, $R, $dl, $dr, $e;
            Gen<S>, Gen<S>, &[1], &[1]; Gen<S>, S, &[1], &[]; S, Gen<S>, &[], &[1]; Gen<S>, Gen<S>, &[1], &[2];
            S, S, &[], &[];
            [S; 3], [S; 3], &[3], &[3]; [S; 3], S, &[3], &[]; S, [S; 3], &[], &[3];
            [[S; 3]; 2], [[S; 3]; 2], &[2, 3], &[2, 3]; [[S; 3]; 2], S, &[2, 3], &[]; S, [[S; 3]; 2], &[], &[2, 3];
            [[[S; 2]; 1]; 2], [[[S; 2]; 1]; 2], &[2, 1, 2], &[2, 1, 2]; [[[S; 2]; 1]; 2], S, &[2, 1, 2], &[]; S, [[[S; 2]; 1]; 2], &[], &[2, 1, 2];
            [[[[S; 2]; 1]; 2]; 1], [[[[S; 2]; 1]; 2]; 1], &[1, 2, 1, 2], &[1, 2, 1, 2]; [[[[S; 2]; 1]; 2]; 1], S, &[1, 2, 1, 2], &[]; S, [[[[S; 2]; 1]; 2]; 1], &[], &[1, 2, 1, 2];
            [[[[[S; 1]; 2]; 1]; 1]; 2], [[[[[S; 1]; 2]; 1]; 1]; 2], &[2, 1, 1, 2, 1], &[2, 1, 1, 2, 1]; [[[[[S; 1]; 2]; 1]; 1]; 2], S, &[2, 1, 1, 2, 1], &[]; S, [[[[[S; 1]; 2]; 1]; 1]; 2], &[], &[2, 1, 1, 2, 1];
            (S, S), (S, S), &[2], &[2];
            Vec<S>, Vec<S>, &[0], &[0]; Vec<S>, Vec<S>, &[2], &[2]; Vec<S>, Vec<S>, &[1], &[2]; Vec<S>, Vec<S>, &[2], &[1]; Vec<S>, Vec<S>, &[0], &[1]; Vec<S>, Vec<S>, &[1], &[0];
            Vec<S>, S, &[2], &[]; S, Vec<S>, &[], &[2])
    };
    (@ $L:ident, $R:ident, $dl:ident, $dr:ident, $e:expr; $($l:ty, $r:ty, $a:expr, $b:expr);*) => {{
        let n = [$(stringify!($l)),*].len();
        let c = engine::choose(n);
        let mut i = 0;
        $( if i == c { type $L = $l; type $R = $r; let $dl: &[usize] = $a; let $dr: &[usize] = $b; $e } i += 1; )*
        let _ = i;
    }};
}
macro_rules! unary {
    ($($h:ident, $name:literal, |$j:ident| $op:expr, $dom:expr, |$x:ident| $spec:expr;)*) => { $(
        fn $h() { bufs!(B, d => unary_case::<B, _>($name, d, &|$j: Stub<B>| $op, &$dom, &|$x: S| -> S { $spec })) }
    )* };
}
unary! {
    neg, "Negate", |j| ops::Negate(j), any, |x| S::c(0.0) - x;
    double, "Double", |j| ops::Double(j), any, |x| x + x;
    square, "Square", |j| ops::Square(j), any, |x| x * x;
    addone, "AddOne", |j| ops::AddOne(j), any, |x| x + S::c(1.0);
    subone, "SubOne", |j| ops::SubOne(j), any, |x| x - S::c(1.0);
    onesub, "OneSub", |j| ops::OneSub(j), any, |x| S::c(1.0) - x;
    abs, "Abs", |j| ops::Abs(j), any, |x| if x < S::c(0.0) { S::c(0.0) - x } else { x };
    exp, "Exp", |j| ops::Exp(j), any, |x| S::o("exp", &[x]);
    ln, "Ln", |j| ops::Ln(j), pos, |x| S::o("ln", &[x]);
    xlnx, "XLnX", |j| ops::XLnX(j), any, |x| if S::c(0.0) < x { x * S::o("ln", &[x]) } else { S::c(0.0) };
    sigmoid, "Sigmoid", |j| ops::Sigmoid(j), any, |x| S::c(1.0) / (S::c(1.0) + S::o("exp", &[S::c(0.0) - x]));
    rabbit, "Rabbit", |j| ops::Rabbit(j), any, |x| x * (S::c(1.0) - x);
    sin, "Sin", |j| ops::trig::Sin(j), any, |x| S::o("sin", &[x]);
    cos, "Cos", |j| ops::trig::Cos(j), any, |x| S::o("cos", &[x]);
    tan, "Tan", |j| ops::trig::Tan(j), cosnz, |x| S::o("tan", &[x]);
    sinh, "Sinh", |j| ops::trig::Sinh(j), any, |x| S::o("sinh", &[x]);
    cosh, "Cosh", |j| ops::trig::Cosh(j), any, |x| S::o("cosh", &[x]);
    tanh, "Tanh", |j| ops::trig::Tanh(j), any, |x| S::o("tanh", &[x]);
    asin, "ArcSin", |j| ops::trig::ArcSin(j), unit, |x| S::o("asin", &[x]);
    acos, "ArcCos", |j| ops::trig::ArcCos(j), unit, |x| S::o("acos", &[x]);
    atan, "ArcTan", |j| ops::trig::ArcTan(j), any, |x| S::o("atan", &[x]);
    asinh, "ArcSinh", |j| ops::trig::ArcSinh(j), any, |x| S::o("asinh", &[x]);
    acosh, "ArcCosh", |j| ops::trig::ArcCosh(j), ge1, |x| S::o("acosh", &[x]);
    atanh, "ArcTanh", |j| ops::trig::ArcTanh(j), unit_open, |x| S::o("atanh", &[x]);
    gamma, "Gamma", |j| ops::special::Gamma(j), pos, |x| S::o("gamma", &[x]);
    digamma, "DiGamma", |j| ops::special::DiGamma(j), pos, |x| S::o("digamma", &[x]);
    loggamma, "LogGamma", |j| ops::special::LogGamma(j), pos, |x| S::o("loggamma", &[x]);
    factorial, "Factorial", |j| ops::special::Factorial::factorial(j), pos, |x| S::o("gamma", &[x + S::c(1.0)]);
    erf, "Erf", |j| ops::special::Erf(j), any, |x| S::o("erf", &[x]);
    erfc, "Erfc", |j| ops::special::Erfc::erfc(j), any, |x| S::c(1.0) - S::o("erf", &[x]);
    // fluent methods and helpers build the operator they name
    m_abs, "Node::abs", |j| j.abs(), any, |x| if x < S::c(0.0) { S::c(0.0) - x } else { x };
    m_neg, "Node::neg", |j| j.neg(), any, |x| S::c(0.0) - x;
    m_ln, "Node::ln", |j| j.ln(), pos, |x| S::o("ln", &[x]);
    m_squared, "Node::squared", |j| j.squared(), any, |x| x * x;
    m_sigmoid, "Node::sigmoid", |j| j.sigmoid(), any, |x| S::c(1.0) / (S::c(1.0) + S::o("exp", &[S::c(0.0) - x]));
    m_complement, "Erf::complement", |j| ops::special::Erf(j).complement(), any, |x| S::c(1.0) - S::o("erf", &[x]);
}
fn sign() { bufs_small!(B, d => unary_case::<B, _>("Sign", d, &|j: Stub<B>| ops::Sign(j), &any, &|x: S| -> S { if x < S::c(0.0) { S::c(-1.0) } else if S::c(0.0) < x { S::c(1.0) } else { S::c(0.0) } })) }
macro_rules! dirac { ($B:ty, $d:expr) => { unary_case::<$B, _>("Dirac", $d, &|j: Stub<$B>| ops::Dirac(j), &|x: S| P::And(vec![x.fnan().not(), x.finf().not()]), &|x: S| if x == S::c(0.0) { <S as num_traits::Float>::infinity() } else { S::c(0.0) }) } }
/// binary64 (the value at zero is infinite)
fn dirac() {
    match engine::choose(4) {
        0 => dirac!(Gen<S>, &[1]),
        1 => dirac!(S, &[]),
        2 => dirac!([S; 2], &[2]),
        _ => dirac!(Vec<S>, &[2]),
    }
}
macro_rules! binary {
    ($($h:ident, $name:literal, |$l:ident, $r:ident| $op:expr, |$a:ident, $b:ident| $dom:expr, $spec:expr;)*) => { $(
        fn $h() {
            pairs!(L, R, dl, dr => binary_case::<L, R, _, _>($name, dl, dr, &|$a: S, $b: S| -> P { let _ = ($a, $b); $dom }, &|$a: S, $b: S| -> S { $spec }, &|$l: Stub<L>, $r: Stub<R>| $op))
        }
    )* };
}
binary! {
    add, "Add", |l, r| ops::Add(l, r), |a, b| P::T, a + b;
    sub, "Sub", |l, r| ops::Sub(l, r), |a, b| P::T, a - b;
    mul, "Mul", |l, r| ops::Mul(l, r), |a, b| P::T, a * b;
    div, "Div", |l, r| ops::Div(l, r), |a, b| nonzero(b), a / b;
    m_add, "Node::add", |l, r| l.add(r), |a, b| P::T, a + b;
    m_sub, "Node::sub", |l, r| l.sub(r), |a, b| P::T, a - b;
    m_mul, "Node::mul", |l, r| l.mul(r), |a, b| P::T, a * b;
    m_div, "Node::div", |l, r| l.div(r), |a, b| nonzero(b), a / b;
}
type SErr = BErr<S, S>;
fn sbinary<O: Function<Nc, Value = S>>(f: &str, dom: &dyn Fn(S, S) -> P, spec: &dyn Fn(S, S) -> S, int: bool, op: &dyn Fn(Stub<S>, Stub<S>) -> O)
where
    O::Error: std::fmt::Debug,
{
    if WHAT == 6 && engine::choose(2) == 1 {
        let c = engine::choose(3);
        let l = if c == 1 { Stub::ok("x", any_spec::<S>("x", &[])) } else { Stub::fails("x", 1, &[]) };
        let r = if c == 0 { Stub::ok("y", any_spec::<S>("y", &[])) } else { Stub::fails("y", 2, &[]) };
        let want = if c == 1 { "Right(StubErr(2))" } else { "Left(StubErr(1))" };
        let shape_want = if l.shape.is_err() { "Left(StubErr(1))" } else { "Right(StubErr(2))" };
        let o = op(l, r);
        fun(&format!("{}::evaluate", f));
        let e = real(|| o.evaluate(Nc).map(|_| ()).map_err(|e| format!("{:?}", e)));
        check("a failing operand's error is reported with its side, the left one first", e == Err(want.into()), || format!("{:?}, should be {}", e, want));
        fun(&format!("{}::evaluate_spec", f));
        let e = real(|| o.evaluate_spec(Nc).map(|_| ()).map_err(|e| format!("{:?}", e)));
        check("a failing operand's error is reported with its side, the left one first (lifted)", e == Err(want.into()), || format!("{:?}, should be {}", e, want));
        fun(&format!("{}::evaluate_shape", f));
        let e = real(|| o.evaluate_shape(Nc).map(|_| ()).map_err(|e| format!("{:?}", e)));
        check("a shape query that fails reports the same failure", e.is_ok() || e == Err(shape_want.into()) || e == Err(want.into()), || format!("{:?}, should be {}", e, want));
        return;
    }
    if int {
        engine::mark_integer("y");
    }
    let x = any_spec::<S>("x", &[]);
    let y = any_spec::<S>("y", &[]);
    let (a, b) = (spec_at(&x, &[]), spec_at(&y, &[]));
    assume(dom(a, b));
    let o = op(Stub::ok("x", x.clone()), Stub::ok("y", y.clone()));
    match WHAT {
        3 => {
            fun(&format!("{}::evaluate", f));
            match real(|| o.evaluate(Nc)) {
                Ok(v) => val_is("value", &v, &[], &|_| spec(a, b)),
                Err(e) => failed("evaluation", e),
            }
            fun(&format!("{}::evaluate_spec", f));
            match real(|| o.evaluate_spec(Nc)) {
                Ok(v) => spec_is("lifted value", &v, &[], &|_| spec(a, b)),
                Err(e) => failed("lifted evaluation", e),
            }
        }
        4 => transparent(f, &o, &op(Stub::ok("x", Spec::Raw(dense(&x))), Stub::ok("y", Spec::Raw(dense(&y))))),
        5 => shapes(f, &o),
        _ => only_ok(f, &o),
    }
}
fn powspec(a: S, b: S) -> S { S::o("pow", &[a, b]) }
/// positive base, any real exponent
fn power_pos() { sbinary("Power", &|a, _| pos(a), &powspec, false, &|l, r| ops::Power(l, r)) }
/// zero base, positive exponent (or exponent zero: one)
fn power_zero() { sbinary("Power (zero base)", &|a, b| P::And(vec![a.feq(S::c(0.0)), S::c(0.0).fle(b)]), &|_, b| if S::c(0.0) < b { S::c(0.0) } else { S::c(1.0) }, false, &|l, r| ops::Power(l, r)) }
/// any base, whole exponent (non-negative unless the base is nonzero)
fn power_int() { sbinary("Power (whole exponent)", &|a, b| P::Or(vec![S::c(0.0).fle(b), nonzero(a)]), &powspec, true, &|l, r| ops::Power(l, r)) }
fn m_pow() { sbinary("Node::pow", &|a, _| pos(a), &powspec, false, &|l, r| l.pow(r)) }
/// any base, small constant exponents written out
fn power_consts() {
    let k = [0i32, 1, 2, 3, -1, -2][engine::choose(6)];
    let want = move |x: S, _: S| { let mut p = S::c(1.0); for _ in 0..k.abs() { p = p * x } if k < 0 { S::c(1.0) / p } else { p } };
    sbinary(&format!("Power (exponent {})", k), &|a, b| P::And(vec![b.feq(S::c(k as f64)), if k < 0 { nonzero(a) } else { P::T }]), &want, true, &|l, r| {
        let e = match r.res.as_ref() { Ok(s) => Stub::ok("y", match s { Spec::Full(sh, _) => Spec::Full(*sh, S::c(k as f64)), Spec::Diagonal(sh, _) => Spec::Diagonal(*sh, S::c(k as f64)), _ => Spec::Raw(S::c(k as f64)) }), _ => r.clone() };
        ops::Power(l, e)
    })
}
fn dot_s() { sbinary("Contract<1> (scalars)", &|_, _| P::T, &|a, b| a * b, false, &|l, r| ops::TensorDot::new(l, r)) }
fn outer_s() { sbinary("Contract<0> (scalars)", &|_, _| P::T, &|a, b| a * b, false, &|l, r| ops::TensorProduct::new(l, r)) }
fn m_dot() { sbinary("Node::dot (scalars)", &|_, _| P::T, &|a, b| a * b, false, &|l, r| l.dot(r)) }

fn sum_case<B: Buf<V = S>, O: Function<Nc, Value = S, Error = StubErr>>(f: &str, d: &[usize], op: &dyn Fn(Stub<B>) -> O) {
    if WHAT == 6 && engine::choose(2) == 1 {
        let o = op(Stub::fails("x", 1, d));
        fun(&format!("{}::evaluate", f));
        let r = real(|| o.evaluate(Nc).map(|_| ()));
        check("a failing operand's own error is reported", r == Err(StubErr(1)), || format!("{:?}", r));
        fun(&format!("{}::evaluate_spec", f));
        let r = real(|| o.evaluate_spec(Nc).map(|_| ()));
        check("a failing operand's own error is reported (lifted)", r == Err(StubErr(1)), || format!("{:?}", r));
        fun(&format!("{}::evaluate_shape", f));
        let r = real(|| o.evaluate_shape(Nc).map(|_| ()));
        check("a shape query that fails reports the operand's own error", r.is_ok() || r == Err(StubErr(1)), || format!("{:?}", r));
        return;
    }
    let x = any_spec::<B>("x", d);
    let o = op(Stub::ok("x", x.clone()));
    let mut want = S::c(0.0);
    for ix in B::ixs(d) {
        want = want + spec_at(&x, &ix);
    }
    match WHAT {
        3 => {
            fun(&format!("{}::evaluate", f));
            match real(|| o.evaluate(Nc)) {
                Ok(v) => prove("value: the sum over all entries", v.feq(want)),
                Err(e) => failed("evaluation", e),
            }
            fun(&format!("{}::evaluate_spec", f));
            match real(|| o.evaluate_spec(Nc)) {
                Ok(v) => prove("lifted value: the sum over all entries", spec_at(&v, &[]).feq(want)),
                Err(e) => failed("lifted evaluation", e),
            }
        }
        4 => transparent(f, &o, &op(Stub::ok("x", Spec::Raw(dense(&x))))),
        5 => shapes(f, &o),
        _ => only_ok(f, &o),
    }
}
fn sum() { bufs!(B, d => sum_case::<B, _>("Sum", d, &|j: Stub<B>| ops::Sum(j))) }
fn m_sum() { bufs!(B, d => sum_case::<B, _>("Node::sum", d, &|j: Stub<B>| j.sum())) }

fn elem(v: &mut Vec<(&'static str, Mode, fn(), &'static str)>) {
    macro_rules! l { ($($f:ident),* $(,)?) => { $( v.push((concat!("elem::", stringify!($f)), Mode::Real, $f as fn(), "")); )* } }
    l![
        neg, double, square, addone, subone, onesub, abs, sign, exp, ln, xlnx, sigmoid, rabbit, sin, cos, tan, sinh, cosh, tanh, asin, acos, atan, asinh, acosh, atanh,
        gamma, digamma, loggamma, factorial, erf, erfc, m_abs, m_neg, m_ln, m_squared, m_sigmoid, m_complement,
        add, sub, mul, div, m_add, m_sub, m_mul, m_div,
        power_pos, power_zero, power_int, power_consts, m_pow, dot_s, outer_s, m_dot, sum, m_sum
    ];
    v.push(("elem::dirac", Mode::Fp, dirac as fn(), ""));
}

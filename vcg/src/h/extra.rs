// Shapes and failures of the remaining nodes: contractions of arrays, sources, adjoints of sources,
// caches and the dual evaluation (C05 and C06).
use aegir::{ids::{X, Y}, meta};

fn contract_case<L: Buf<V = S>, R: Buf<V = S>, B: Buf<V = S>, O: Function<Nc, Value = B, Error = BErr<L, R>>>(f: &str, dl: &[usize], dr: &[usize], op: &dyn Fn(Stub<L>, Stub<R>) -> O) {
    if WHAT == 6 && engine::choose(2) == 1 {
        return operand_failures(f, dl, dr, op);
    }
    let o = op(Stub::ok("x", any_spec::<L>("x", dl)), Stub::ok("y", any_spec::<R>("y", dr)));
    if WHAT == 5 { shapes(f, &o) } else { only_ok(f, &o) }
}
macro_rules! contractions {
    ($($l:ty, $r:ty, $a:literal, $dl:expr, $dr:expr);* $(;)?) => {{
        let c = engine::choose([$($a),*].len());
        let mut i = 0;
        $( if i == c { contract_case::<$l, $r, _, _>(concat!("Contract<", $a, "> for ", stringify!($l)), &$dl, &$dr, &|l, r| ops::Contract::<$a, _, _>(l, r)) } i += 1; )*
        let _ = i;
    }};
}
type A1 = [S; 2];
type A2 = [[S; 2]; 3];
type A3 = [[S; 3]; 2];
fn dot_vectors() { contractions! { [S; 3], [S; 3], 1, [3], [3]; [S; 0], [S; 0], 1, [0], [0] } }
fn dot_matrix() { contractions! { A2, [S; 3], 1, [3, 2], [3]; A1, A3, 1, [2], [2, 3]; A2, A3, 1, [3, 2], [2, 3] } }
fn outer_arrays() { contractions! { A1, [S; 3], 0, [2], [3]; S, A1, 0, [], [2]; A1, S, 0, [2], []; A2, S, 0, [3, 2], []; S, A2, 0, [], [3, 2] } }

const CX: &str = "Undefined(X)";
const CY: &str = "Undefined(Y)";
/// all three queries of `o` in `c`
fn in_context<C: aegir::Context + AsMut<C> + Clone, B: Buf<V = S>, O: Function<C, Value = B>>(f: &str, o: &O, c: &C, want: Option<&str>)
where
    O::Error: std::fmt::Debug,
{
    let say = |w: &str, r: Result<(), String>| match want {
        None => check(&format!("{}: succeeds", w), r.is_ok(), || format!("{:?}", r)),
        Some(e) => check(&format!("{}: reports what is missing, in its place", w), r == Err(e.into()), || format!("{:?}, should be {}", r, e)),
    };
    if WHAT == 5 && want.is_none() {
        return shapes_in(f, o, c);
    }
    fun(&format!("{}::evaluate", f));
    say("evaluation", real(|| o.evaluate(c.clone()).map(|_| ()).map_err(|e| format!("{:?}", e))));
    fun(&format!("{}::evaluate_spec", f));
    say("lifted evaluation", real(|| o.evaluate_spec(c.clone()).map(|_| ()).map_err(|e| format!("{:?}", e))));
    if WHAT == 5 {
        return;
    }
    fun(&format!("{}::evaluate_shape", f));
    let r = real(|| o.evaluate_shape(c.clone()).map(|_| ()).map_err(|e| format!("{:?}", e)));
    match want {
        Some(e) if r.is_err() => check("a shape query that fails reports the same failure", r == Err(e.into()), || format!("{:?}, should be {}", r, e)),
        Some(_) => {}
        None => check("shape query: succeeds", r.is_ok(), || format!("{:?}", r)),
    }
}
/// a slot that may be absent
fn slot<B: Buf<V = S>>(n: &str, d: &[usize]) -> Option<Spec<B>> { if engine::choose(2) == 0 { None } else { Some(any_spec::<B>(n, d)) } }
fn variable() {
    bufs!(B, d => {
        let c = Two::<B, S>(slot("x", d), slot("y", &[]));
        in_context("Variable", &aegir::Identifier::into_var(X), &c, c.0.is_none().then(|| CX));
        in_context("Variable", &meta::Variable(Y), &c, c.1.is_none().then(|| CY));
    })
}
macro_rules! pairs_of_sources {
    ($A:ident, $da:ident, $B:ident, $db:ident => $e:expr) => {
        match engine::choose(8) {
            0 => { type $A = S; let $da: &[usize] = &[]; type $B = S; let $db: &[usize] = &[]; $e }
            1 => { type $A = [S; 2]; let $da: &[usize] = &[2]; type $B = [S; 3]; let $db: &[usize] = &[3]; $e }
            2 => { type $A = S; let $da: &[usize] = &[]; type $B = [S; 3]; let $db: &[usize] = &[3]; $e }
            3 => { type $A = [S; 3]; let $da: &[usize] = &[3]; type $B = S; let $db: &[usize] = &[]; $e }
            4 => { type $A = [[S; 1]; 2]; let $da: &[usize] = &[2, 1]; type $B = [S; 3]; let $db: &[usize] = &[3]; $e }
            5 => { type $A = [S; 2]; let $da: &[usize] = &[2]; type $B = [[S; 3]; 1]; let $db: &[usize] = &[1, 3]; $e }
            6 => { type $A = [[S; 2]; 1]; let $da: &[usize] = &[1, 2]; type $B = S; let $db: &[usize] = &[]; $e }
            _ => { type $A = S; let $da: &[usize] = &[]; type $B = [[S; 2]; 1]; let $db: &[usize] = &[1, 2]; $e }
        }
    };
}
fn missing(l: bool, r: bool) -> Option<&'static str> {
    match (l, r) {
        (true, _) => Some("Left(Undefined(X))"),
        (_, true) => Some("Right(Undefined(Y))"),
        _ => None,
    }
}
/// the derivative of one variable with respect to another; with respect to itself
fn variable_adjoint() {
    pairs_of_sources!(A, da, B, db => {
        let c = Two::<A, B>(slot("x", da), slot("y", db));
        in_context("VariableAdjoint", &meta::Variable(X).adjoint(Y), &c, missing(c.0.is_none(), c.1.is_none()));
        if da.len() == 1 {
            variable_adjoint_self(c.0.is_none());
        }
    })
}
fn variable_adjoint_self(absent: bool) {
    let c = Two::<[S; 3], S>(if absent { None } else { Some(any_spec("v", &[3])) }, None);
    in_context("VariableAdjoint (itself)", &meta::Variable(X).adjoint(X), &c, absent.then(|| "Left(Undefined(X))"));
}
/// the derivative of a constant, over any node
fn constant_adjoint() {
    pairs_of_sources!(A, da, B, db => {
        let fails = engine::choose(2) == 1;
        let node = if fails { Stub::<A>::err("n", 1) } else { Stub::ok("n", any_spec::<A>("n", da)) };
        let c = Two::<S, B>(None, slot("y", db));
        let want = if fails { Some("Left(StubErr(1))") } else if c.1.is_none() { Some("Right(Undefined(Y))") } else { None };
        in_context("ConstantAdjoint", &meta::ConstantAdjoint { node, target: Y }, &c, want);
    })
}
/// a constant never fails, whatever the context
fn constant() {
    bufs!(B, d => {
        let c = Two::<S, S>(None, None);
        in_context("Constant", &meta::Constant(fresh_buf::<B>("x", d)), &c, None);
    })
}
fn cached() {
    bufs!(B, d => {
        let filled = engine::choose(2) == 1;
        let c = if filled { Store::<B>::new().with(X, any_spec::<B>("c", d)) } else { Store::new() };
        let fails = engine::choose(2) == 1;
        let node = if fails { Stub::<B>::fails("n", 1, d) } else { Stub::ok("n", any_spec::<B>("n", d)) };
        in_context("Cached", &meta::Cached { node, ident: X }, &c, if filled || !fails { None } else { Some("StubErr(1)") });
    })
}
/// the slot of a cache holds a buffer of another length than the node would now give
fn cached_other_shape() {
    let (n, m) = (engine::choose(4), engine::choose(4));
    let c = Store::<Vec<S>>::new().with(X, any_spec("c", &[n]));
    in_context("Cached", &meta::Cached { node: Stub::ok("n", any_spec::<Vec<S>>("n", &[m])), ident: X }, &c, None);
}
/// value first, then the derivative
fn dual() {
    bufs!(B, d => {
        let (l, r) = (engine::choose(2) == 1, engine::choose(2) == 1);
        let value = if l { Stub::<B>::fails("x", 1, d) } else { Stub::ok("x", any_spec::<B>("x", d)) };
        let deriv = if r { Stub::<B>::fails("a", 2, d) } else { Stub::ok("a", any_spec::<B>("a", d)) };
        let o = value.with(deriv);
        fun("Differentiable::evaluate_dual");
        let e = real(|| o.evaluate_dual(X, Nc).map(|_| ()).map_err(|e| format!("{:?}", e)));
        let want = if l { Err("Left(StubErr(1))".to_string()) } else if r { Err("Right(StubErr(2))".to_string()) } else { Ok(()) };
        check("the dual reports the failure of the value, else that of the derivative", e == want, || format!("{:?}, should be {:?}", e, want));
        fun("Differentiable::evaluate_adjoint");
        let e = real(|| o.evaluate_adjoint(X, Nc).map(|_| ()).map_err(|e| format!("{:?}", e)));
        let want = if r { Err("StubErr(2)".to_string()) } else { Ok(()) };
        check("the derivative reports its own failure", e == want, || format!("{:?}, should be {:?}", e, want));
    })
}

/// what the errors say: the incompatible shapes in their order, the failing operand's own message, the identifier
fn messages() {
    use aegir::buffers::shapes::{SDynamic, S1, S2};
    use aegir::errors::{BinaryError, NoError, UnaryError};
    fn says<L: aegir::buffers::shapes::Shape, R: aegir::buffers::shapes::Shape>(left: L, right: R) {
        let (l, r) = (left.to_string(), right.to_string());
        fun("Display for IncompatibleShapes");
        let e = IncompatibleShapes { left, right };
        let t = real(|| e.to_string());
        let at = t.find(&l);
        check("names the left shape, then the right shape", at.map_or(false, |k| t[k + l.len()..].contains(&r)) && t.matches(&l).count() == 1, || format!("{:?}", t));
        fun("Display for BinaryError");
        let b = real(|| BinaryError::<NoError, NoError, _>::Output(e).to_string());
        check("an output error says what is incompatible", b.contains(&t), || format!("{:?}", b));
        fun("Display for UnaryError");
        let b = real(|| UnaryError::<NoError, _>::Output(e).to_string());
        check("an output error says what is incompatible", b.contains(&t), || format!("{:?}", b));
        fun("IncompatibleShapes::reverse");
        let q = real(|| e.reverse().to_string());
        let at = q.find(&r);
        check("reversing exchanges the two shapes", at.map_or(false, |k| q[k + r.len()..].contains(&l)), || format!("{:?}", q));
    }
    says(SDynamic([137]), SDynamic([249]));
    says(SDynamic([1, 48]), SDynamic([77, 3]));
    says(S1::<137>, S1::<249>);
    says(S1::<5>, SDynamic([41]));
    says(S2::<17, 29>, S2::<31, 43>);
    let (m1, m2) = (StubErr(1).to_string(), StubErr(2).to_string());
    fun("Display for BinaryError");
    let t = real(|| BinaryError::<StubErr, StubErr, NoError>::Left(StubErr(1)).to_string());
    check("a left error carries the left operand's message", t.contains(&m1) && !t.contains(&m2), || format!("{:?}", t));
    let t = real(|| BinaryError::<StubErr, StubErr, NoError>::Right(StubErr(2)).to_string());
    check("a right error carries the right operand's message", t.contains(&m2) && !t.contains(&m1), || format!("{:?}", t));
    fun("Display for UnaryError");
    let t = real(|| UnaryError::<StubErr, StubErr>::Inner(StubErr(1)).to_string());
    check("an inner error carries the operand's message", t.contains(&m1), || format!("{:?}", t));
    fun("Display for SourceError");
    let t = real(|| meta::SourceError::Undefined(ids::Theta).to_string());
    check("names the absent identifier", t.contains("Theta") || t.contains(&ids::Theta.to_string()), || format!("{:?}", t));
}

fn extra(v: &mut Vec<(&'static str, Mode, fn(), &'static str)>) {
    let b = "buffers of the listed kinds and extents, any entries";
    macro_rules! l { ($lab:expr; $($f:ident),* $(,)?) => { $( v.push((concat!("extra::", stringify!($f)), Mode::Real, $f as fn(), $lab)); )* } }
    l![b; dot_vectors, dot_matrix, outer_arrays, variable_adjoint, constant_adjoint];
    l![""; variable, constant, cached];
    l!["lengths up to three"; cached_other_shape];
    if WHAT == 6 {
        l![""; dual];
        l!["five pairs of shapes"; messages];
    }
}

// Contracts of the derivative sources and of the linear operators over buffers: Jacobian layout and entries.
#[allow(unused_imports)]
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::{buffers::{shapes::Shaped, Buffer, Spec}, ids::{X, Y}, meta::{Constant, ConstantAdjoint, VariableAdjoint}, ops, Context, Differentiable, Function, Identifier, Node};

fn eye(n: usize) -> impl Fn(&[usize]) -> S { move |i: &[usize]| if i[..n] == i[n..] { S::c(1.0) } else { S::c(0.0) } }
fn zero(_: &[usize]) -> S { S::c(0.0) }
/// value, lifted value and shape of a derivative node
fn jac<C: Context + AsMut<C> + Clone, N: Function<C>>(f: &str, n: &N, c: &C, d: &[usize], want: &dyn Fn(&[usize]) -> S)
where
    N::Value: Buf<V = S>,
{
    fun(&format!("{}::evaluate", f));
    match real(|| n.evaluate(&mut c.clone())) {
        Ok(b) => {
            check("layout: the value's shape followed by the target's", b.dims() == d, || format!("has {:?}, should have {:?}", b.dims(), d));
            if b.dims() == d {
                for ix in N::Value::ixs(d) {
                    prove("every entry is the partial derivative", b.at(&ix).same(want(&ix)));
                }
            }
        }
        Err(e) => check("the derivative evaluates", false, || format!("failed with {}", e)),
    }
    fun(&format!("{}::evaluate_spec", f));
    match real(|| n.evaluate_spec(&mut c.clone())) {
        Ok(b) => {
            check("layout: the value's shape followed by the target's (lifted)", spec_dims(&b) == d, || format!("has {:?}, should have {:?}", spec_dims(&b), d));
            if spec_dims(&b) == d {
                for ix in N::Value::ixs(d) {
                    prove("every entry is the partial derivative (lifted)", spec_at(&b, &ix).same(want(&ix)));
                }
                let u = real(|| b.clone().unwrap());
                for ix in N::Value::ixs(d) {
                    prove("every entry is the partial derivative (lifted, made dense)", u.at(&ix).same(want(&ix)));
                }
            }
        }
        Err(e) => check("the derivative evaluates (lifted)", false, || format!("failed with {}", e)),
    }
    fun(&format!("{}::evaluate_shape", f));
    match real(|| n.evaluate_shape(&mut c.clone())) {
        Ok(s) => check("layout: the value's shape followed by the target's (shape query)", N::Value::sdims(&s) == d, || format!("{:?} instead of {:?}", N::Value::sdims(&s), d)),
        Err(e) => check("the shape query succeeds", false, || format!("failed with {}", e)),
    }
}
fn cat(a: &[usize], b: &[usize]) -> Vec<usize> { a.iter().chain(b).copied().collect() }
fn nm(f: &str, a: &str, b: &str) -> String { format!("{} ({} by {})", f, a, b) }

fn own<B: Buf<V = S, Field = S>>(d: &[usize])
where
    VariableAdjoint<X, X>: Function<Two<B, S>>,
    <VariableAdjoint<X, X> as Function<Two<B, S>>>::Value: Buf<V = S>,
{
    let c = Two::<B, S>(Some(any_spec::<B>("x", d)), Some(Spec::Raw(S::fresh("y"))));
    jac(&nm("VariableAdjoint, own", tn::<B>(), tn::<B>()), &real(|| Differentiable::adjoint(&X.into_var(), X)), &c, &cat(d, d), &eye(d.len()));
}
fn other<A: Buf<V = S, Field = S>, B: Buf<V = S, Field = S>>(da: &[usize], db: &[usize])
where
    VariableAdjoint<X, Y>: Function<Two<A, B>>,
    <VariableAdjoint<X, Y> as Function<Two<A, B>>>::Value: Buf<V = S>,
    ConstantAdjoint<Stub<A>, Y>: Function<Two<A, B>>,
    <ConstantAdjoint<Stub<A>, Y> as Function<Two<A, B>>>::Value: Buf<V = S>,
    ConstantAdjoint<Constant<A>, Y>: Function<Two<A, B>>,
    <ConstantAdjoint<Constant<A>, Y> as Function<Two<A, B>>>::Value: Buf<V = S>,
{
    let c = Two::<A, B>(Some(any_spec::<A>("x", da)), Some(any_spec::<B>("y", db)));
    let d = cat(da, db);
    jac(&nm("VariableAdjoint, other", tn::<A>(), tn::<B>()), &real(|| Differentiable::adjoint(&X.into_var(), Y)), &c, &d, &zero);
    jac(&nm("ConstantAdjoint", tn::<A>(), tn::<B>()), &ConstantAdjoint { node: Stub::<A>::ok("n", any_spec::<A>("n", da)), target: Y }, &c, &d, &zero);
    let k = Constant(fresh_buf::<A>("k", da));
    jac(&nm("Constant::adjoint", tn::<A>(), tn::<B>()), &real(|| Differentiable::adjoint(&k, Y)), &c, &d, &zero);
}
// any buffer that meets the contract of the buffer traits, of any rank and size
fn h_generic() {
    let v: Vec<fn()> = vec![
        || generic::<0>(),
        || generic::<1>(),
        || generic::<2>(),
        || generic::<3>(),
        || generic::<7>(),
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn generic<const D: usize>() {
    let c = Two::<GV<S, D>, GV<S, D>>(Some(any_spec("x", &[2])), Some(any_spec("y", &[2])));
    let t = format!("(contract buffer of rank {})", D);
    jac(&format!("VariableAdjoint, own {}", t), &real(|| Differentiable::adjoint(&X.into_var(), X)), &c, &[2, 2], &eye(1));
    jac(&format!("VariableAdjoint, other {}", t), &real(|| Differentiable::adjoint(&X.into_var(), Y)), &c, &[2, 2], &zero);
    jac(&format!("ConstantAdjoint {}", t), &ConstantAdjoint { node: Stub::<GV<S, D>>::ok("n", any_spec("n", &[2])), target: Y }, &c, &[2, 2], &zero);
    let k = Constant(fresh_buf::<GV<S, D>>("k", &[2]));
    jac(&format!("Constant::adjoint {}", t), &real(|| Differentiable::adjoint(&k, Y)), &c, &[2, 2], &zero);
}
fn h_own() {
    let v: Vec<fn()> = vec![
        || own::<S>(&[]),
        || own::<[S; 0]>(&[0]),
        || own::<[S; 1]>(&[1]),
        || own::<[S; 2]>(&[2]),
        || own::<[S; 3]>(&[3]),
        || own::<[S; 5]>(&[5]),
        || own::<[[S; 2]; 2]>(&[2, 2]),
        || own::<[[S; 3]; 2]>(&[2, 3]),
        || own::<[[S; 2]; 3]>(&[3, 2]),
        || own::<[[S; 1]; 3]>(&[3, 1]),
        || own::<[[S; 0]; 2]>(&[2, 0]),
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h_other() {
    let v: Vec<fn()> = vec![
        || other::<S, S>(&[], &[]),
        || other::<S, [S; 3]>(&[], &[3]),
        || other::<S, (S, S)>(&[], &[2]),
        || other::<S, [[S; 3]; 2]>(&[], &[2, 3]),
        || other::<S, [[[S; 3]; 2]; 1]>(&[], &[1, 2, 3]),
        || other::<(S, S), S>(&[2], &[]),
        || other::<(S, S), [S; 3]>(&[2], &[3]),
        || other::<(S, S), [[S; 1]; 3]>(&[2], &[3, 1]),
        || other::<[S; 3], S>(&[3], &[]),
        || other::<[S; 3], (S, S)>(&[3], &[2]),
        || other::<[S; 2], [S; 3]>(&[2], &[3]),
        || other::<[S; 3], [S; 2]>(&[3], &[2]),
        || other::<[S; 2], [S; 2]>(&[2], &[2]),
        || other::<[S; 1], [S; 0]>(&[1], &[0]),
        || other::<[S; 2], [[S; 3]; 1]>(&[2], &[1, 3]),
        || other::<[S; 2], [[[S; 2]; 3]; 1]>(&[2], &[1, 3, 2]),
        || other::<[[S; 3]; 2], S>(&[2, 3], &[]),
        || other::<[[S; 3]; 2], [S; 4]>(&[2, 3], &[4]),
        || other::<[[S; 3]; 2], (S, S)>(&[2, 3], &[2]),
        || other::<[[S; 3]; 2], [[S; 1]; 4]>(&[2, 3], &[4, 1]),
        || other::<[[S; 3]; 2], [[[S; 1]; 2]; 4]>(&[2, 3], &[4, 2, 1]),
    ];
    let c = engine::choose(v.len());
    v[c]()
}
// derivatives of derivatives are zero, and keep appending target shapes
fn second<A: Buf<V = S, Field = S>, B: Buf<V = S, Field = S>>(da: &[usize], db: &[usize])
where
    ConstantAdjoint<VariableAdjoint<X, X>, Y>: Function<Two<A, B>>,
    <ConstantAdjoint<VariableAdjoint<X, X>, Y> as Function<Two<A, B>>>::Value: Buf<V = S>,
    ConstantAdjoint<VariableAdjoint<X, Y>, Y>: Function<Two<A, B>>,
    <ConstantAdjoint<VariableAdjoint<X, Y>, Y> as Function<Two<A, B>>>::Value: Buf<V = S>,
{
    let c = Two::<A, B>(Some(any_spec::<A>("x", da)), Some(any_spec::<B>("y", db)));
    let n = real(|| Differentiable::adjoint(&Differentiable::adjoint(&X.into_var(), X), Y));
    jac(&nm("VariableAdjoint::adjoint", tn::<A>(), tn::<B>()), &n, &c, &cat(&cat(da, da), db), &zero);
    let n = real(|| Differentiable::adjoint(&Differentiable::adjoint(&X.into_var(), Y), Y));
    jac(&nm("VariableAdjoint::adjoint", tn::<A>(), tn::<B>()), &n, &c, &cat(&cat(da, db), db), &zero);
}
fn h_second() {
    let v: Vec<fn()> = vec![
        || second::<S, S>(&[], &[]),
        || second::<S, [S; 3]>(&[], &[3]),
        || second::<[S; 3], S>(&[3], &[]),
        || second::<[S; 2], [S; 3]>(&[2], &[3]),
        || second::<[[S; 2]; 1], S>(&[1, 2], &[]),
        || second::<[[S; 2]; 1], [S; 3]>(&[1, 2], &[3]),
    ];
    let c = engine::choose(v.len());
    v[c]()
}

// linear operators, for any Jacobians of the operands
fn lin<J: Buf<V = S, Field = S>>(d: &[usize])
where
    ops::Add<Stub<J>, Stub<J>>: Function<Nc, Value = J>,
    ops::Sub<Stub<J>, Stub<J>>: Function<Nc, Value = J>,
    ops::Negate<Stub<J>>: Function<Nc, Value = J>,
    ops::Double<Stub<J>>: Function<Nc, Value = J>,
{
    // the operands' own values play no part in the derivative of a linear operator
    let x = Stub::ok("x", Spec::Raw(S::fresh("x")));
    let (a, b) = (any_spec::<J>("dx", d), any_spec::<J>("dy", d));
    let f = x.clone().with(Stub::ok("dx", a.clone()));
    let g = x.with(Stub::ok("dy", b.clone()));
    let k = tn::<J>();
    jac(&format!("Add::adjoint ({})", k), &real(|| ops::Add(f.clone(), g.clone()).adjoint(X)), &Nc, d, &|i| spec_at(&a, i) + spec_at(&b, i));
    jac(&format!("Sub::adjoint ({})", k), &real(|| ops::Sub(f.clone(), g.clone()).adjoint(X)), &Nc, d, &|i| spec_at(&a, i) - spec_at(&b, i));
    jac(&format!("Negate::adjoint ({})", k), &real(|| ops::Negate(f.clone()).adjoint(X)), &Nc, d, &|i| -spec_at(&a, i));
    jac(&format!("Double::adjoint ({})", k), &real(|| ops::Double(f.clone()).adjoint(X)), &Nc, d, &|i| spec_at(&a, i) + spec_at(&a, i));
    jac(&format!("AddOne::adjoint ({})", k), &real(|| ops::AddOne(f.clone()).adjoint(X)), &Nc, d, &|i| spec_at(&a, i));
    jac(&format!("SubOne::adjoint ({})", k), &real(|| ops::SubOne(f.clone()).adjoint(X)), &Nc, d, &|i| spec_at(&a, i));
    jac(&format!("OneSub::adjoint ({})", k), &real(|| ops::OneSub(f.clone()).adjoint(X)), &Nc, d, &|i| -spec_at(&a, i));
}
fn h_lin_any() { lin::<Gen<S>>(&[3]) }
fn h_lin() {
    let v: Vec<fn()> = vec![
        || lin::<S>(&[]),
        || lin::<(S, S)>(&[2]),
        || lin::<Vec<S>>(&[0]),
        || lin::<Vec<S>>(&[3]),
        || lin::<[S; 3]>(&[3]),
        || lin::<[[S; 2]; 2]>(&[2, 2]),
        || lin::<[[S; 3]; 2]>(&[2, 3]),
        || lin::<[[[S; 2]; 1]; 2]>(&[2, 1, 2]),
        || lin::<[[[[S; 2]; 2]; 2]; 1]>(&[1, 2, 2, 2]),
    ];
    let c = engine::choose(v.len());
    v[c]()
}

// inner products of vectors
fn inner<const N: usize, const M: usize>(symmetric: bool)
where
    ops::TensorDot<Stub<[S; N]>, Stub<[[S; M]; N]>>: Function<Nc, Value = [S; M]>,
    ops::TensorDot<Stub<[[S; M]; N]>, Stub<[S; N]>>: Function<Nc, Value = [S; M]>,
    ops::Add<ops::TensorDot<Stub<[S; N]>, Stub<[[S; M]; N]>>, ops::TensorDot<Stub<[[S; M]; N]>, Stub<[S; N]>>>: Function<Nc, Value = [S; M]>,
{
    let (x, y) = (any_spec::<[S; N]>("x", &[N]), any_spec::<[S; N]>("y", &[N]));
    let (a, b) = (any_spec::<[[S; M]; N]>("dx", &[N, M]), any_spec::<[[S; M]; N]>("dy", &[N, M]));
    if symmetric {
        for i in 0..N {
            for j in 0..i {
                assume(spec_at(&a, &[i, j]).feq(spec_at(&a, &[j, i])));
            }
        }
    }
    let f = Stub::ok("x", x.clone()).with(Stub::ok("dx", a.clone()));
    let g = Stub::ok("y", y.clone()).with(Stub::ok("dy", b.clone()));
    let n = if symmetric { "Contract<1>::adjoint (vectors)" } else { "Contract<1>::adjoint (vectors, asymmetric Jacobian on the left)" };
    jac(n, &real(|| ops::TensorDot::<_, _> { 0: f, 1: g }.adjoint(X)), &Nc, &[M], &|i| {
        (0..N).fold(S::c(0.0), |t, k| t + spec_at(&x, &[k]) * spec_at(&b, &[k, i[0]]) + spec_at(&a, &[k, i[0]]) * spec_at(&y, &[k]))
    });
}
// the left factor does not depend on the target, or only the left factor does (scalar target)
fn inner_left_constant<const N: usize, const M: usize>() {
    let (x, y) = (any_spec::<[S; N]>("x", &[N]), any_spec::<[S; N]>("y", &[N]));
    let b = any_spec::<[[S; M]; N]>("dy", &[N, M]);
    let f = Stub::ok("x", x.clone()).with(Stub::ok("dx", Spec::<[[S; M]; N]>::zeroes(aegir::buffers::shapes::S2)));
    let g = Stub::ok("y", y.clone()).with(Stub::ok("dy", b.clone()));
    jac("Contract<1>::adjoint (vectors, left factor constant)", &real(|| ops::TensorDot::<_, _> { 0: f, 1: g }.adjoint(X)), &Nc, &[M], &|i| {
        (0..N).fold(S::c(0.0), |t, k| t + spec_at(&x, &[k]) * spec_at(&b, &[k, i[0]]))
    });
}
fn inner_scalar_target<const N: usize>() {
    let (x, y) = (any_spec::<[S; N]>("x", &[N]), any_spec::<[S; N]>("y", &[N]));
    let (a, b) = (any_spec::<[S; N]>("dx", &[N]), any_spec::<[S; N]>("dy", &[N]));
    let f = Stub::ok("x", x.clone()).with(Stub::ok("dx", a.clone()));
    let g = Stub::ok("y", y.clone()).with(Stub::ok("dy", b.clone()));
    jac("Contract<1>::adjoint (vectors, scalar target)", &real(|| ops::TensorDot::<_, _> { 0: f, 1: g }.adjoint(X)), &Nc, &[], &|_| {
        (0..N).fold(S::c(0.0), |t, k| t + spec_at(&x, &[k]) * spec_at(&b, &[k]) + spec_at(&a, &[k]) * spec_at(&y, &[k]))
    });
}
fn h_inner() {
    let v: Vec<fn()> = vec![
        || inner::<1, 1>(true),
        || inner::<2, 2>(true),
        || inner::<3, 3>(true),
        || inner::<0, 0>(true),
        || inner_left_constant::<2, 3>(),
        || inner_left_constant::<3, 2>(),
        || inner_left_constant::<2, 2>(),
        || inner_scalar_target::<0>(),
        || inner_scalar_target::<1>(),
        || inner_scalar_target::<2>(),
        || inner_scalar_target::<4>(),
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h_asym() { inner::<2, 2>(false) }
// scalar times vector, where only the vector depends on the target, and where the scalar does too
fn scaled<const N: usize>(vector_only: bool) {
    let (x, y) = (S::fresh("x"), fresh_buf::<[S; N]>("y", &[N]));
    let a = fresh_buf::<[S; N]>("dx", &[N]);
    let b = any_spec::<[[S; N]; N]>("dy", &[N, N]);
    let da = if vector_only { Spec::zeroes(aegir::buffers::shapes::S1) } else { Spec::Raw(a) };
    let f = Stub::ok("x", Spec::Raw(x)).with(Stub::ok("dx", da.clone()));
    let g = Stub::ok("y", Spec::Raw(y)).with(Stub::ok("dy", b.clone()));
    jac("Contract<0>::adjoint (scalar, vector)", &real(|| ops::TensorProduct::<_, _> { 0: f, 1: g }.adjoint(X)), &Nc, &[N, N], &|i| x * spec_at(&b, i) + spec_at(&da, &[i[1]]) * y[i[0]]);
}
fn scaled_scalar_target<const N: usize>() {
    let (x, y) = (S::fresh("x"), any_spec::<[S; N]>("y", &[N]));
    let (a, b) = (S::fresh("dx"), any_spec::<[S; N]>("dy", &[N]));
    let f = Stub::ok("x", Spec::Raw(x)).with(Stub::ok("dx", Spec::Raw(a)));
    let g = Stub::ok("y", y.clone()).with(Stub::ok("dy", b.clone()));
    jac("Contract<0>::adjoint (scalar, vector; scalar target)", &real(|| ops::TensorProduct::<_, _> { 0: f, 1: g }.adjoint(X)), &Nc, &[N], &|i| x * spec_at(&b, i) + a * spec_at(&y, i));
}
fn h_scaled() {
    let v: Vec<fn()> = vec![|| scaled::<1>(true), || scaled::<2>(true), || scaled::<3>(true), || scaled_scalar_target::<1>(), || scaled_scalar_target::<3>()];
    let c = engine::choose(v.len());
    v[c]()
}
fn h_scaled_both() { scaled::<2>(false) }

// whole expressions over variables
fn whole<const N: usize>() {
    type A<const N: usize> = [S; N];
    let c = Two::<A<N>, A<N>>(Some(any_spec::<A<N>>("x", &[N])), Some(any_spec::<A<N>>("y", &[N])));
    let (x, y) = (dense(c.0.as_ref().unwrap()), dense(c.1.as_ref().unwrap()));
    let d = |k: f64| move |i: &[usize]| if i[0] == i[1] { S::c(k) } else { S::c(0.0) };
    jac("x + y by x", &real(|| X.into_var().add(Y.into_var()).adjoint(X)), &c, &[N, N], &d(1.0));
    jac("x - y by y", &real(|| X.into_var().sub(Y.into_var()).adjoint(Y)), &c, &[N, N], &d(-1.0));
    jac("2x - (y + x) by x", &real(|| ops::Sub(ops::Double(X.into_var()), Y.into_var().add(X.into_var())).adjoint(X)), &c, &[N, N], &d(1.0));
    jac("-(1 - x) by x", &real(|| ops::Negate(ops::OneSub(X.into_var())).adjoint(X)), &c, &[N, N], &d(1.0));
    jac("<x, y> by x", &real(|| X.into_var().dot(Y.into_var()).adjoint(X)), &c, &[N], &|i| y[i[0]]);
    jac("<x, y> by y", &real(|| X.into_var().dot(Y.into_var()).adjoint(Y)), &c, &[N], &|i| x[i[0]]);
    jac("<x, x> by x", &real(|| X.into_var().dot(X.into_var()).adjoint(X)), &c, &[N], &|i| x[i[0]] + x[i[0]]);
    jac("<x - y, x + y> by y", &real(|| X.into_var().sub(Y.into_var()).dot(X.into_var().add(Y.into_var())).adjoint(Y)), &c, &[N], &|i| -(y[i[0]] + y[i[0]]));
}
fn h_whole() {
    let v: Vec<fn()> = vec![|| whole::<1>(), || whole::<2>(), || whole::<3>()];
    let c = engine::choose(v.len());
    v[c]()
}
// identifiers that print alike are still different variables
aegir::ids!(Twin1::"q", Twin2::"q");
fn twins<B: Buf<V = S, Field = S>>(d: &[usize])
where
    VariableAdjoint<Twin1, Twin2>: Function<Store<B>>,
    <VariableAdjoint<Twin1, Twin2> as Function<Store<B>>>::Value: Buf<V = S>,
    VariableAdjoint<Twin2, Twin2>: Function<Store<B>>,
    <VariableAdjoint<Twin2, Twin2> as Function<Store<B>>>::Value: Buf<V = S>,
{
    let c = Store::<B>::new().with(Twin1, any_spec::<B>("x", d)).with(Twin2, any_spec::<B>("y", d));
    jac("VariableAdjoint (another variable of the same symbol)", &real(|| aegir::meta::Variable(Twin1).adjoint(Twin2)), &c, &cat(d, d), &zero);
    jac("VariableAdjoint (itself, another variable of the same symbol)", &real(|| aegir::meta::Variable(Twin2).adjoint(Twin2)), &c, &cat(d, d), &eye(d.len()));
}
fn h_twins() {
    match engine::choose(4) {
        0 => twins::<S>(&[]),
        1 => twins::<[S; 2]>(&[2]),
        2 => twins::<[[S; 2]; 1]>(&[1, 2]),
        _ => twins::<GV<S, 0>>(&[2]),
    }
}
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![
        ("derivative of sources, any buffer", Mode::Real, h_generic as fn(), ""),
        ("derivative of a variable by itself", Mode::Real, h_own, "scalar, vectors of length 0-5, matrices with extents 0-3"),
        ("derivative of a variable by another of the same symbol", Mode::Real, h_twins, "scalar, vector, matrix, any vector"),
        ("derivative of a variable by another, of a constant", Mode::Real, h_other, "every pair of kinds the precedence table supports, rank up to 3, small extents"),
        ("derivative of a derivative", Mode::Real, h_second, "ranks 0-2, small extents"),
        ("linear operators, any Jacobian", Mode::Real, h_lin_any, ""),
        ("linear operators", Mode::Real, h_lin, "scalar, pair, vectors, arrays of rank 1-4 with small extents"),
        ("inner products of vectors", Mode::Real, h_inner, "extents 0-4"),
        ("inner products of vectors, asymmetric Jacobian on the left", Mode::Real, h_asym, "extent 2"),
        ("scaled vectors", Mode::Real, h_scaled, "extents 1-3"),
        ("scaled vectors, scale depending on the target", Mode::Real, h_scaled_both, "extent 2"),
        ("whole vector expressions", Mode::Real, h_whole, "extents 1-3"),
    ]
}

// Contract of `contains`: an operator contains exactly what its operands contain.
#[allow(unused_imports)]
use crate::engine::{self, *};
use crate::stub::*;
#[allow(unused_imports)]
use crate::sym::Val;
use aegir::buffers::{Buffer, Spec};
use aegir::ids::{Alpha, Theta, C, X, Y, Z};
use aegir::{meta::*, ops, Contains, Differentiable, Identifier, Node};

const SETS: [&[&str]; 8] = [&[], &["X"], &["Y"], &["Z"], &["X", "Y"], &["X", "Z"], &["Y", "Z"], &["X", "Y", "Z"]];
fn is<N: Contains<X> + Contains<Y> + Contains<Z> + Contains<Theta>>(f: &str, n: &N, want: &dyn Fn(&str) -> bool) {
    fun(&format!("{}::contains", f));
    let got = real(|| [n.contains(X), n.contains(Y), n.contains(Z), n.contains(Theta)]);
    for (i, id) in ["X", "Y", "Z", "Theta"].into_iter().enumerate() {
        check("exactly when the identifier occurs in an operand", got[i] == want(id), || format!("contains({}) is {}", id, got[i]));
    }
    let again = real(|| [n.contains(X), n.contains(Y), n.contains(Z), n.contains(Theta)]);
    check("the same answer every time", again == got, || format!("{:?} then {:?}", got, again));
}
fn unary() {
    let a = Holds(SETS[engine::choose(SETS.len())]);
    let w = |id: &str| a.0.contains(&id);
    macro_rules! u { ($($o:ident),*) => { $( is(stringify!($o), &ops::$o(a), &w); )* } }
    u!(Square, Double, Negate, Abs, Sign, Dirac, AddOne, SubOne, OneSub, Sum, Ln, XLnX, Exp, Sigmoid, Rabbit);
    macro_rules! ut { ($m:ident: $($o:ident),*) => { $( is(stringify!($o), &ops::$m::$o(a), &w); )* } }
    ut!(trig: Cos, Sin, Tan, Cosh, Sinh, Tanh, ArcCos, ArcSin, ArcTan, ArcCosh, ArcSinh, ArcTanh);
    ut!(special: Erf, Gamma, LogGamma, DiGamma);
    macro_rules! m { ($($o:ident),*) => { $( is(concat!("Node::", stringify!($o)), &a.$o(), &w); )* } }
    m!(abs, neg, ln, squared, sum, sigmoid);
}
fn binary() {
    let c = engine::choose(SETS.len() * SETS.len());
    let (a, b) = (Holds(SETS[c % SETS.len()]), Holds(SETS[c / SETS.len()]));
    let w = |id: &str| a.0.contains(&id) || b.0.contains(&id);
    macro_rules! bi { ($($o:ident),*) => { $( is(stringify!($o), &ops::$o(a, b), &w); )* } }
    bi!(Add, Sub, Mul, Div, Power);
    is("TensorProduct", &ops::TensorProduct::new(a, b), &w);
    is("TensorDot", &ops::TensorDot::new(a, b), &w);
    is("TensorDoubleDot", &ops::TensorDoubleDot::new(a, b), &w);
    macro_rules! m { ($($o:ident),*) => { $( is(concat!("Node::", stringify!($o)), &a.$o(b), &w); )* } }
    m!(add, sub, mul, div, dot, pow);
}
fn sources() {
    macro_rules! v { ($($i:ident),*) => { $(
        is("Variable", &$i.into_var(), &|id| id == stringify!($i));
        is("Variable", &Variable($i), &|id| id == stringify!($i));
        v!(@ $i; X, Y, Z, Theta, Alpha);
    )* };
    (@ $i:ident; $($j:ident),*) => { $(
        is("VariableAdjoint", &VariableAdjoint { value: $i, target: $j }, &|id| id == stringify!($i) || id == stringify!($j));
        is("Variable::adjoint", &$i.into_var().adjoint($j), &|id| id == stringify!($i) || id == stringify!($j));
        is("ConstantAdjoint", &ConstantAdjoint { node: $i.into_var(), target: $j }, &|id| id == stringify!($i) || id == stringify!($j));
    )* } }
    v!(X, Y, Z, Theta, Alpha);
    is("Constant", &2.0f64.into_constant(), &|_| false);
    is("Constant", &Constant([1.0f64, 2.0]), &|_| false);
    is("Constant", &Constant(vec![1.0f64]), &|_| false);
    is("Constant", &Constant(Spec::<f64>::zeroes(aegir::buffers::shapes::S0)), &|_| false);
}
fn holders() {
    let c = engine::choose(SETS.len());
    let a = Holds(SETS[c]);
    macro_rules! h { ($($j:ident),*) => { $(
        is("ConstantAdjoint", &ConstantAdjoint { node: a, target: $j }, &|id| a.0.contains(&id) || id == stringify!($j));
        is("Cached", &Cached { node: a, ident: $j }, &|id| a.0.contains(&id) || id == stringify!($j));
        is("Node::cached", &a.cached($j), &|id| a.0.contains(&id) || id == stringify!($j));
    )* } }
    h!(X, Y, Z, Theta, C);
}
fn trees() {
    let e = X.into_var().mul(Y.into_var().add(2.0f64.into_constant())).cached(C).sigmoid();
    is("a tree", &e, &|id| id == "X" || id == "Y");
    let e = ops::Power(Theta.into_var().squared(), ops::Sub(1.0f64.into_constant(), Z.into_var()));
    is("a tree", &e, &|id| id == "Theta" || id == "Z");
    let e = X.into_var().mul(X.into_var()).adjoint(Y);
    is("a derivative", &e, &|id| id == "X" || id == "Y");
}
// operators of a user, through the derive: every form of declaration
#[derive(Clone, Copy, Contains)]
struct Same<N>(#[op] N, #[op] N);
#[derive(Clone, Copy, Contains)]
struct Lerp<N, M>(#[op] N, #[op] M, #[op] N);
#[derive(Clone, Copy, Contains)]
struct Clamp<L, R, M> {
    #[op]
    low: L,
    #[op]
    value: M,
    #[op]
    high: R,
}
#[derive(Clone, Copy, Contains)]
struct Both<N: Node>
where
    N: Clone,
{
    /// documented, and with an attribute of its own
    #[op]
    #[allow(dead_code)]
    pub right: N,
    #[op]
    left: N,
}
#[derive(Clone, Copy, Contains)]
struct Fixed(#[op] Holds, #[op] Holds, #[op] Holds);
#[derive(Clone, Copy, Contains)]
struct Sized_<const K: usize, A>(#[op] pub A, #[op] Holds);
#[derive(Clone, Copy, Contains)]
struct Four<A, B, C_, D>(#[op] A, #[op] B, #[op] C_, #[op] D);
#[derive(Clone, Copy, Contains)]
struct One<A>(#[op] A);
#[derive(Clone, Copy, Contains)]
struct Five<A>(#[op] A, #[op] A, #[op] A, #[op] A, #[op] A);
macro_rules! nodes { ($([$($g:tt)*] $t:ty);*) => { $( impl<$($g)*> Node for $t {} )* } }
nodes!([N: Node] Same<N>; [N: Node, M: Node] Lerp<N, M>; [L: Node, R: Node, M: Node] Clamp<L, R, M>; [N: Node + Clone] Both<N>; [] Fixed; [const K: usize, A: Node] Sized_<K, A>;
    [A: Node, B: Node, C_: Node, D: Node] Four<A, B, C_, D>; [A: Node] One<A>; [A: Node] Five<A>);
fn declared() {
    let c = engine::choose(SETS.len() * SETS.len() * SETS.len());
    let (a, b, d) = (Holds(SETS[c % 8]), Holds(SETS[c / 8 % 8]), Holds(SETS[c / 64]));
    let z = Holds(&[]);
    let w = |id: &str| a.0.contains(&id);
    is("derived, one operand", &One(a), &w);
    let w = |id: &str| a.0.contains(&id) || b.0.contains(&id);
    is("derived, two operands of one type", &Same(a, b), &w);
    is("derived, named operands of one type", &Both { right: a, left: b }, &w);
    is("derived, const generic", &Sized_::<3, _>(a, b), &w);
    let w = |id: &str| a.0.contains(&id) || b.0.contains(&id) || d.0.contains(&id);
    is("derived, three operands of two types", &Lerp(a, One(b), d), &w);
    is("derived, three named operands", &Clamp { low: a, value: b, high: d }, &w);
    is("derived, three named operands of other types", &Clamp { low: One(a), value: Same(b, z), high: d }, &w);
    is("derived, no parameters", &Fixed(a, b, d), &w);
    is("derived, four operands", &Four(a, z, b, d), &w);
    is("derived, four operands", &Four(z, a, b, d), &w);
    is("derived, four operands", &Four(a, b, d, z), &w);
    is("derived, five operands", &Five(a, z, b, z, d), &w);
    is("derived, five operands", &Five(z, a, z, b, d), &w);
    is("derived, nested", &Same(One(Same(a, b)), One(Same(d, z))), &w);
}
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![("unary", Mode::Real, unary as fn(), ""), ("binary", Mode::Real, binary, ""), ("sources", Mode::Real, sources, ""), ("holders", Mode::Real, holders, ""), ("trees", Mode::Real, trees, ""), ("operators declared through the derive", Mode::Real, declared, "listed declarations")]
}

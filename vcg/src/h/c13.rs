// Contracts of the dual numbers and of evaluate_dual.
#[allow(unused_imports)]
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::{buffers::{Buffer, Spec}, dual, ids, AegirResult, Context, Contains, Differentiable, Dual, Function, Identifier, Node, Read, Write};

fn is(label: &str, d: Dual<S>, v: S, a: S) {
    prove(&format!("{}: value", label), d.value.same(v));
    prove(&format!("{}: coefficient of ε", label), d.adjoint.same(a));
}
fn algebra() {
    let (v, a, w, b) = (S::fresh("v"), S::fresh("a"), S::fresh("w"), S::fresh("b"));
    let (x, y) = (Dual { value: v, adjoint: a }, Dual { value: w, adjoint: b });
    fun("Dual::neg");
    is("-(v + aε)", real(|| -x), -v, -a);
    fun("Dual::conj");
    is("conj", real(|| x.conj()), v, -a);
    fun("Dual::add(Dual)");
    is("sum", real(|| x + y), v + w, a + b);
    fun("Dual::add(&Dual)");
    is("sum by reference", real(|| x + &y), v + w, a + b);
    fun("Dual::add(V)");
    is("sum with a plain number", real(|| x + w), v + w, a);
    fun("Dual::add(&V)");
    is("sum with a plain number by reference", real(|| x + &w), v + w, a);
    fun("Dual::sub(Dual)");
    is("difference", real(|| x - y), v - w, a - b);
    fun("Dual::sub(&Dual)");
    is("difference by reference", real(|| x - &y), v - w, a - b);
    fun("Dual::sub(V)");
    is("difference with a plain number", real(|| x - w), v - w, a);
    fun("Dual::sub(&V)");
    is("difference with a plain number by reference", real(|| x - &w), v - w, a);
    fun("Dual::mul(Dual)");
    is("product", real(|| x * y), v * w, a * w + v * b);
    fun("Dual::mul(&Dual)");
    is("product by reference", real(|| x * &y), v * w, a * w + v * b);
    fun("Dual::mul(V)");
    is("product with a plain number", real(|| x * w), v * w, a * w);
    fun("Dual::mul(&V)");
    is("product with a plain number by reference", real(|| x * &w), v * w, a * w);
    fun("Dual::from((V, A))");
    is("from a pair", real(|| Dual::from((v, a))), v, a);
    fun("dual!(v, a)");
    is("dual!(v, a)", real(|| dual!(v, a)), v, a);
    fun("dual!(v)");
    is("dual!(v)", real(|| dual!(v)), v, S::c(0.0));
}
fn filled<B: Buf<V = S>>(label: &str, b: &B, d: &[usize], f: &dyn Fn(&[usize]) -> S) {
    check(&format!("{}: shape", label), b.dims() == d, || format!("has {:?}, should have {:?}", b.dims(), d));
    if b.dims() == d {
        for ix in B::ixs(d) {
            prove(&format!("{}: every entry", label), b.at(&ix).same(f(&ix)));
        }
    }
}
fn made<B>(d: &[usize])
where
    B: Buf<V = S, Field = S>,
{
    let b = fresh_buf::<B>("x", d);
    fun(&format!("Dual::variable ({})", tn::<B>()));
    let x = real(|| Dual::variable(b.clone()));
    filled("value of a variable", &x.value, d, &|i| b.at(i));
    filled("coefficient of a variable", &x.adjoint, d, &|_| S::c(1.0));
    fun(&format!("Dual::constant ({})", tn::<B>()));
    let x = real(|| Dual::constant(b.clone()));
    filled("value of a constant", &x.value, d, &|i| b.at(i));
    filled("coefficient of a constant", &x.adjoint, d, &|_| S::c(0.0));
}
fn conj<A: Buf<V = S, Field = S>>(d: &[usize]) {
    let (v, a) = (S::fresh("v"), fresh_buf::<A>("a", d));
    fun(&format!("Dual::conj ({})", tn::<A>()));
    let x = real(|| Dual { value: v, adjoint: a.clone() }.conj());
    prove("conj: value", x.value.same(v));
    filled("conj: coefficient", &x.adjoint, d, &|i| -a.at(i));
}
fn constructors() {
    let v: Vec<fn()> = vec![
        || made::<S>(&[]),
        || made::<(S, S)>(&[2]),
        || made::<Vec<S>>(&[0]),
        || made::<Vec<S>>(&[1]),
        || made::<Vec<S>>(&[4]),
        || made::<[S; 0]>(&[0]),
        || made::<[S; 3]>(&[3]),
        || made::<[[S; 3]; 2]>(&[2, 3]),
        || made::<[[S; 2]; 2]>(&[2, 2]),
        || made::<[[[S; 2]; 1]; 3]>(&[3, 1, 2]),
        || made::<[[[[S; 2]; 2]; 1]; 2]>(&[2, 1, 2, 2]),
        || conj::<(S, S)>(&[2]),
        || conj::<Vec<S>>(&[3]),
        || conj::<[S; 3]>(&[3]),
        || conj::<[[S; 3]; 2]>(&[2, 3]),
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn constructors_any() {
    let v: Vec<fn()> = vec![|| made::<Gen<S>>(&[3]), || conj::<Gen<S>>(&[3])];
    let c = engine::choose(v.len());
    v[c]()
}

// an operand whose derivative depends on the identifier it is taken for
#[derive(Clone)]
struct Tgt<B: Buf, A: Buf> {
    v: Spec<B>,
    d: Vec<usize>,
    a: std::marker::PhantomData<A>,
}
impl<B: Buf, A: Buf> Node for Tgt<B, A> {}
impl<B: Buf<V = S>, A: Buf<V = S>, C: Context> Function<C> for Tgt<B, A> {
    type Error = StubErr;
    type Value = B;
    fn evaluate<CR: AsMut<C>>(&self, mut ctx: CR) -> AegirResult<Self, C> {
        let _ = ctx.as_mut();
        note("f", "evaluate");
        Ok(dense(&self.v))
    }
    fn evaluate_spec<CR: AsMut<C>>(&self, mut ctx: CR) -> Result<Spec<B>, StubErr> {
        let _ = ctx.as_mut();
        note("f", "evaluate_spec");
        Ok(self.v.clone())
    }
}
impl<B: Buf<V = S>, A: Buf<V = S>, T: Identifier> Differentiable<T> for Tgt<B, A> {
    type Adjoint = Stub<A>;
    fn adjoint(&self, t: T) -> Stub<A> {
        note("f", "adjoint");
        Stub::ok("df", any_spec::<A>(&format!("d_{}", idname(&t)), &self.d))
    }
}
fn pairs<B: Buf<V = S>, A: Buf<V = S>>(d: &[usize], da: &[usize]) {
    let f = Tgt::<B, A> { v: any_spec::<B>("v", d), d: da.to_vec(), a: std::marker::PhantomData };
    let order = || {
        let l = take_log();
        let last = l.iter().rposition(|e| e.0 == "f" && e.1 != "adjoint");
        let first = l.iter().position(|e| e.0 == "df");
        check("the value is evaluated before the derivative", matches!((last, first), (Some(a), Some(b)) if a < b), || format!("{:?}", l));
    };
    for y in [false, true] {
        let _ = take_log();
        let tgt = if y { "d_Y" } else { "d_X" };
        fun(&format!("Differentiable::evaluate_dual ({}, {})", tn::<B>(), tn::<A>()));
        let r = if y { real(|| f.evaluate_dual(ids::Y, Nc)) } else { real(|| f.evaluate_dual(ids::X, Nc)) };
        order();
        match r {
            Ok(x) => {
                filled("value", &x.value, d, &|i| spec_at(&f.v, i));
                adj("derivative for the requested target", &x.adjoint, da, tgt);
            }
            Err(_) => check("a dual is returned when value and derivative evaluate", false, || "an error was returned".into()),
        }
        fun(&format!("Differentiable::evaluate_adjoint ({}, {})", tn::<B>(), tn::<A>()));
        let r = if y { real(|| f.evaluate_adjoint(ids::Y, Nc)) } else { real(|| f.evaluate_adjoint(ids::X, Nc)) };
        match r {
            Ok(x) => adj("derivative for the requested target", &x, da, tgt),
            Err(_) => check("the derivative is returned when it evaluates", false, || "an error was returned".into()),
        }
    }
}
fn adj<A: Buf<V = S>>(label: &str, a: &A, d: &[usize], n: &str) {
    // the operand chose the representation itself: the entries are one of the three it may have built
    check(&format!("{}: shape", label), a.dims() == d, || format!("has {:?}, should have {:?}", a.dims(), d));
    if a.dims() == d {
        let ixs = A::ixs(d);
        let every = |f: &dyn Fn(&[usize]) -> S| P::And(ixs.iter().map(|i| a.at(i).same(f(i))).collect());
        prove(label, P::Or(vec![
            every(&|i| S::fresh(&name(n, i))),
            every(&|_| S::fresh(n)),
            every(&|i| if diag(i) { S::fresh(n) } else { S::c(0.0) }),
        ]));
    }
}
fn dual_of() {
    let v: Vec<fn()> = vec![
        || pairs::<S, S>(&[], &[]),
        || pairs::<S, [S; 2]>(&[], &[2]),
        || pairs::<[S; 2], [S; 2]>(&[2], &[2]),
        || pairs::<[S; 2], [[S; 3]; 2]>(&[2], &[2, 3]),
        || pairs::<Vec<S>, Vec<S>>(&[2], &[3]),
        || pairs::<(S, S), [S; 2]>(&[2], &[2]),
        || pairs::<Gen<S>, Gen<S>>(&[3], &[3]),
    ];
    let c = engine::choose(v.len());
    v[c]()
}

// the derivative is evaluated in the very context the value was evaluated in, after it
#[derive(Clone)]
struct Puts(S);
#[derive(Clone)]
struct Gets;
impl Node for Puts {}
impl Node for Gets {}
impl<C: Write<ids::Z, Buffer = S>> Function<C> for Puts {
    type Error = StubErr;
    type Value = S;
    fn evaluate<CR: AsMut<C>>(&self, mut ctx: CR) -> AegirResult<Self, C> {
        ctx.as_mut().write(ids::Z, self.0);
        Ok(self.0)
    }
}
impl<C: Read<ids::Z, Buffer = S>> Function<C> for Gets {
    type Error = StubErr;
    type Value = S;
    fn evaluate<CR: AsMut<C>>(&self, mut ctx: CR) -> AegirResult<Self, C> { ctx.as_mut().read(ids::Z).ok_or(StubErr(7)) }
}
impl<T: Identifier> Differentiable<T> for Puts {
    type Adjoint = Gets;
    fn adjoint(&self, _: T) -> Gets { Gets }
}
fn same_context() {
    let v = S::fresh("v");
    let mut c = Store::<S>::new().with(ids::Z, Spec::Raw(S::fresh("stale")));
    fun("Differentiable::evaluate_dual");
    match real(|| Puts(v).evaluate_dual(ids::X, &mut c)) {
        Ok(x) => is("what the value wrote is what the derivative reads", x, v, v),
        Err(_) => check("a dual is returned when value and derivative evaluate", false, || "an error was returned".into()),
    }
}
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![
        ("dual algebra", Mode::Real, algebra as fn(), ""),
        ("constructors and conjugation, any buffer", Mode::Real, constructors_any, ""),
        ("constructors and conjugation", Mode::Real, constructors, "scalar, pair, vectors of length 0-4, arrays of rank 1-4"),
        ("evaluate_dual pairs value and derivative", Mode::Real, dual_of, ""),
        ("evaluate_dual in one context", Mode::Real, same_context, ""),
    ]
}

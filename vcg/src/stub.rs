//! Contract stubs for the operands of an operator: an operator's contract is proved against any
//! operand that satisfies its own contract, and nothing else about the operand is known.
use crate::engine;
use crate::sym::Val;
use aegir::buffers::{shapes::*, Buffer, Class, Scalar, Spec, ZipFold, ZipMap};
use aegir::{Contains, Context, Differentiable, Function, Identifier, Node};
use std::cell::RefCell;

thread_local! { static LOG: RefCell<Vec<(String, &'static str)>> = RefCell::new(vec![]); }
pub fn reset() { LOG.with(|l| l.borrow_mut().clear()) }
pub fn log() -> Vec<(String, &'static str)> { LOG.with(|l| l.borrow().clone()) }
pub fn take_log() -> Vec<(String, &'static str)> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
pub fn note(id: &str, what: &'static str) { LOG.with(|l| l.borrow_mut().push((id.to_string(), what))) }

/// A context without content.
#[derive(Clone)]
pub struct Nc;
impl AsMut<Nc> for Nc {
    fn as_mut(&mut self) -> &mut Nc { self }
}
impl Context for Nc {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StubErr(pub u8);
impl std::fmt::Display for StubErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "stub error {}", self.0) }
}
impl std::error::Error for StubErr {}

// ------------------------------------------------------------------ native buffers

pub fn all_ix(d: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for n in d {
        let mut next = vec![];
        for p in &out {
            for i in 0..*n {
                let mut q: Vec<usize> = p.clone();
                q.push(i);
                next.push(q);
            }
        }
        out = next;
    }
    out
}
pub fn diag(ix: &[usize]) -> bool { ix.windows(2).all(|w| w[0] == w[1]) }

/// Buffers built and read natively (without /repo's code).
pub trait Buf: Buffer + Clone {
    type V: Val;
    fn mk(d: &[usize], f: &mut dyn FnMut(&[usize]) -> Self::V) -> Self;
    fn at(&self, ix: &[usize]) -> Self::V;
    fn dims(&self) -> Vec<usize>;
    fn shp(d: &[usize]) -> Self::Shape;
    fn sdims(s: &Self::Shape) -> Vec<usize>;
    fn ix(i: &[usize]) -> IndexOf<Self::Shape>;
    fn unix(i: IndexOf<Self::Shape>) -> Vec<usize>;
    fn v(x: Self::V) -> Self::Field;
    fn unv(x: Self::Field) -> Self::V;
    fn ixs(d: &[usize]) -> Vec<Vec<usize>> { all_ix(d) }
    /// is the index on the diagonal?
    fn dg(ix: &[usize]) -> bool { diag(ix) }
}
impl<F: Val> Buf for F {
    type V = F;
    fn mk(_: &[usize], f: &mut dyn FnMut(&[usize]) -> F) -> F { f(&[]) }
    fn at(&self, _: &[usize]) -> F { *self }
    fn dims(&self) -> Vec<usize> { vec![] }
    fn shp(_: &[usize]) -> S0 { S0 }
    fn sdims(_: &S0) -> Vec<usize> { vec![] }
    fn ix(_: &[usize]) {}
    fn unix(_: ()) -> Vec<usize> { vec![] }
    fn v(x: F) -> F { x }
    fn unv(x: F) -> F { x }
}
impl<F: Val> Buf for Vec<F> {
    type V = F;
    fn mk(d: &[usize], f: &mut dyn FnMut(&[usize]) -> F) -> Vec<F> { (0..d[0]).map(|i| f(&[i])).collect() }
    fn at(&self, ix: &[usize]) -> F { self[ix[0]] }
    fn dims(&self) -> Vec<usize> { vec![self.len()] }
    fn shp(d: &[usize]) -> SDynamic<1> { SDynamic([d[0]]) }
    fn sdims(s: &SDynamic<1>) -> Vec<usize> { vec![s.0[0]] }
    fn ix(i: &[usize]) -> [usize; 1] { [i[0]] }
    fn unix(i: [usize; 1]) -> Vec<usize> { i.to_vec() }
    fn v(x: F) -> F { x }
    fn unv(x: F) -> F { x }
}
impl<F: Val> Buf for (F, F) {
    type V = F;
    fn mk(_: &[usize], f: &mut dyn FnMut(&[usize]) -> F) -> (F, F) {
        let a = f(&[0]);
        (a, f(&[1]))
    }
    fn at(&self, ix: &[usize]) -> F { if ix[0] == 0 { self.0 } else { self.1 } }
    fn dims(&self) -> Vec<usize> { vec![2] }
    fn shp(_: &[usize]) -> S1<2> { S1 }
    fn sdims(_: &S1<2>) -> Vec<usize> { vec![2] }
    fn ix(i: &[usize]) -> usize { i[0] }
    fn unix(i: usize) -> Vec<usize> { vec![i] }
    fn v(x: F) -> F { x }
    fn unv(x: F) -> F { x }
}
macro_rules! arr {
    ($t:ty, $s:ident, [$($d:ident $i:literal),+], |$me:ident, $ix:ident| $at:expr, |$f:ident| $mk:expr, $un:expr, $ixe:expr) => {
        impl<F: Val, $(const $d: usize),+> Buf for $t {
            type V = F;
            fn mk(_: &[usize], $f: &mut dyn FnMut(&[usize]) -> F) -> Self { $mk }
            fn at(&self, $ix: &[usize]) -> F { let $me = self; $at }
            fn dims(&self) -> Vec<usize> { vec![$($d),+] }
            fn shp(_: &[usize]) -> $s<$($d),+> { $s }
            fn sdims(_: &$s<$($d),+>) -> Vec<usize> { vec![$($d),+] }
            fn ix(i: &[usize]) -> IndexOf<$s<$($d),+>> { ($ixe)(i) }
            fn unix(i: IndexOf<$s<$($d),+>>) -> Vec<usize> { ($un)(i) }
            fn v(x: F) -> F { x }
            fn unv(x: F) -> F { x }
        }
    };
}
use std::array::from_fn as af;
arr!([F; A], S1, [A 0], |m, x| m[x[0]], |f| af(|i| f(&[i])), |i: usize| vec![i], |i: &[usize]| i[0]);
arr!([[F; B]; A], S2, [A 0, B 1], |m, x| m[x[0]][x[1]], |f| af(|i| af(|j| f(&[i, j]))), |i: [usize; 2]| i.to_vec(), |i: &[usize]| [i[0], i[1]]);
arr!([[[F; C]; B]; A], S3, [A 0, B 1, C 2], |m, x| m[x[0]][x[1]][x[2]], |f| af(|i| af(|j| af(|k| f(&[i, j, k])))), |i: [usize; 3]| i.to_vec(), |i: &[usize]| [i[0], i[1], i[2]]);
arr!([[[[F; D]; C]; B]; A], S4, [A 0, B 1, C 2, D 3], |m, x| m[x[0]][x[1]][x[2]][x[3]], |f| af(|i| af(|j| af(|k| af(|l| f(&[i, j, k, l]))))), |i: [usize; 4]| i.to_vec(), |i: &[usize]| [i[0], i[1], i[2], i[3]]);
arr!([[[[[F; E]; D]; C]; B]; A], S5, [A 0, B 1, C 2, D 3, E 4], |m, x| m[x[0]][x[1]][x[2]][x[3]][x[4]], |f| af(|i| af(|j| af(|k| af(|l| af(|q| f(&[i, j, k, l, q])))))), |i: [usize; 5]| i.to_vec(), |i: &[usize]| [i[0], i[1], i[2], i[3], i[4]]);

// ------------------------------------------------------------------ the contract buffer

/// A buffer of unknown kind, rank and extents, known only through the contract of the buffer traits:
/// its entries are seen at one arbitrary diagonal index and one arbitrary off-diagonal index. An
/// operator that is generic in the buffer type reaches entries only through those traits, so what is
/// proved of this buffer is proved at every index of every buffer that meets the contract.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Gen<F>(pub GShape, pub F, pub F);
/// `GShape(n)`: some shape; different `n` are different shapes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct GShape(pub usize);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum GIx { OnDiagonal, OffDiagonal }
pub struct Gens;
impl Ix for GIx {
    fn is_diagonal(&self) -> bool { *self == GIx::OnDiagonal }
}
impl std::fmt::Display for GShape {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "G{}", self.0) }
}
impl Shape for GShape {
    const DIM: usize = 2;
    type Index = GIx;
    type IndexIter = std::vec::IntoIter<GIx>;
    fn contains(&self, _: GIx) -> bool { true }
    fn cardinality(&self) -> usize { 2 }
    fn indices(&self) -> Self::IndexIter { vec![GIx::OnDiagonal, GIx::OffDiagonal].into_iter() }
}
impl Broadcast for GShape {
    type Shape = GShape;
    fn broadcast(self, r: GShape) -> Result<GShape, IncompatibleShapes<GShape>> { if self == r { Ok(self) } else { Err(IncompatibleShapes { left: self, right: r }) } }
}
impl Broadcast<S0> for GShape {
    type Shape = GShape;
    fn broadcast(self, _: S0) -> Result<GShape, IncompatibleShapes<GShape, S0>> { Ok(self) }
}
impl Broadcast<GShape> for S0 {
    type Shape = GShape;
    fn broadcast(self, r: GShape) -> Result<GShape, IncompatibleShapes<S0, GShape>> { Ok(r) }
}
impl Class<GShape> for Gens {
    type Buffer<F: Scalar> = Gen<F>;
    fn build<F: Scalar>(s: GShape, f: impl Fn(GIx) -> F) -> Gen<F> { Gen(s, f(GIx::OnDiagonal), f(GIx::OffDiagonal)) }
    fn build_subset<F: Scalar>(s: GShape, base: F, ixs: impl Iterator<Item = GIx>, f: impl Fn(GIx) -> F) -> Gen<F> {
        let mut g = Gen(s, base, base);
        for i in ixs {
            match i { GIx::OnDiagonal => g.1 = f(i), GIx::OffDiagonal => g.2 = f(i) }
        }
        g
    }
}
impl<F: Scalar> Shaped for Gen<F> {
    type Shape = GShape;
    fn shape(&self) -> GShape { self.0 }
}
impl<F: Scalar> Buffer for Gen<F> {
    type Class = Gens;
    type Field = F;
    fn class() -> Gens { Gens }
    fn get_unchecked(&self, i: GIx) -> F { match i { GIx::OnDiagonal => self.1, GIx::OffDiagonal => self.2 } }
    fn map<A: Scalar, M: Fn(F) -> A>(self, f: M) -> Gen<A> { Gen(self.0, f(self.1), f(self.2)) }
    fn mutate<M: Fn(F) -> F>(&mut self, f: M) {
        self.1 = f(self.1);
        self.2 = f(self.2);
    }
}
impl<F: Scalar> ZipFold for Gen<F> {
    fn zip_fold<A: Scalar, M: Fn(A, (F, F)) -> A>(&self, r: &Gen<F>, init: A, f: M) -> Result<A, IncompatibleShapes<GShape>> {
        if self.0 != r.0 {
            return Err(IncompatibleShapes { left: self.0, right: r.0 });
        }
        Ok(f(f(init, (self.1, r.1)), (self.2, r.2)))
    }
}
impl<F: Scalar> ZipMap for Gen<F> {
    type Output<A: Scalar> = Gen<A>;
    fn zip_map<A: Scalar, M: Fn(F, F) -> A>(self, r: &Gen<F>, f: M) -> Result<Gen<A>, IncompatibleShapes<GShape>> {
        if self.0 != r.0 {
            return Err(IncompatibleShapes { left: self.0, right: r.0 });
        }
        Ok(Gen(self.0, f(self.1, r.1), f(self.2, r.2)))
    }
    fn zip_shape(self, r: GShape) -> Result<Gen<F>, IncompatibleShapes<GShape>> { if self.0 == r { Ok(self) } else { Err(IncompatibleShapes { left: self.0, right: r }) } }
}
impl<F: Scalar> ZipMap<F> for Gen<F> {
    type Output<A: Scalar> = Gen<A>;
    fn zip_map<A: Scalar, M: Fn(F, F) -> A>(self, r: &F, f: M) -> Result<Gen<A>, IncompatibleShapes<GShape, S0>> { Ok(Gen(self.0, f(self.1, *r), f(self.2, *r))) }
    fn zip_shape(self, _: S0) -> Result<Gen<F>, IncompatibleShapes<GShape, S0>> { Ok(self) }
}
macro_rules! gscalar { ($t:ty) => {
    impl ZipMap<Gen<$t>> for $t {
        type Output<A: Scalar> = Gen<A>;
        fn zip_map<A: Scalar, M: Fn($t, $t) -> A>(self, r: &Gen<$t>, f: M) -> Result<Gen<A>, IncompatibleShapes<S0, GShape>> { Ok(Gen(r.0, f(self, r.1), f(self, r.2))) }
        fn zip_shape(self, r: GShape) -> Result<Gen<$t>, IncompatibleShapes<S0, GShape>> { Ok(Gen(r, self, self)) }
    }
} }
gscalar!(crate::sym::Sym);
gscalar!(f64);
impl<F: Val> Buf for Gen<F> {
    type V = F;
    fn mk(d: &[usize], f: &mut dyn FnMut(&[usize]) -> F) -> Gen<F> {
        let a = f(&[0, 0]);
        Gen(GShape(d[0]), a, f(&[0, 1]))
    }
    fn at(&self, ix: &[usize]) -> F { if diag(ix) { self.1 } else { self.2 } }
    fn dims(&self) -> Vec<usize> { vec![(self.0).0] }
    fn shp(d: &[usize]) -> GShape { GShape(d[0]) }
    fn sdims(s: &GShape) -> Vec<usize> { vec![s.0] }
    fn ix(i: &[usize]) -> GIx { if diag(i) { GIx::OnDiagonal } else { GIx::OffDiagonal } }
    fn unix(i: GIx) -> Vec<usize> { if i.is_diagonal() { vec![0, 0] } else { vec![0, 1] } }
    fn v(x: F) -> F { x }
    fn unv(x: F) -> F { x }
    fn ixs(_: &[usize]) -> Vec<Vec<usize>> { vec![vec![0, 0], vec![0, 1]] }
}

pub fn name(n: &str, ix: &[usize]) -> String {
    let mut s = n.to_string();
    for i in ix {
        s.push_str(&format!("_{}", i));
    }
    s
}
pub fn fresh_buf<B: Buf>(n: &str, d: &[usize]) -> B { B::mk(d, &mut |ix| B::V::fresh(&name(n, ix))) }

/// entry of a lifted value, by the documented meaning of the three forms
pub fn spec_at<B: Buf>(s: &Spec<B>, ix: &[usize]) -> B::V {
    match s {
        Spec::Raw(b) => b.at(ix),
        Spec::Full(_, v) => B::unv(*v),
        Spec::Diagonal(_, v) => if B::dg(ix) { B::unv(*v) } else { B::V::c(0.0) },
        _ => panic!("unknown form of Spec"),
    }
}
pub fn spec_dims<B: Buf>(s: &Spec<B>) -> Vec<usize> {
    match s {
        Spec::Raw(b) => b.dims(),
        Spec::Full(s, _) | Spec::Diagonal(s, _) => B::sdims(s),
        _ => panic!("unknown form of Spec"),
    }
}
pub fn kind<B: Buf>(s: &Spec<B>) -> &'static str {
    match s {
        Spec::Raw(_) => "Raw",
        Spec::Full(..) => "Full",
        Spec::Diagonal(..) => "Diagonal",
        _ => "?",
    }
}
/// Any lifted value of the given dimensions: all three forms are explored.
pub fn any_spec<B: Buf>(n: &str, d: &[usize]) -> Spec<B> {
    match engine::choose(3) {
        0 => Spec::Raw(fresh_buf::<B>(n, d)),
        1 => Spec::Full(B::shp(d), B::v(B::V::fresh(n))),
        _ => Spec::Diagonal(B::shp(d), B::v(B::V::fresh(n))),
    }
}
pub fn dense<B: Buf>(s: &Spec<B>) -> B {
    let d = spec_dims(s);
    B::mk(&d, &mut |ix| spec_at(s, ix))
}

// ------------------------------------------------------------------ stub nodes

#[derive(Clone)]
pub struct Stub<B: Buf, A = ()> {
    pub id: &'static str,
    pub res: Result<Spec<B>, StubErr>,
    pub shape: Result<Vec<usize>, StubErr>,
    pub adj: A,
}
impl<B: Buf> Stub<B, ()> {
    pub fn ok(id: &'static str, s: Spec<B>) -> Stub<B, ()> {
        let d = spec_dims(&s);
        Stub { id, res: Ok(s), shape: Ok(d), adj: () }
    }
    pub fn err(id: &'static str, e: u8) -> Stub<B, ()> { Stub { id, res: Err(StubErr(e)), shape: Err(StubErr(e)), adj: () } }
    /// evaluation fails, the shape query succeeds
    pub fn bad(id: &'static str, e: u8, d: &[usize]) -> Stub<B, ()> { Stub { id, res: Err(StubErr(e)), shape: Ok(d.to_vec()), adj: () } }
    /// a failing operand: its shape query may fail with it or may succeed
    pub fn fails(id: &'static str, e: u8, d: &[usize]) -> Stub<B, ()> { if crate::engine::choose(2) == 0 { Stub::err(id, e) } else { Stub::bad(id, e, d) } }
}
impl<B: Buf, A> Stub<B, A> {
    pub fn with<A2>(self, adj: A2) -> Stub<B, A2> { Stub { id: self.id, res: self.res, shape: self.shape, adj } }
    pub fn dense(&self) -> B { dense(self.res.as_ref().unwrap()) }
}
impl<B: Buf, A> Node for Stub<B, A> {}
impl<B: Buf, A, C: Context> Function<C> for Stub<B, A> {
    type Error = StubErr;
    type Value = B;
    fn evaluate<CR: AsMut<C>>(&self, mut ctx: CR) -> Result<B, StubErr> {
        let _ = ctx.as_mut();
        note(self.id, "evaluate");
        self.res.clone().map(|s| dense(&s))
    }
    fn evaluate_spec<CR: AsMut<C>>(&self, mut ctx: CR) -> Result<Spec<B>, StubErr> {
        let _ = ctx.as_mut();
        note(self.id, "evaluate_spec");
        self.res.clone()
    }
    fn evaluate_shape<CR: AsMut<C>>(&self, mut ctx: CR) -> Result<B::Shape, StubErr> {
        let _ = ctx.as_mut();
        note(self.id, "evaluate_shape");
        self.shape.clone().map(|d| B::shp(&d))
    }
}
impl<B: Buf, A: Node + Clone, T: Identifier> Differentiable<T> for Stub<B, A> {
    type Adjoint = A;
    fn adjoint(&self, _: T) -> A { self.adj.clone() }
}

/// A scalar operand with its derivatives of every order that the harness fixed.
#[derive(Clone)]
pub struct Jet<B: Buf> {
    pub ord: usize,
    pub v: Vec<Stub<B>>,
}
impl<B: Buf> Node for Jet<B> {}
impl<B: Buf, C: Context> Function<C> for Jet<B> {
    type Error = StubErr;
    type Value = B;
    fn evaluate<CR: AsMut<C>>(&self, ctx: CR) -> Result<B, StubErr> { self.v[self.ord].evaluate(ctx) }
    fn evaluate_spec<CR: AsMut<C>>(&self, ctx: CR) -> Result<Spec<B>, StubErr> { self.v[self.ord].evaluate_spec(ctx) }
    fn evaluate_shape<CR: AsMut<C>>(&self, ctx: CR) -> Result<B::Shape, StubErr> { self.v[self.ord].evaluate_shape(ctx) }
}
impl<B: Buf, T: Identifier> Differentiable<T> for Jet<B> {
    type Adjoint = Jet<B>;
    fn adjoint(&self, _: T) -> Jet<B> { Jet { ord: self.ord + 1, v: self.v.clone() } }
}

/// An operand that only knows which identifiers it contains.
#[derive(Clone, Copy, Debug)]
pub struct HasIds(pub bool);
impl Node for HasIds {}
impl<T: Identifier> Contains<T> for HasIds {
    fn contains(&self, _: T) -> bool { self.0 }
}
/// the buffer kind's name in reports
pub fn tn<B>() -> &'static str {
    let t = std::any::type_name::<B>();
    if t.starts_with('[') { "array" } else if t.starts_with('(') { "pair" } else if t.contains("Gen<") { "any kind" } else if t.contains("Vec<") { "Vec" } else { "scalar" }
}

/// The kinds without an extent: what is proved on them is not subject to a bound on extents.
pub fn exact_kinds(k: &[&str]) {
    if k.iter().all(|k| matches!(*k, "pair" | "any kind" | "scalar")) { crate::engine::exact() }
}

/// An operand that contains exactly the listed identifiers (by the name of their type).
#[derive(Clone, Copy, Debug)]
pub struct Holds(pub &'static [&'static str]);
impl Node for Holds {}
impl<T: Identifier> Contains<T> for Holds {
    fn contains(&self, t: T) -> bool { self.0.contains(&idname(&t).as_str()) }
}
pub fn idname<I>(_: &I) -> String { std::any::type_name::<I>().rsplit("::").next().unwrap().to_string() }

/// A context that meets the context contract: a keyed store of lifted buffers, which logs its use.
#[derive(Clone, Default)]
pub struct Store<B: Buf>(pub std::collections::BTreeMap<String, Spec<B>>);
impl<B: Buf> Store<B> {
    pub fn new() -> Self { Store(Default::default()) }
    pub fn with<I: Identifier>(mut self, i: I, s: Spec<B>) -> Self {
        self.0.insert(idname(&i), s);
        self
    }
    pub fn get<I: Identifier>(&self, i: I) -> Option<B> { self.0.get(&idname(&i)).map(dense) }
}
impl<B: Buf> AsMut<Store<B>> for Store<B> {
    fn as_mut(&mut self) -> &mut Store<B> { self }
}
impl<B: Buf> Context for Store<B> {}
impl<B: Buf, I: Identifier> aegir::Read<I> for Store<B> {
    type Buffer = B;
    fn read(&self, i: I) -> Option<B> {
        note(&idname(&i), "read");
        self.0.get(&idname(&i)).map(dense)
    }
    fn read_spec(&self, i: I) -> Option<Spec<B>> {
        note(&idname(&i), "read_spec");
        self.0.get(&idname(&i)).cloned()
    }
    fn read_shape(&self, i: I) -> Option<B::Shape> {
        note(&idname(&i), "read_shape");
        self.0.get(&idname(&i)).map(|s| B::shp(&spec_dims(s)))
    }
}
impl<B: Buf, I: Identifier> aegir::Write<I> for Store<B> {
    fn write(&mut self, i: I, v: B) {
        note(&idname(&i), "write");
        self.0.insert(idname(&i), Spec::Raw(v));
    }
}

/// A context of two identifiers whose buffers may be of different kinds; either may be absent.
#[derive(Clone)]
pub struct Two<A: Buf, B: Buf>(pub Option<Spec<A>>, pub Option<Spec<B>>);
impl<A: Buf, B: Buf> AsMut<Two<A, B>> for Two<A, B> {
    fn as_mut(&mut self) -> &mut Two<A, B> { self }
}
impl<A: Buf, B: Buf> Context for Two<A, B> {}
macro_rules! two { ($i:ident, $n:tt, $b:ident) => {
    impl<A: Buf, B: Buf> aegir::Read<aegir::ids::$i> for Two<A, B> {
        type Buffer = $b;
        fn read(&self, _: aegir::ids::$i) -> Option<$b> {
            note(stringify!($i), "read");
            self.$n.as_ref().map(dense)
        }
        fn read_spec(&self, _: aegir::ids::$i) -> Option<Spec<$b>> {
            note(stringify!($i), "read_spec");
            self.$n.clone()
        }
        fn read_shape(&self, _: aegir::ids::$i) -> Option<$b::Shape> {
            note(stringify!($i), "read_shape");
            self.$n.as_ref().map(|s| $b::shp(&spec_dims(s)))
        }
    }
} }
two!(X, 0, A);
two!(Y, 1, B);

// ------------------------------------------------------------------ contract buffers of any rank, for sources

/// Contract shape of rank `D`, seen at two arbitrary different indices (the first one diagonal).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct VShape<const D: usize>;
/// Concatenation of two of them, seen at the four pairs.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WShape<const D: usize>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct VIx<const D: usize>(pub usize);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WIx<const D: usize>(pub usize, pub usize);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct GV<F, const D: usize>(pub [F; 2]);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct GW<F, const D: usize>(pub [[F; 2]; 2]);
pub struct GVs;
pub struct GWs;
impl<const D: usize> Ix for VIx<D> {
    fn is_diagonal(&self) -> bool { D <= 1 || self.0 == 0 }
}
impl<const D: usize> Ix for WIx<D> {
    fn is_diagonal(&self) -> bool { self.0 == self.1 && (D <= 1 || self.0 == 0) }
}
impl<const D: usize> std::fmt::Display for VShape<D> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "V{}", D) }
}
impl<const D: usize> std::fmt::Display for WShape<D> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "W{}", D) }
}
impl<const D: usize> Shape for VShape<D> {
    const DIM: usize = D;
    type Index = VIx<D>;
    type IndexIter = std::vec::IntoIter<VIx<D>>;
    fn contains(&self, i: VIx<D>) -> bool { i.0 < 2 }
    fn cardinality(&self) -> usize { 2 }
    fn indices(&self) -> Self::IndexIter { vec![VIx(0), VIx(1)].into_iter() }
}
impl<const D: usize> Shape for WShape<D> {
    const DIM: usize = D + D;
    type Index = WIx<D>;
    type IndexIter = std::vec::IntoIter<WIx<D>>;
    fn contains(&self, i: WIx<D>) -> bool { i.0 < 2 && i.1 < 2 }
    fn cardinality(&self) -> usize { 4 }
    fn indices(&self) -> Self::IndexIter { vec![WIx(0, 0), WIx(0, 1), WIx(1, 0), WIx(1, 1)].into_iter() }
}
impl<const D: usize> aegir::buffers::shapes::Concat for VShape<D> {
    type Shape = WShape<D>;
    fn concat(self, _: VShape<D>) -> WShape<D> { WShape }
    fn concat_indices(a: VIx<D>, b: VIx<D>) -> WIx<D> { WIx(a.0, b.0) }
}
macro_rules! gsrc { ($b:ident, $c:ident, $s:ident, $x:ident, $r:expr, $w:expr) => {
    impl<const D: usize> Class<$s<D>> for $c {
        type Buffer<F: Scalar> = $b<F, D>;
        fn build<F: Scalar>(_: $s<D>, f: impl Fn($x<D>) -> F) -> $b<F, D> { $w(&mut |i| f(i)) }
        fn build_subset<F: Scalar>(_: $s<D>, base: F, ixs: impl Iterator<Item = $x<D>>, f: impl Fn($x<D>) -> F) -> $b<F, D> {
            let on: Vec<_> = ixs.collect();
            $w(&mut |i| if on.contains(&i) { f(i) } else { base })
        }
    }
    impl<F: Scalar, const D: usize> Shaped for $b<F, D> {
        type Shape = $s<D>;
        fn shape(&self) -> $s<D> { $s }
    }
    impl<F: Scalar, const D: usize> Buffer for $b<F, D> {
        type Class = $c;
        type Field = F;
        fn class() -> $c { $c }
        fn get_unchecked(&self, i: $x<D>) -> F { $r(self, i) }
        fn map<A: Scalar, M: Fn(F) -> A>(self, f: M) -> $b<A, D> { $w(&mut |i| f($r(&self, i))) }
        fn mutate<M: Fn(F) -> F>(&mut self, f: M) {
            let old = *self;
            *self = $w(&mut |i| f($r(&old, i)));
        }
    }
} }
fn gv<F, const D: usize>(f: &mut dyn FnMut(VIx<D>) -> F) -> GV<F, D> { GV([f(VIx(0)), f(VIx(1))]) }
fn gw<F, const D: usize>(f: &mut dyn FnMut(WIx<D>) -> F) -> GW<F, D> { GW([[f(WIx(0, 0)), f(WIx(0, 1))], [f(WIx(1, 0)), f(WIx(1, 1))]]) }
gsrc!(GV, GVs, VShape, VIx, |b: &GV<_, D>, i: VIx<D>| b.0[i.0], gv);
gsrc!(GW, GWs, WShape, WIx, |b: &GW<_, D>, i: WIx<D>| b.0[i.0][i.1], gw);
impl aegir::meta::Precedence<GVs, GVs> for aegir::meta::Prec { type Class = GWs; }
impl<F: Val, const D: usize> Buf for GV<F, D> {
    type V = F;
    fn mk(_: &[usize], f: &mut dyn FnMut(&[usize]) -> F) -> GV<F, D> {
        let a = f(&[0]);
        GV([a, f(&[1])])
    }
    fn at(&self, ix: &[usize]) -> F { self.0[ix[0]] }
    fn dims(&self) -> Vec<usize> { vec![2] }
    fn shp(_: &[usize]) -> VShape<D> { VShape }
    fn sdims(_: &VShape<D>) -> Vec<usize> { vec![2] }
    fn ix(i: &[usize]) -> VIx<D> { VIx(i[0]) }
    fn dg(i: &[usize]) -> bool { VIx::<D>(i[0]).is_diagonal() }
    fn unix(i: VIx<D>) -> Vec<usize> { vec![i.0] }
    fn v(x: F) -> F { x }
    fn unv(x: F) -> F { x }
}
impl<F: Val, const D: usize> Buf for GW<F, D> {
    type V = F;
    fn mk(_: &[usize], f: &mut dyn FnMut(&[usize]) -> F) -> GW<F, D> { gw(&mut |i| f(&[i.0, i.1])) }
    fn at(&self, ix: &[usize]) -> F { self.0[ix[0]][ix[1]] }
    fn dims(&self) -> Vec<usize> { vec![2, 2] }
    fn shp(_: &[usize]) -> WShape<D> { WShape }
    fn sdims(_: &WShape<D>) -> Vec<usize> { vec![2, 2] }
    fn ix(i: &[usize]) -> WIx<D> { WIx(i[0], i[1]) }
    fn dg(i: &[usize]) -> bool { WIx::<D>(i[0], i[1]).is_diagonal() }
    fn unix(i: WIx<D>) -> Vec<usize> { vec![i.0, i.1] }
    fn v(x: F) -> F { x }
    fn unv(x: F) -> F { x }
}

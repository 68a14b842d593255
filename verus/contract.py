"""The contractions of scalars, vectors and matrices: dense and lifted operands, at every size."""


def text():
    o = []
    o.append(r'''
pub mod ring { use super::*;
// an entry: an element of any commutative ring, of which only the value is known (it is carried as a ghost integer; what is shown
// are identities between sums of products, which hold in every commutative ring if they hold for the integers)
#[derive(Copy, Clone)]
pub struct F { pub v: Ghost<int> }
impl F { pub open spec fn val(self) -> int { self.v@ } }
pub open spec fn num(v: int) -> F { F { v: Ghost(v) } }
pub open spec fn sp_add(a: F, b: F) -> F { num(a.val() + b.val()) }
pub open spec fn sp_mul(a: F, b: F) -> F { num(a.val() * b.val()) }
impl vstd::std_specs::ops::AddSpecImpl<F> for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: F) -> bool { true }
    open spec fn add_spec(self, o: F) -> F { sp_add(self, o) }
}
impl vstd::std_specs::ops::MulSpecImpl<F> for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F) -> bool { true }
    open spec fn mul_spec(self, o: F) -> F { sp_mul(self, o) }
}
impl std::ops::Add for F { type Output = F; fn add(self, o: F) -> F { F { v: Ghost(self.v@ + o.v@) } } }
impl std::ops::Mul for F { type Output = F; fn mul(self, o: F) -> F { F { v: Ghost(self.v@ * o.v@) } } }
pub trait Zed {
    fn zero() -> (r: F) ensures r.val() == 0;
    fn one() -> (r: F) ensures r.val() == 1;
    fn from_usize(n: usize) -> (r: Option<F>) ensures r is Some, r->Some_0.val() == n;
}
impl Zed for F {
    fn zero() -> (r: F) { F { v: Ghost(0) } }
    fn one() -> (r: F) { F { v: Ghost(1) } }
    fn from_usize(n: usize) -> (r: Option<F>) { Some(F { v: Ghost(n as int) }) }
}
pub fn v_zero() -> (r: F) ensures r.val() == 0 { F { v: Ghost(0) } }
impl F {
    // num_traits' Zero::is_zero
    #[verifier::external_body]
    pub fn v_is_zero(self) -> (r: bool) ensures r == (self.val() == 0) { unimplemented!() }
}
pub trait Unwrapped { spec fn there(&self) -> bool; spec fn inside(&self) -> F; fn v_unwrap(self) -> (r: F) requires self.there() ensures r == self.inside(); }
impl Unwrapped for Option<F> {
    open spec fn there(&self) -> bool { self is Some }
    open spec fn inside(&self) -> F { self->Some_0 }
    fn v_unwrap(self) -> (r: F) { match self { Some(x) => x, None => unreached() } }
}
// sums of products
pub open spec fn dot(a: Seq<int>, b: Seq<int>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { dot(a, b, n - 1) + a[n - 1] * b[n - 1] } }
pub proof fn run_dot_upto(acc: Seq<F>, a: Seq<int>, b: Seq<int>, n: int)
    requires 0 <= n < acc.len(), forall|k: int| 0 <= k < n ==> (#[trigger] acc[k + 1]).val() == acc[k].val() + a[k] * b[k]
    ensures acc[n].val() == acc[0].val() + dot(a, b, n)
    decreases n
{ if n > 0 { run_dot_upto(acc, a, b, n - 1); assert(acc[n - 1 + 1].val() == acc[n - 1].val() + a[n - 1] * b[n - 1]); } }
// a fold whose steps add a[k] * b[k] ends with the sum of the products
pub broadcast proof fn run_dot(acc: Seq<F>, a: Seq<int>, b: Seq<int>, n: int)
    requires n >= 0, acc.len() == n + 1, #[trigger] ran(acc), forall|k: int| 0 <= k < n ==> acc[k + 1].val() == (#[trigger] acc[k]).val() + a[k] * b[k]
    ensures acc.last().val() == acc[0].val() + #[trigger] dot(a, b, n)
{
    assert forall|k: int| 0 <= k < n implies (#[trigger] acc[k + 1]).val() == acc[k].val() + a[k] * b[k] by { assert(acc[k].val() == acc[k].val()); }
    run_dot_upto(acc, a, b, n);
}
pub broadcast proof fn dot_same(a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] a[k] == c[k], forall|k: int| 0 <= k < n ==> #[trigger] b[k] == d[k]
    ensures #![trigger dot(a, b, n), dot(c, d, n)] dot(a, b, n) == dot(c, d, n)
    decreases n
{ if n > 0 { dot_same(a, b, c, d, n - 1); assert(a[n - 1] == c[n - 1] && b[n - 1] == d[n - 1]); } }
pub proof fn dot_const(a: Seq<int>, b: Seq<int>, n: int, x: int, y: int)
    requires n >= 0, forall|k: int| 0 <= k < n ==> #[trigger] a[k] == x, forall|k: int| 0 <= k < n ==> #[trigger] b[k] == y
    ensures dot(a, b, n) == n * x * y, dot(a, b, n) == n * (x * y), dot(a, b, n) == x * (n * y)
    decreases n
{
    assert(n * x * y == n * (x * y) && n * x * y == x * (n * y)) by (nonlinear_arith);
    if n > 0 {
        dot_const(a, b, n - 1, x, y);
        assert(a[n - 1] == x && b[n - 1] == y);
        assert((n - 1) * x * y + x * y == n * x * y) by (nonlinear_arith);
    } else { assert(n * x * y == 0) by (nonlinear_arith) requires n == 0; }
}
pub broadcast proof fn dot_zero(a: Seq<int>, b: Seq<int>, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] a[k] == 0 || #[trigger] b[k] == 0
    ensures #[trigger] dot(a, b, n) == 0
    decreases n
{ if n > 0 { dot_zero(a, b, n - 1); assert(a[n - 1] == 0 || b[n - 1] == 0); assert(a[n - 1] * b[n - 1] == 0) by (nonlinear_arith) requires a[n - 1] == 0 || b[n - 1] == 0; } }
pub proof fn dot_one(a: Seq<int>, b: Seq<int>, n: int, i: int)
    requires 0 <= i < n, forall|k: int| 0 <= k < n && k != i ==> #[trigger] a[k] == 0 || #[trigger] b[k] == 0
    ensures dot(a, b, n) == a[i] * b[i]
    decreases n
{
    if i == n - 1 { dot_zero(a, b, n - 1); } else {
        dot_one(a, b, n - 1, i);
        assert(a[n - 1] == 0 || b[n - 1] == 0);
        assert(a[n - 1] * b[n - 1] == 0) by (nonlinear_arith) requires a[n - 1] == 0 || b[n - 1] == 0;
    }
}
pub trait ArrayMap<T, const N: usize> {
    spec fn arr(&self) -> [T; N];
    fn v_map<U, G: Fn(T) -> U>(self, g: G) -> (r: [U; N])
        requires forall|k: int| 0 <= k < N ==> call_requires(g, (#[trigger] self.arr()@[k],)),
        ensures forall|k: int| 0 <= k < N ==> call_ensures(g, (self.arr()@[k],), #[trigger] r@[k]);
}
impl<T, const N: usize> ArrayMap<T, N> for [T; N] {
    open spec fn arr(&self) -> [T; N] { *self }
    fn v_map<U, G: Fn(T) -> U>(self, g: G) -> (r: [U; N]) { v_array_map(self, g) }
}
// reading an [F; M] where an [F; N] with N = M is stored gives the same entries
#[verifier::external_body]
pub fn v_reread<const N: usize, const M: usize>(y: [F; N]) -> (r: [F; M]) requires N == M ensures r@ == y@ { unimplemented!() }
}
pub mod spec { use super::*; use super::ring::{F, Zed, v_zero};
// buffers, their shapes and classes, as far as Spec::unwrap and Spec::zeroes ask for them
pub trait Class<S: Copy> {
    type Out;
    spec fn homog(b: Self::Out, x: F) -> bool;
    spec fn diag(b: Self::Out, x: F) -> bool;
    fn full(s: S, x: F) -> (r: Self::Out) ensures Self::homog(r, x);
    fn diagonal(s: S, x: F) -> (r: Self::Out) ensures Self::diag(r, x);
}
pub trait Buf: Sized { type Shape: Copy; type Field: Zed; type Class: Class<Self::Shape, Out = Self>; }
pub enum Spec<B: Buf> { Raw(B), Full(B::Shape, F), Diagonal(B::Shape, F) }
impl<B: Buf> Spec<B> {
//@prop C09
//@fn Spec<G1>::unwrap | F B | | self
    pub fn v_unwrap(self) -> (r: B)
        ensures match self { Spec::Raw(b) => r == b, Spec::Full(_, x) => B::Class::homog(r, x), Spec::Diagonal(_, x) => B::Class::diag(r, x) }
//@end
//@fn Spec<G1>::zeroes | F B | | shape
    pub fn zeroes(shape: B::Shape) -> (r: Self)
        ensures match r { Spec::Full(s, x) => s == shape && x.val() == 0, _ => false }
//@end
}
pub trait Ix { spec fn diag(&self) -> bool; fn is_diagonal(&self) -> (r: bool) ensures r == self.diag(); }
pub trait HasIx { type Index; }
impl HasIx for S0 { type Index = (); }
impl<const D1: usize> HasIx for S1<D1> { type Index = usize; }
impl<const D1: usize, const D2: usize> HasIx for S2<D1, D2> { type Index = [usize; 2]; }
impl Ix for () {
    open spec fn diag(&self) -> bool { true }
//@fn Ix for ()::is_diagonal | | | self
    fn is_diagonal(&self) -> (r: bool)
//@end
}
impl Ix for usize {
    open spec fn diag(&self) -> bool { true }
//@fn Ix for usize::is_diagonal | | | self
    fn is_diagonal(&self) -> (r: bool)
//@end
}
impl Ix for [usize; 2] {
    open spec fn diag(&self) -> bool { self@[0] == self@[1] }
//@fn Ix for [usize;G0]::is_diagonal | DIM | | self
    fn is_diagonal(&self) -> (r: bool)
//@names
DIM=2
//@pre
    let ghost xs = refs(self@);
//@post
    proof { assert(xs.drop_first().len() == 1); assert(xs.drop_first()[0] == xs[1]); }
//@end
}
impl Buf for F { type Shape = S0; type Field = F; type Class = K0; }
impl<const N: usize> Buf for [F; N] { type Shape = S1<N>; type Field = F; type Class = K1<N>; }
impl<const N: usize, const M: usize> Buf for [[F; M]; N] { type Shape = S2<N, M>; type Field = F; type Class = K2<N, M>; }
// one class per kind: Scalars and Arrays of /repo, which are one type each
pub struct K0; pub struct K1<const N: usize>; pub struct K2<const N: usize, const M: usize>;
impl K1<0> {}
impl Class<S0> for K0 {
    type Out = F;
    open spec fn homog(b: F, x: F) -> bool { b == x }
    open spec fn diag(b: F, x: F) -> bool { b == x }
    // (the implementations for the concrete scalar types are under contract in scalars.rs)
    fn full(s: S0, x: F) -> (r: F) { x }
    fn diagonal(s: S0, x: F) -> (r: F) { x }
}
''')
    for r, (cd, cs, me, at, all_, ix) in {
        1: ("N", "const N: usize", "[F; N]", "b@[i]", ("i: int", "0 <= i < N"), "usize"),
        2: ("N, M", "const N: usize, const M: usize", "[[F; M]; N]", "b@[i]@[j]", ("i: int, j: int", "0 <= i < N && 0 <= j < M"), "[usize; 2]"),
    }.items():
        o.append("""impl<%s> K%d<%s> {
    fn build<G: Fn(%s) -> F>(shape: S%d<%s>, f: G) -> (b: %s)
        requires forall|ix: %s| %s ==> #[trigger] call_requires(f, (ix,))
        ensures %s
    { super::a%d::Arrays::build(shape, f) }
}
impl<%s> Class<S%d<%s>> for K%d<%s> {
    type Out = %s;
    open spec fn homog(b: %s, x: F) -> bool { forall|%s| %s ==> #[trigger] %s == x }
    open spec fn diag(b: %s, x: F) -> bool { forall|%s| %s ==> (#[trigger] %s).val() == %s }
    fn full(s: S%d<%s>, x: F) -> (r: %s) { super::a%d::Arrays::full(s, x) }
//@fn trait Class::diagonal | S | F | shape value
    fn diagonal(shape: S%d<%s>, value: F) -> (r: %s)
//@names
S=<S%d<%s>~as~HasIx>
//@closure-ret 0
F
//@closure 0
        ensures ret.val() == (if %s { value.val() } else { 0 }),
//@post
    proof { %s }
//@end
}""" % (cs, r, cd, ix, r, cd, me, ix,
        "ix < N" if r == 1 else "ix@[0] < N && ix@[1] < M",
        "forall|i: usize| i < N ==> call_ensures(f, (i,), #[trigger] b@[i as int])" if r == 1 else "forall|i: usize, j: usize| i < N && j < M ==> call_ensures(f, ([i, j],), #[trigger] b@[i as int]@[j as int])",
        r, cs, r, cd, r, cd, me, me, all_[0], all_[1], at, me, all_[0], all_[1], at, "x.val()" if r == 1 else "(if i == j { x.val() } else { 0 })",
        r, cd, me, r, r, cd, me, r, cd.replace(", ", ",~"),
        "true" if r == 1 else "ijk@[0] == ijk@[1]",
        "assert forall|%s| %s implies (#[trigger] %s).val() == %s by { let b = __r; assert(%s.val() == %s); }" % (
            all_[0], all_[1], at.replace("b@", "__r@"), "value.val()" if r == 1 else "(if i == j { value.val() } else { 0 })",
            "b@[(i as usize) as int]" if r == 1 else "b@[(i as usize) as int]@[(j as usize) as int]", "value.val()" if r == 1 else "(if i == j { value.val() } else { 0 })")))
    o.append(r'''
// the entry of a lifted operand at an index
pub open spec fn at0(x: Spec<F>) -> int { match x { Spec::Raw(b) => b.val(), Spec::Full(_, x) => x.val(), Spec::Diagonal(_, x) => x.val() } }
pub open spec fn at1<const N: usize>(x: Spec<[F; N]>, i: int) -> int { match x { Spec::Raw(b) => b@[i].val(), Spec::Full(_, x) => x.val(), Spec::Diagonal(_, x) => x.val() } }
pub open spec fn at2<const N: usize, const M: usize>(x: Spec<[[F; M]; N]>, i: int, j: int) -> int { match x { Spec::Raw(b) => b@[i]@[j].val(), Spec::Full(_, x) => x.val(), Spec::Diagonal(_, x) => if i == j { x.val() } else { 0 } } }
pub open spec fn vec<const N: usize>(x: Spec<[F; N]>) -> Seq<int> { Seq::new(N as nat, |k: int| at1(x, k)) }
pub open spec fn row<const N: usize, const M: usize>(x: Spec<[[F; M]; N]>, i: int) -> Seq<int> { Seq::new(M as nat, |k: int| at2(x, i, k)) }
pub open spec fn col<const N: usize, const M: usize>(x: Spec<[[F; M]; N]>, j: int) -> Seq<int> { Seq::new(N as nat, |k: int| at2(x, k, j)) }
}''')
    kinds = ["F", "[F; N]", "[[F; M]; N]"]
    S = ["S0", "S1", "S2"]
    # per axes: the trait
    for ax in (0, 1):
        o.append("""pub mod k%d { use super::*; use super::ring::{F, Zed, Unwrapped, ArrayMap, v_zero, v_reread, sp_add, sp_mul, dot, dot_const, dot_zero, dot_one}; use super::spec::{Spec, Buf, Class, at0, at1, at2, vec, row, col}; use super::r1::{B1, BZ1};
broadcast use vstd::arithmetic::mul::lemma_mul_is_commutative, super::ring::run_dot, super::ring::dot_same;
pub trait Contract<Y: Buf>: Buf {
    type Output: Buf;
    spec fn sized() -> bool;
    fn contract(self, y: Y) -> (r: Result<Self::Output, IncompatibleShapes<Self::Shape, Y::Shape>>) requires Self::sized();
    fn contract_spec(x: Spec<Self>, y: Spec<Y>) -> (r: Result<Spec<Self::Output>, IncompatibleShapes<Self::Shape, Y::Shape>>) requires Self::sized();
}""" % ax)
        o += axes(ax)
        o.append("}")
    return "\n".join(o)


def axes(ax):
    o = []
    V, M, ty = "[F; N]", "[[F; M]; N]", {"F": 0}
    def impl(key, gens, x, y, out, post, pairs, sized="true", parts=None, cparts=None, loops=()):
        """post(a, b, r): the ensures clause for operands a, b and result r, all lifted"""
        parts, cparts = parts or "", cparts or ""
        g = "<%s>" % ", ".join("const %s: usize" % q for q in gens) if gens else ""
        gg = "F " + " ".join(gens)
        o.append("impl%s Contract<%s> for %s {\n    type Output = %s;\n    open spec fn sized() -> bool { %s }" % (g, y, x, out, sized))
        o.append("//@fn %s::contract | %s | | this y" % (key, gg))
        o.append("    fn contract(self, y: %s) -> (r: Result<%s, IncompatibleShapes<<%s as Buf>::Shape, <%s as Buf>::Shape>>)\n        ensures r is Ok,\n            %s" % (y, out, x, y, post("Spec::<%s>::Raw(self)" % x, "Spec::<%s>::Raw(y)" % y, "Spec::<%s>::Raw(r->Ok_0)" % out)))
        o.append(cparts + "//@end")
        o.append("//@fn %s::contract_spec | %s | | x y" % (key, gg))
        o.append("    fn contract_spec(x: Spec<%s>, y: Spec<%s>) -> (r: Result<Spec<%s>, IncompatibleShapes<<%s as Buf>::Shape, <%s as Buf>::Shape>>)\n        ensures r is Ok,\n            %s" % (x, y, out, x, y, post("x", "y", "r->Ok_0")))
        o.append(parts + "//@end")
        o.append("}\npub struct Shape%d;\nimpl Shape%d {" % (len(o), len(o)))
        o.append("//@fn %s::contract_shape | %s | | x y" % (key, gg))
        o.append("    pub fn contract_shape%s(x: <%s as Buf>::Shape, y: <%s as Buf>::Shape) -> (r: Result<<%s as Buf>::Shape, IncompatibleShapes<<%s as Buf>::Shape, <%s as Buf>::Shape>>)\n        ensures r is Ok\n//@end" % (g, x, y, out, x, y))
        o.append("}")
    v1 = lambda r, e: "forall|i: int| 0 <= i < %s ==> #[trigger] at1(%s, i) == %s" % (r[1], r[0], e)
    def loop1(n, var, term):
        return "//@loop 0\n        invariant\n            forall|h: int| 0 <= h < $i ==> #[trigger] %s@[h].val() == %s,\n            forall|h: int| $i <= h < %s ==> #[trigger] %s@[h] == %s@[h],\n" % (var, term("h"), n, var, "self" if var == "this" else "y0")
    if ax == 0:
        impl("Contract<G0,0> for G0", [], "F", "F", "F", lambda a, b, r: "at0(%s) == at0(%s) * at0(%s)" % (r, a, b), 0)
        for left in (True, False):
            var, oth, old = ("this", "y", "self") if left else ("y", "this", "y0")
            pre = "" if left else "//@pre\n    let ghost y0 = y;\n"
            term = (lambda e: "%s.val() * y.val()" % e) if left else (lambda e: "self.val() * %s.val()" % e)
            vec_ = lambda a, b, r: "forall|i: int| 0 <= i < N ==> #[trigger] at1(%s, i) == %s" % (r, ("at1(%s, i) * at0(%s)" if left else "at0(%s) * at1(%s, i)") % (a, b))
            mat_ = lambda a, b, r: "forall|i: int, j: int| 0 <= i < N && 0 <= j < M ==> #[trigger] at2(%s, i, j) == %s" % (r, ("at2(%s, i, j) * at0(%s)" if left else "at0(%s) * at2(%s, i, j)") % (a, b))
            impl("Contract<G0,0> for [G0;G1]" if left else "Contract<[G0;G1],0> for G0", ["N"], V if left else "F", "F" if left else V, V, vec_, 0,
                 cparts=pre + "//@loop 0\n        invariant\n            forall|h: int| 0 <= h < $i ==> (#[trigger] %s@[h]).val() == %s,\n            forall|h: int| $i <= h < N ==> #[trigger] %s@[h] == %s@[h],\n" % (var, term("%s@[h]" % old), var, old))
            impl("Contract<G0,0> for [[G0;G2];G1]" if left else "Contract<[[G0;G2];G1],0> for G0", ["N", "M"], M if left else "F", "F" if left else M, M, mat_, 0,
                 cparts=pre + "//@loop 0\n        invariant\n            forall|h: int, l: int| 0 <= h < $i && 0 <= l < M ==> (#[trigger] %s@[h]@[l]).val() == %s,\n            forall|h: int| $i <= h < N ==> #[trigger] %s@[h] == %s@[h],\n//@loop-pre 0\n            let ghost i0 = $i;\n" % (var, term("%s@[h]@[l]" % old), var, old)
                 + "//@loop 1\n        invariant\n            i0 < N,\n            forall|h: int, l: int| 0 <= h < i0 && 0 <= l < M ==> (#[trigger] %s@[h]@[l]).val() == %s,\n            forall|h: int| i0 < h < N ==> #[trigger] %s@[h] == %s@[h],\n            forall|l: int| 0 <= l < $i ==> (#[trigger] %s@[i0 as int]@[l]).val() == %s,\n            forall|l: int| $i <= l < M ==> #[trigger] %s@[i0 as int]@[l] == %s@[i0 as int]@[l],\n" % (
                     var, term("%s@[h]@[l]" % old), var, old, var, term("%s@[i0 as int]@[l]" % old), var, old))
        impl("Contract<[G0;G2],0> for [G0;G1]", ["N", "M"], V, "[F; M]", M,
             lambda a, b, r: "forall|i: int, j: int| 0 <= i < N && 0 <= j < M ==> #[trigger] at2(%s, i, j) == at1(%s, i) * at1(%s, j)" % (r, a, b), 0,
             cparts="//@closure-ret 0\n[F; M]\n//@closure 0\n        ensures forall|j: int| 0 <= j < M ==> #[trigger] ret@[j] == sp_mul(x_i, y@[j]),\n//@closure-ret 1\nF\n",
             parts="//@closure-ret 0\n[F; M]\n//@closure 0\n        ensures forall|j: int| 0 <= j < M ==> #[trigger] ret@[j] == sp_mul(fx, y@[j]),\n//@closure-ret 1\nF\n//@closure-ret 2\n[F; M]\n//@closure 2\n        ensures forall|j: int| 0 <= j < M ==> #[trigger] ret@[j] == sp_mul(x_i, fy),\n//@closure-ret 3\nF\n")
        return o
    impl("Contract<G0,1> for G0", [], "F", "F", "F", lambda a, b, r: "at0(%s) == at0(%s) * at0(%s)" % (r, a, b), 0)
    full = "(Spec::Full(_, fx), Spec::Full(_, fy)) => { %s }"
    impl("Contract<[G0;G1],1> for [G0;G1]", ["N"], V, V, "F", lambda a, b, r: "at0(%s) == dot(vec(%s), vec(%s), N as int)" % (r, a, b), 0,
         parts="//@pre\n    proof { match x { Spec::Full(_, fx) => { match y { Spec::Full(_, fy) => { dot_const(vec(x), vec(y), N as int, fx.val(), fy.val()); } _ => {} } } _ => {} } }\n//@closure-ret 0\nF\n//@closure-ret 1\nF\n//@closure-ret 2\nF\n",
         cparts="//@closure-ret 0\nF\n")
    diag = "assert forall|i: int| 0 <= i < N implies #[trigger] dot(%s, N as int) == %s by { dot_one(%s, N as int, i); }"
    impl("Contract<[G0;G1],1> for [[G0;G2];G1]", ["N", "M"], M, V, "[F; M]", lambda a, b, r: "forall|i: int| 0 <= i < M ==> #[trigger] at1(%s, i) == dot(row(%s, i), vec(%s), N as int)" % (r, a, b), 0,
         sized="N == M",
         parts="//@pre\n    proof { match x { Spec::Full(_, fx) => { if fx.val() == 0 { assert forall|i: int| #[trigger] dot(row(x, i), vec(y), N as int) == 0 by { dot_zero(row(x, i), vec(y), N as int); } } } Spec::Diagonal(_, fx) => { %s } _ => {} } }\n//@closure-ret 0\nF\n" % (diag % ("row(x, i), vec(y)", "fx.val() * at1(y, i)", "row(x, i), vec(y)")),
         cparts="//@closure-ret 0\nF\n//@closure 0\n        requires i < M,\n        ensures ret.val() == dot(row(Spec::<[[F; M]; N]>::Raw(self), i as int), vec(Spec::<[F; N]>::Raw(y)), N as int),\n//@closure-ret 1\nF\n//@closure 1\n        requires k < M, ensures is(ret, sp_add(acc, sp_mul(this@[i as int]@[k as int], y@[k as int]))),\n")
    impl("Contract<[[G0;G2];G1],1> for [G0;G1]", ["N", "M"], V, M, "[F; M]", lambda a, b, r: "forall|j: int| 0 <= j < M ==> #[trigger] at1(%s, j) == dot(vec(%s), col(%s, j), N as int)" % (r, a, b), 0,
         parts="//@pre\n    proof { match y { Spec::Full(_, fy) => { if fy.val() == 0 { assert forall|j: int| #[trigger] dot(vec(x), col(y, j), N as int) == 0 by { dot_zero(vec(x), col(y, j), N as int); } } } Spec::Diagonal(_, fy) => { %s } _ => {} } }\n//@closure-ret 0\nF\n" % (diag % ("vec(x), col(y, i)", "at1(x, i) * fy.val()", "vec(x), col(y, i)")),
         cparts="//@closure-ret 0\nF\n//@closure 0\n        requires i < M,\n        ensures ret.val() == dot(vec(Spec::<[F; N]>::Raw(self)), col(Spec::<[[F; M]; N]>::Raw(y), i as int), N as int),\n//@closure-ret 1\nF\n//@closure 1\n        requires k < N, ensures is(ret, sp_add(acc, sp_mul(this@[k as int], y@[k as int]@[i as int]))),\n")
    Z = "[[F; Z]; N]"
    Y = "[[F; M]; Z]"
    impl("Contract<[[G0;G2];G3],1> for [[G0;G3];G1]", ["N", "M", "Z"], Z, Y, M, lambda a, b, r: "forall|i: int, j: int| 0 <= i < N && 0 <= j < M ==> #[trigger] at2(%s, i, j) == dot(row(%s, i), col(%s, j), Z as int)" % (r, a, b), 0,
         parts="//@pre\n    proof { match x { Spec::Full(_, fx) => { match y { Spec::Full(_, fy) => { assert forall|i: int, j: int| (#[trigger] dot(row(x, i), col(y, j), Z as int)) == Z * fx.val() * fy.val() && dot(row(x, i), col(y, j), Z as int) == Z * (fx.val() * fy.val()) && dot(row(x, i), col(y, j), Z as int) == fx.val() * (Z * fy.val()) by { dot_const(row(x, i), col(y, j), Z as int, fx.val(), fy.val()); } } _ => {} } } Spec::Diagonal(_, fx) => { match y { Spec::Diagonal(_, fy) => { if N == Z && M == N { assert forall|i: int, j: int| 0 <= i < N && 0 <= j < M implies #[trigger] dot(row(x, i), col(y, j), Z as int) == (if i == j { fx.val() * fy.val() } else { 0 }) by { if i == j { dot_one(row(x, i), col(y, j), Z as int, i); } else { dot_zero(row(x, i), col(y, j), Z as int); } } } } _ => {} } } _ => {} } }\n",
         cparts="//@closure-ret 0\n[F; M]\n//@closure 0\n        requires i < N,\n        ensures forall|j: int| 0 <= j < M ==> #[trigger] ret@[j].val() == dot(row(Spec::<[[F; Z]; N]>::Raw(self), i as int), col(Spec::<[[F; M]; Z]>::Raw(y), j), Z as int),\n//@closure-ret 1\nF\n//@closure 1\n        requires i < N && j < M,\n        ensures ret.val() == dot(row(Spec::<[[F; Z]; N]>::Raw(self), i as int), col(Spec::<[[F; M]; Z]>::Raw(y), j as int), Z as int),\n//@closure-ret 2\nF\n//@closure 2\n        requires z < Z, ensures is(ret, sp_add(acc, sp_mul(this@[i as int]@[z as int], y@[z as int]@[j as int]))),\n")
    return o

// Contracts of /repo's Vec buffers (buffers/vecs.rs), for every length.
verus! {
pub struct S0;
#[derive(Copy, Clone)]
pub struct SDynamic<const DIM: usize>(pub [usize; DIM]);
pub struct IncompatibleShapes<L, R = L> { pub left: L, pub right: R }
// std's derive(PartialEq) on SDynamic
impl<const DIM: usize> PartialEq for SDynamic<DIM> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<const DIM: usize> vstd::std_specs::cmp::PartialEqSpecImpl for SDynamic<DIM> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { forall|k: int| 0 <= k < DIM ==> #[trigger] self.0@[k] == o.0@[k] }
}
impl<const DIM: usize> vstd::std_specs::core::IndexSpecImpl<usize> for SDynamic<DIM> {
    open spec fn index_req(&self, idx: &usize) -> bool { *idx < DIM }
}
impl<const DIM: usize> std::ops::Index<usize> for SDynamic<DIM> {
    type Output = usize;
    //@fn Index<usize> for SDynamic<G0>::index | DIM | | self idx
    fn index(&self, idx: usize) -> (r: &usize)
        ensures *r == self.0@[idx as int]
    //@end
}
//@prop C07
pub trait Shaped { 
    spec fn dims(&self) -> int;
    fn shape(&self) -> (r: SDynamic<1>) ensures r.0@[0] == self.dims();
}
impl<F> Shaped for Vec<F> {
    open spec fn dims(&self) -> int { self@.len() as int }
    //@fn Shaped for Vec<G0>::shape | F | | self
    fn shape(&self) -> (r: SDynamic<1>)
    //@end
}
pub struct Vecs;
impl Vecs {
    //@fn Class<SDynamic<1>> for Vecs::build | | F | shape f
    pub fn build<F: Copy, G: Fn([usize; 1]) -> F>(shape: SDynamic<1>, f: G) -> (r: Vec<F>)
        requires forall|k: [usize; 1]| k@[0] < shape.0@[0] ==> #[trigger] call_requires(f, (k,)),
        ensures r@.len() == shape.0@[0], forall|k: usize| k < shape.0@[0] ==> call_ensures(f, ([k],), #[trigger] r@[k as int]),
    //@end
    //@fn Class<SDynamic<1>> for Vecs::build_subset | | F | shape base indices active
    pub fn build_subset<F: Copy, G: Fn([usize; 1]) -> F>(shape: SDynamic<1>, base: F, indices: It<[usize; 1]>, active: G) -> (r: Vec<F>)
        requires
            forall|k: int| 0 <= k < indices@.len() ==> (#[trigger] indices@[k])@[0] < shape.0@[0],
            forall|k: [usize; 1]| k@[0] < shape.0@[0] ==> #[trigger] call_requires(active, (k,)),
        ensures
            r@.len() == shape.0@[0],
            forall|j: usize| j < shape.0@[0] && (forall|k: int| 0 <= k < indices@.len() ==> (#[trigger] indices@[k])@[0] != j) ==> #[trigger] r@[j as int] == base,
            forall|j: usize| j < shape.0@[0] && (exists|k: int| 0 <= k < indices@.len() && (#[trigger] indices@[k])@[0] == j) ==> call_ensures(active, ([j],), #[trigger] r@[j as int]),
    //@loop 0
        invariant
            $it@ == indices@, buf@.len() == shape.0@[0],
            forall|k: int| 0 <= k < indices@.len() ==> (#[trigger] indices@[k])@[0] < shape.0@[0],
            forall|k: [usize; 1]| k@[0] < shape.0@[0] ==> #[trigger] call_requires(active, (k,)),
            forall|j: usize| j < shape.0@[0] && (forall|k: int| 0 <= k < $i ==> (#[trigger] indices@[k])@[0] != j) ==> #[trigger] buf@[j as int] == base,
            forall|j: usize| j < shape.0@[0] && (exists|k: int| 0 <= k < $i && (#[trigger] indices@[k])@[0] == j) ==> call_ensures(active, ([j],), #[trigger] buf@[j as int]),
    //@end
    //@fn Class<SDynamic<1>> for Vecs::full | | F | shape value
    pub fn full<F: Copy>(shape: SDynamic<1>, value: F) -> (r: Vec<F>)
        ensures r@.len() == shape.0@[0], forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == value,
    //@end
}
//@fn Buffer for Vec<G0>::get_unchecked | F | | this ix
pub fn get_unchecked<F: Copy>(this: &Vec<F>, ix: [usize; 1]) -> (r: F)
    requires ix@[0] < this@.len(),
    ensures r == this@[ix@[0] as int],
//@end
//@fn Buffer for Vec<G0>::map | F | A M | this f
pub fn map<F: Copy, A, M: Fn(F) -> A>(this: Vec<F>, f: M) -> (r: Vec<A>)
    requires forall|k: int| 0 <= k < this@.len() ==> call_requires(f, (#[trigger] this@[k],)),
    ensures r@.len() == this@.len(), forall|k: int| 0 <= k < r@.len() ==> call_ensures(f, (this@[k],), #[trigger] r@[k]),
//@end
//@fn Buffer for Vec<G0>::map_ref | F | A M | this f
pub fn map_ref<F: Copy, A, M: Fn(F) -> A>(this: &Vec<F>, f: M) -> (r: Vec<A>)
    requires forall|k: int| 0 <= k < this@.len() ==> call_requires(f, (#[trigger] this@[k],)),
    ensures r@.len() == this@.len(), forall|k: int| 0 <= k < r@.len() ==> call_ensures(f, (this@[k],), #[trigger] r@[k]),
//@end
//@fn Buffer for Vec<G0>::mutate | F | M | this f
pub fn mutate<F: Copy, M: Fn(F) -> F>(this: &mut Vec<F>, f: M)
    requires forall|k: int| 0 <= k < old(this)@.len() ==> call_requires(f, (#[trigger] old(this)@[k],)),
    ensures final(this)@.len() == old(this)@.len(), forall|k: int| 0 <= k < final(this)@.len() ==> call_ensures(f, (old(this)@[k],), #[trigger] final(this)@[k]),
//@pre
    let ghost o = this@;
//@loop 0
        invariant
            this@.len() == o.len(),
            forall|k: int| 0 <= k < o.len() ==> call_requires(f, (#[trigger] o[k],)),
            forall|k: int| $i <= k < o.len() ==> #[trigger] this@[k] == o[k],
            forall|k: int| 0 <= k < $i ==> call_ensures(f, (o[k],), #[trigger] this@[k]),
//@end
//@fn Buffer for Vec<G0>::fold | F | A M | this init f
pub fn fold<F: Copy, A, M: Fn(A, F) -> A>(this: &Vec<F>, init: A, f: M) -> (r: A)
    requires forall|a: A, k: int| 0 <= k < this@.len() ==> #[trigger] call_requires(f, (a, this@[k])),
    ensures is_fold(f, init, this@, r),
//@end
//@prop C08
pub open spec fn pairs<F>(x: Seq<F>, y: Seq<F>) -> Seq<(F, F)> { Seq::new(x.len(), |k: int| (x[k], y[k])) }
//@fn ZipFold for Vec<G0>::zip_fold | F | A M | this rhs init f
pub fn zip_fold<F: Copy, A, M: Fn(A, (F, F)) -> A>(this: &Vec<F>, rhs: &Vec<F>, init: A, f: M) -> (r: Result<A, IncompatibleShapes<SDynamic<1>>>)
    requires forall|a: A, k: int| 0 <= k < this@.len() && k < rhs@.len() ==> #[trigger] call_requires(f, (a, (this@[k], rhs@[k]))),
    ensures
        r is Ok <==> this@.len() == rhs@.len(),
        r is Ok ==> is_fold(f, init, pairs(this@, rhs@), r->Ok_0),
        r is Err ==> r->Err_0.left.0@[0] == this@.len() && r->Err_0.right.0@[0] == rhs@.len(),
//@pre
    let ghost init0 = init;
    let ghost ps = pairs(this@, rhs@);
    proof { is_fold_nil(f, init0, ps.take(0)); }
//@loop 0
        invariant
            this@.len() == rhs@.len(), ps == pairs(this@, rhs@), nx == this@.len(),
            forall|a: A, k: int| 0 <= k < this@.len() && k < rhs@.len() ==> #[trigger] call_requires(f, (a, (this@[k], rhs@[k]))),
            is_fold(f, init0, ps.take($i as int), init),
//@loop-pre 0
            let ghost m = init;
//@loop-post 0
            proof { is_fold_step(f, init0, ps.take($i as int), m, ps[$i as int], init); assert(ps.take($i as int).push(ps[$i as int]) =~= ps.take($i + 1)); }
//@loop-after 0
            assert(ps.take(nx as int) =~= ps);
//@end
//@fn ZipMap for Vec<G0>::zip_map | F | A M | this rhs f
pub fn zip_map<F: Copy, A, M: Fn(F, F) -> A>(this: Vec<F>, rhs: &Vec<F>, f: M) -> (r: Result<Vec<A>, IncompatibleShapes<SDynamic<1>>>)
    requires forall|k: int| 0 <= k < this@.len() && k < rhs@.len() ==> #[trigger] call_requires(f, (this@[k], rhs@[k])),
    ensures
        r is Ok <==> this@.len() == rhs@.len(),
        r is Ok ==> r->Ok_0@.len() == this@.len() && forall|k: int| 0 <= k < this@.len() ==> call_ensures(f, (this@[k], rhs@[k]), #[trigger] r->Ok_0@[k]),
        r is Err ==> r->Err_0.left.0@[0] == this@.len() && r->Err_0.right.0@[0] == rhs@.len(),
//@end
//@fn ZipMap for Vec<G0>::zip_shape | F | | this rshape
pub fn zip_shape<F: Copy>(this: Vec<F>, rshape: SDynamic<1>) -> (r: Result<Vec<F>, IncompatibleShapes<SDynamic<1>>>)
    ensures
        r is Ok <==> this@.len() == rshape.0@[0],
        r is Ok ==> r->Ok_0@ == this@,
        r is Err ==> r->Err_0.left.0@[0] == this@.len() && r->Err_0.right.0@[0] == rshape.0@[0],
//@end
//@fn ZipMap<G0> for Vec<G0>::zip_map | F | A M | this rhs f
pub fn zip_map_scalar<F: Copy, A, M: Fn(F, F) -> A>(this: Vec<F>, rhs: &F, f: M) -> (r: Result<Vec<A>, IncompatibleShapes<SDynamic<1>, S0>>)
    requires forall|k: int| 0 <= k < this@.len() ==> call_requires(f, (#[trigger] this@[k], *rhs)),
    ensures r is Ok, r->Ok_0@.len() == this@.len(), forall|k: int| 0 <= k < this@.len() ==> call_ensures(f, (this@[k], *rhs), #[trigger] r->Ok_0@[k]),
//@end
//@fn ZipMap<G0> for Vec<G0>::zip_shape | F | | this _
pub fn zip_shape_scalar<F: Copy>(this: Vec<F>, _s: S0) -> (r: Result<Vec<F>, IncompatibleShapes<SDynamic<1>, S0>>)
    ensures r is Ok, r->Ok_0@ == this@,
//@end
//@fn ZipMap<Vec<G0>> for G0::zip_map | F | A M | this rhs f
pub fn scalar_zip_map<F: Copy, A, M: Fn(F, F) -> A>(this: F, rhs: &Vec<F>, f: M) -> (r: Result<Vec<A>, IncompatibleShapes<S0, SDynamic<1>>>)
    requires forall|k: int| 0 <= k < rhs@.len() ==> call_requires(f, (this, #[trigger] rhs@[k])),
    ensures r is Ok, r->Ok_0@.len() == rhs@.len(), forall|k: int| 0 <= k < rhs@.len() ==> call_ensures(f, (this, rhs@[k]), #[trigger] r->Ok_0@[k]),
//@end
//@fn ZipMap<Vec<G0>> for G0::zip_shape | F | | this rshape
pub fn scalar_zip_shape<F: Copy>(this: F, rshape: SDynamic<1>) -> (r: Result<Vec<F>, IncompatibleShapes<S0, SDynamic<1>>>)
    ensures r is Ok, r->Ok_0@.len() == rshape.0@[0], forall|k: int| 0 <= k < rshape.0@[0] ==> #[trigger] r->Ok_0@[k] == this,
//@end
} // verus!

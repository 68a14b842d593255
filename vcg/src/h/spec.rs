// Contracts of the lifted representation itself: every operation on a Spec denotes the same
// operation on the dense buffer it stands for.
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::buffers::{shapes::Broadcast, Buffer, Class, IntoSpec, Spec, ZipMap};

fn entries<B: Buf<V = S>>(label: &str, b: &B, d: &[usize], f: &dyn Fn(&[usize]) -> S) {
    check(&format!("{}: shape", label), b.dims() == d, || format!("has {:?}, should have {:?}", b.dims(), d));
    if b.dims() == d {
        for ix in B::ixs(d) {
            prove(&format!("{}: every entry", label), b.at(&ix).same(f(&ix)));
        }
    }
}
fn lifted<B: Buf<V = S>>(label: &str, s: &Spec<B>, d: &[usize], f: &dyn Fn(&[usize]) -> S) {
    check(&format!("{}: shape", label), spec_dims(s) == d, || format!("has {:?}, should have {:?}", spec_dims(s), d));
    if spec_dims(s) == d {
        for ix in B::ixs(d) {
            prove(&format!("{}: every entry", label), spec_at(s, &ix).same(f(&ix)));
        }
    }
}
fn m(x: S) -> S { S::fresh("a") * x + S::fresh("c") * x * x + S::fresh("k") }
fn g(x: S, y: S) -> S { S::fresh("a") * x + S::fresh("b") * y + S::fresh("c") * x * y + S::fresh("k") }

fn one<B>(d: &[usize])
where
    B: Buf<V = S, Field = S>,
    B::Class: Class<B::Shape, Buffer<S> = B>,
{
    let s = any_spec::<B>("x", d);
    let t = s.clone();
    let k = tn::<B>();
    fun(&format!("Spec::unwrap ({})", k));
    entries("unwrap", &real(|| s.clone().unwrap()), d, &|i| spec_at(&t, i));
    fun(&format!("Spec::shape ({})", k));
    let sh = real(|| aegir::buffers::shapes::Shaped::shape(&s));
    check("shape", B::sdims(&sh) == d, || format!("{:?} instead of {:?}", B::sdims(&sh), d));
    fun(&format!("Spec::into_spec ({})", k));
    lifted("into_spec of a lifted value", &real(|| IntoSpec::into_spec(s.clone())), d, &|i| spec_at(&t, i));
    fun(&format!("Spec::map ({})", k));
    lifted("map", &real(|| s.map(m)), d, &|i| m(spec_at(&t, i)));
}
fn make<B: Buf<V = S, Field = S>>(d: &[usize]) {
    let k = tn::<B>();
    let b = fresh_buf::<B>("x", d);
    fun(&format!("Spec::from ({})", k));
    lifted("from a buffer", &real(|| Spec::from(b.clone())), d, &|i| b.at(i));
    fun(&format!("Buffer::into_spec ({})", k));
    lifted("into_spec of a buffer", &real(|| IntoSpec::into_spec(b.clone())), d, &|i| b.at(i));
    fun(&format!("Spec::zeroes ({})", k));
    lifted("zeroes", &real(|| Spec::<B>::zeroes(B::shp(d))), d, &|_| S::c(0.0));
    fun(&format!("Spec::ones ({})", k));
    lifted("ones", &real(|| Spec::<B>::ones(B::shp(d))), d, &|_| S::c(1.0));
    fun(&format!("Spec::eye ({})", k));
    lifted("eye", &real(|| Spec::<B>::eye(B::shp(d))), d, &|i| if diag(i) { S::c(1.0) } else { S::c(0.0) });
}
fn zip<L, R, B>(dl: &[usize], dr: &[usize])
where
    L: Buf<V = S, Field = S> + ZipMap<R, Output<S> = B>,
    L::Shape: Broadcast<R::Shape, Shape = B::Shape>,
    R: Buf<V = S, Field = S>,
    B: Buf<V = S, Field = S>,
{
    let (l, r) = (any_spec::<L>("x", dl), any_spec::<R>("y", dr));
    let d: Vec<usize> = if dl.is_empty() { dr.to_vec() } else { dl.to_vec() };
    let fits = dl == dr || dl.is_empty() || dr.is_empty();
    fn pick<'a>(i: &'a [usize], d: &[usize]) -> &'a [usize] { if d.is_empty() { &[] } else { i } }
    fun(&format!("Spec::zip_map ({}, {})", tn::<L>(), tn::<R>()));
    match real(|| l.clone().zip_map(&r, g)) {
        Ok(z) => {
            check("differing shapes are rejected", fits, || format!("{:?} and {:?} were zipped", dl, dr));
            if fits { lifted("zip_map", &z, &d, &|i| g(spec_at(&l, pick(i, dl)), spec_at(&r, pick(i, dr)))); }
        }
        Err(e) => {
            check("matching shapes are accepted", !fits, || format!("{:?} and {:?} were rejected", dl, dr));
            check("the error names left and right in order", L::sdims(&e.left) == dl && R::sdims(&e.right) == dr, || format!("names {:?} and {:?}", L::sdims(&e.left), R::sdims(&e.right)));
        }
    }
}
fn h_one() {
    let v: Vec<fn()> = vec![
        || one::<S>(&[]),
        || one::<(S, S)>(&[2]),
        || one::<Vec<S>>(&[0]),
        || one::<Vec<S>>(&[3]),
        || one::<[S; 0]>(&[0]),
        || one::<[S; 3]>(&[3]),
        || one::<[[S; 2]; 2]>(&[2, 2]),
        || one::<[[S; 3]; 2]>(&[2, 3]),
        || one::<[[S; 2]; 3]>(&[3, 2]),
        || one::<[[S; 0]; 2]>(&[2, 0]),
        || one::<[[[S; 2]; 2]; 3]>(&[3, 2, 2]),
        || one::<[[[[S; 2]; 1]; 2]; 2]>(&[2, 2, 1, 2]),
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h_gen() {
    let v: Vec<fn()> = vec![|| one::<Gen<S>>(&[3]), || make::<Gen<S>>(&[3]), || zip::<Gen<S>, Gen<S>, Gen<S>>(&[3], &[3]), || zip::<Gen<S>, Gen<S>, Gen<S>>(&[3], &[2])];
    let c = engine::choose(v.len());
    v[c]()
}
fn h_make() {
    let v: Vec<fn()> = vec![
        || make::<S>(&[]),
        || make::<(S, S)>(&[2]),
        || make::<Vec<S>>(&[0]),
        || make::<Vec<S>>(&[3]),
        || make::<[S; 0]>(&[0]),
        || make::<[S; 3]>(&[3]),
        || make::<[[S; 2]; 2]>(&[2, 2]),
        || make::<[[S; 3]; 2]>(&[2, 3]),
        || make::<[[[S; 2]; 2]; 3]>(&[3, 2, 2]),
        || make::<[[[[S; 2]; 1]; 2]; 2]>(&[2, 2, 1, 2]),
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h_zip() {
    let v: Vec<fn()> = vec![
        || zip::<S, S, S>(&[], &[]),
        || zip::<(S, S), (S, S), (S, S)>(&[2], &[2]),
        || zip::<Vec<S>, Vec<S>, Vec<S>>(&[2], &[2]),
        || zip::<Vec<S>, Vec<S>, Vec<S>>(&[2], &[3]),
        || zip::<Vec<S>, Vec<S>, Vec<S>>(&[3], &[2]),
        || zip::<Vec<S>, S, Vec<S>>(&[2], &[]),
        || zip::<S, Vec<S>, Vec<S>>(&[], &[2]),
        || zip::<[S; 3], [S; 3], [S; 3]>(&[3], &[3]),
        || zip::<[S; 3], S, [S; 3]>(&[3], &[]),
        || zip::<S, [S; 3], [S; 3]>(&[], &[3]),
        || zip::<[[S; 3]; 2], [[S; 3]; 2], [[S; 3]; 2]>(&[2, 3], &[2, 3]),
        || zip::<[[S; 3]; 2], S, [[S; 3]; 2]>(&[2, 3], &[]),
        || zip::<S, [[S; 3]; 2], [[S; 3]; 2]>(&[], &[2, 3]),
        || zip::<[[[S; 2]; 1]; 2], [[[S; 2]; 1]; 2], [[[S; 2]; 1]; 2]>(&[2, 1, 2], &[2, 1, 2]),
    ];
    let c = engine::choose(v.len());
    v[c]()
}
pub fn spec_list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![
        ("operations on one lifted value", Mode::Real, h_one as fn(), "scalar, pair, vectors, arrays of rank 1-4 with small extents"),
        ("operations on lifted values, any buffer", Mode::Real, h_gen, ""),
        ("building lifted values", Mode::Real, h_make, "scalar, pair, vectors, arrays of rank 1-4 with small extents"),
        ("zips of lifted values", Mode::Real, h_zip, "scalar, pair, vectors, arrays of rank 1-3 with small extents"),
    ]
}

// Contracts of the zips: matching entries, left operand first, whatever the shapes.
#[allow(unused_imports)]
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::buffers::{Buffer, Class, ZipFold, ZipMap, ZipMut};

fn e(n: &str, ix: &[usize]) -> S { S::fresh(&name(n, ix)) }
fn nm(f: &str, l: &str, r: &str) -> String { format!("{}({}, {})", f, l, r) }
fn entries<B: Buf<V = S>>(label: &str, b: &B, d: &[usize], f: &dyn Fn(&[usize]) -> S) {
    check(&format!("{}: shape", label), b.dims() == d, || format!("has {:?}, should have {:?}", b.dims(), d));
    if b.dims() == d {
        for ix in B::ixs(d) {
            prove(&format!("{}: every entry", label), b.at(&ix).same(f(&ix)));
        }
    }
}
type Bad<L, R> = aegir::buffers::shapes::IncompatibleShapes<<L as aegir::buffers::shapes::Shaped>::Shape, <R as aegir::buffers::shapes::Shaped>::Shape>;
fn rejected<T, L: Buf, R: Buf>(r: Result<T, Bad<L, R>>, dl: &[usize], dr: &[usize]) -> Option<T> {
    match r {
        Ok(v) => {
            let fits = dl == dr || dl.is_empty() || dr.is_empty();
            check("differing lengths are rejected", fits, || format!("{:?} and {:?} were zipped", dl, dr));
            if fits { Some(v) } else { None }
        }
        Err(x) => {
            check("matching shapes are accepted", dl != dr && !dl.is_empty() && !dr.is_empty(), || format!("{:?} and {:?} were rejected", dl, dr));
            check("the error names left and right in order", L::sdims(&x.left) == dl && R::sdims(&x.right) == dr, || format!("names {:?} and {:?}", L::sdims(&x.left), R::sdims(&x.right)));
            None
        }
    }
}
// an arbitrary bilinear function of the pair: asymmetric, with fresh coefficients
fn g(x: S, y: S) -> S { S::fresh("a") * x + S::fresh("b") * y + S::fresh("c") * x * y + S::fresh("k") }
// an arbitrary step of a fold: sensitive to the order of the visits
fn st(t: S, x: S, y: S) -> S { S::fresh("h") * t + S::fresh("a") * x + S::fresh("b") * y }
fn pick<'a>(i: &'a [usize], d: &[usize]) -> &'a [usize] { if d.is_empty() { &[] } else { i } }

fn zips<L: Buf<V = S, Field = S>, R: Buf<V = S, Field = S>, B: Buf<V = S, Field = S>>(dl: &[usize], dr: &[usize])
where
    L: ZipMap<R, Output<S> = B>,
    L::Shape: aegir::buffers::shapes::Broadcast<R::Shape>,
{
    let (kl, kr) = (tn::<L>(), tn::<R>());
    exact_kinds(&[kl, kr]);
    let d: Vec<usize> = if dl.is_empty() { dr.to_vec() } else { dl.to_vec() };
    let (l, r) = (fresh_buf::<L>("l", dl), fresh_buf::<R>("r", dr));
    let want = |i: &[usize]| g(e("l", pick(i, dl)), e("r", pick(i, dr)));
    fun(&nm("zip_map", kl, kr));
    if let Some(b) = rejected::<B, L, R>(real(|| l.clone().zip_map(&r, g)), dl, dr) { entries("zip_map", &b, &d, &want); }
    fun(&nm("zip_map_id", kl, kr));
    if let Some(b) = rejected::<B, L, R>(real(|| l.clone().zip_map_id(&r, g)), dl, dr) { entries("zip_map_id", &b, &d, &want); }
    fun(&nm("zip_shape", kl, kr));
    if let Some(b) = rejected::<B, L, R>(real(|| l.clone().zip_shape(R::shp(dr))), dl, dr) { entries("zip_shape", &b, &d, &|i| e("l", pick(i, dl))); }
    entries("the right operand is left alone", &r, dr, &|i| e("r", i));
}
fn muts<L: Buf<V = S, Field = S> + ZipMut<R>, R: Buf<V = S, Field = S>>(dl: &[usize], dr: &[usize]) {
    exact_kinds(&[tn::<L>(), tn::<R>()]);
    let (mut l, r) = (fresh_buf::<L>("l", dl), fresh_buf::<R>("r", dr));
    fun(&nm("zip_mut", tn::<L>(), tn::<R>()));
    if rejected::<(), L, R>(real(|| l.zip_mut(&r, g)), dl, dr).is_some() { entries("zip_mut", &l, dl, &|i| g(e("l", i), e("r", pick(i, dr)))); }
    entries("the right operand is left alone", &r, dr, &|i| e("r", i));
}
fn folds<L: Buf<V = S, Field = S> + ZipFold<R>, R: Buf<V = S, Field = S>>(dl: &[usize], dr: &[usize]) {
    exact_kinds(&[tn::<L>(), tn::<R>()]);
    let (l, r) = (fresh_buf::<L>("l", dl), fresh_buf::<R>("r", dr));
    fun(&nm("zip_fold", tn::<L>(), tn::<R>()));
    if let Some(v) = rejected::<S, L, R>(real(|| l.zip_fold(&r, S::fresh("init"), |t, (x, y)| st(t, x, y))), dl, dr) {
        prove("each pair once, in row-major order", v.same(L::ixs(dl).iter().fold(S::fresh("init"), |t, i| st(t, e("l", i), e("r", pick(i, dr))))));
    }
}
macro_rules! arrays { ($f:ident, $m:ident) => { $m!($f;
    [S; 0], [0]; [S; 1], [1]; [S; 4], [4]; [S; 7], [7]; [S; 8], [8]; [S; 9], [9]; [S; 17], [17]; [S; 65], [65]; [S; 300], [300]; [[S; 70]; 3], [3, 70]; [[S; 3]; 70], [70, 3]; [[S; 8]; 4], [4, 8]; [[S; 4]; 8], [8, 4]; [[S; 9]; 9], [9, 9]; [[S; 17]; 16], [16, 17];
    [[S; 3]; 2], [2, 3]; [[S; 2]; 3], [3, 2]; [[S; 2]; 2], [2, 2]; [[S; 0]; 2], [2, 0]; [[S; 2]; 0], [0, 2];
    [[[S; 4]; 3]; 2], [2, 3, 4]; [[[S; 2]; 2]; 2], [2, 2, 2];
    [[[[S; 1]; 2]; 3]; 2], [2, 3, 2, 1]; [[[[S; 2]; 2]; 2]; 2], [2, 2, 2, 2];
    [[[[[S; 3]; 1]; 2]; 2]; 2], [2, 2, 2, 1, 3]; [[[[[S; 2]; 2]; 2]; 1]; 2], [2, 1, 2, 2, 2]) } }
macro_rules! self_ { ($f:ident; $($t:ty, $d:expr);*) => { vec![$( (|| { let d: &[usize] = &$d; $f::<$t, $t>(d, d) }) as fn() ),*] } }
macro_rules! right { ($f:ident; $($t:ty, $d:expr);*) => { vec![$( (|| { let d: &[usize] = &$d; $f::<$t, S>(d, &[]) }) as fn() ),*] } }
macro_rules! self3 { ($f:ident; $($t:ty, $d:expr);*) => { vec![$( (|| { let d: &[usize] = &$d; $f::<$t, $t, $t>(d, d) }) as fn() ),*] } }
macro_rules! right3 { ($f:ident; $($t:ty, $d:expr);*) => { vec![$( (|| { let d: &[usize] = &$d; $f::<$t, S, $t>(d, &[]) }) as fn() ),*] } }
macro_rules! left3 { ($f:ident; $($t:ty, $d:expr);*) => { vec![$( (|| { let d: &[usize] = &$d; $f::<S, $t, $t>(&[], d) }) as fn() ),*] } }
fn one(v: Vec<fn()>) { let c = engine::choose(v.len()); v[c]() }
fn k_self() {
    let mut v = arrays!(zips, self3);
    v.push(|| zips::<S, S, S>(&[], &[]));
    v.push(|| zips::<(S, S), (S, S), (S, S)>(&[2], &[2]));
    one(v)
}
fn k_right() { one(arrays!(zips, right3)) }
fn k_left() { one(arrays!(zips, left3)) }
fn k_mut() {
    let mut v = arrays!(muts, self_);
    v.extend(arrays!(muts, right));
    one(v)
}
fn k_fold() {
    let mut v = arrays!(folds, self_);
    v.extend(arrays!(folds, right));
    v.push(|| folds::<S, S>(&[], &[]));
    v.push(|| folds::<(S, S), (S, S)>(&[2], &[2]));
    one(v)
}
fn k_vec() {
    const N: [usize; 16] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 130, 300, 1030];
    let c = engine::choose(16 * 16 + 2);
    if c < 16 * 16 {
        let (n, m) = (N[c % 16], N[c / 16]);
        zips::<Vec<S>, Vec<S>, Vec<S>>(&[n], &[m]);
        folds::<Vec<S>, Vec<S>>(&[n], &[m]);
    } else {
        for n in N {
            if c == 16 * 16 { zips::<Vec<S>, S, Vec<S>>(&[n], &[]) } else { zips::<S, Vec<S>, Vec<S>>(&[], &[n]) }
        }
    }
}
const ZIPS: bool = true;
include!("prims.rs");
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    const B: &str = "rank 1: extents 0-5, 7-9, 16, 17, 33, 65, 300 (vectors also 130, 1030); rank 2: small extents, 4x8, 8x4, 9x9, 16x17, 3x70, 70x3; ranks 3-5: small extents";
    vec![("same shape", Mode::Real, k_self as fn(), B), ("scalar on the right", Mode::Real, k_right, B), ("scalar on the left", Mode::Real, k_left, B), ("in place", Mode::Real, k_mut, B), ("fold", Mode::Real, k_fold, B), ("Vec", Mode::Real, k_vec, B)].into_iter().chain(prim_list()).collect()
}

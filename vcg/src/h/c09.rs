// Contracts of the contractions: the defining sums, at every listed size and operand representation.
#[allow(unused_imports)]
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::buffers::{contract, contract_shape, contract_spec, shapes::Shaped, Buffer, Contract, Spec};

fn e(n: &str, ix: &[usize]) -> S { S::fresh(&name(n, ix)) }
fn entries<B: Buf<V = S>>(label: &str, b: &B, d: &[usize], f: &dyn Fn(&[usize]) -> S) {
    check(&format!("{}: shape", label), b.dims() == d, || format!("has {:?}, should have {:?}", b.dims(), d));
    if b.dims() == d {
        for ix in B::ixs(d) {
            prove(&format!("{}: every entry is the defining sum", label), b.at(&ix).same(f(&ix)));
        }
    }
}
fn defsum(axes: usize, l: &dyn Fn(&[usize]) -> S, r: &dyn Fn(&[usize]) -> S, dl: &[usize], dr: &[usize], ix: &[usize]) -> S {
    if axes == 0 || dl.is_empty() {
        return l(&ix[..dl.len()]) * r(&ix[dl.len()..]);
    }
    let (a, b) = ix.split_at(dl.len() - 1);
    assert_eq!(dl[dl.len() - 1], dr[0]);
    (0..dr[0]).fold(S::c(0.0), |t, k| {
        let x: Vec<usize> = a.iter().copied().chain([k]).collect();
        let y: Vec<usize> = [k].into_iter().chain(b.iter().copied()).collect();
        t + l(&x) * r(&y)
    })
}
fn fname(m: &str, axes: usize, dl: &[usize], dr: &[usize]) -> String { format!("Contract<{}>::{} (ranks {}, {})", axes, m, dl.len(), dr.len()) }
fn case<const A: usize, L, R, O>(dl: &[usize], dr: &[usize], d: &[usize])
where
    L: Buf<V = S, Field = S> + Contract<R, A, Output = O>,
    R: Buf<V = S, Field = S>,
    O: Buf<V = S, Field = S>,
{
    exact_kinds(&[tn::<L>(), tn::<R>()]);
    // dense operands
    let (l, r) = (fresh_buf::<L>("l", dl), fresh_buf::<R>("r", dr));
    fun(&fname("contract", A, dl, dr));
    match real(|| contract::<A, L, R>(l, r)) {
        Ok(o) => entries("contract", &o, d, &|ix| defsum(A, &|i| e("l", i), &|i| e("r", i), dl, dr, ix)),
        Err(_) => check("matching sizes are accepted", false, || "rejected".into()),
    }
    // every representation of the operands
    let (l, r) = (any_spec::<L>("p", dl), any_spec::<R>("q", dr));
    let (dn_l, dn_r) = (dense(&l), dense(&r));
    fun(&fname("contract_spec", A, dl, dr));
    match real(|| contract_spec::<A, L, R>(l, r)) {
        Ok(o) => {
            let s = real(|| o.shape());
            check("reported shape", O::sdims(&s) == d, || format!("{:?} instead of {:?}", O::sdims(&s), d));
            let o = real(|| o.unwrap());
            entries("contract_spec", &o, d, &|ix| defsum(A, &|i| dn_l.at(i), &|i| dn_r.at(i), dl, dr, ix))
        }
        Err(_) => check("matching sizes are accepted", false, || "rejected".into()),
    }
    fun(&fname("contract_shape", A, dl, dr));
    match real(|| contract_shape::<A, L, R>(L::shp(dl), R::shp(dr))) {
        Ok(o) => check("the shape of the result", O::sdims(&o) == d, || format!("{:?} instead of {:?}", O::sdims(&o), d)),
        Err(_) => check("matching sizes are accepted", false, || "rejected".into()),
    }
}
/// a matrix and a vector whose contracted axes have different lengths must not be contracted
fn ragged<const N: usize, const M: usize>() {
    let (l, r) = (fresh_buf::<[[S; M]; N]>("l", &[N, M]), fresh_buf::<[S; N]>("r", &[N]));
    fun(&format!("Contract<1>::contract ({}x{} matrix, {}-vector)", N, M, N));
    let o = real(|| contract::<1, _, _>(l, r));
    check("operands whose contracted axes differ in length are rejected", o.is_err(), || format!("rows of length {} were contracted with a vector of length {}", M, N));
}
fn ragged_diag<const N: usize, const M: usize>() {
    let (l, r) = (Spec::<[[S; M]; N]>::Diagonal(aegir::buffers::shapes::S2, S::fresh("l")), Spec::<[S; N]>::Full(aegir::buffers::shapes::S1, S::fresh("r")));
    fun(&format!("Contract<1>::contract_spec ({}x{} diagonal matrix, homogeneous {}-vector)", N, M, N));
    let o = real(|| contract_spec::<1, _, _>(l, r));
    check("operands whose contracted axes differ in length are rejected", o.is_err(), || format!("rows of length {} were contracted with a vector of length {}", M, N));
}
fn ragged_diag_raw<const N: usize, const M: usize>() {
    let (l, r) = (Spec::<[[S; M]; N]>::Diagonal(aegir::buffers::shapes::S2, S::fresh("l")), Spec::Raw(fresh_buf::<[S; N]>("r", &[N])));
    fun(&format!("Contract<1>::contract_spec ({}x{} diagonal matrix, dense {}-vector)", N, M, N));
    let o = real(|| contract_spec::<1, _, _>(l, r));
    check("operands whose contracted axes differ in length are rejected", o.is_err(), || format!("rows of length {} were contracted with a vector of length {}", M, N));
}
fn nonsquare() {
    let v: Vec<fn()> = vec![ragged::<3, 2>, ragged::<2, 3>, ragged_diag::<3, 2>, ragged_diag::<2, 3>, ragged_diag_raw::<3, 2>, ragged_diag_raw::<2, 3>];
    let c = engine::choose(v.len());
    v[c]()
}
fn h0() {
    let v: Vec<fn()> = vec![
        || case::<0, S, S, S>(&[], &[], &[]),
        || case::<1, S, S, S>(&[], &[], &[])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h1() {
    let v: Vec<fn()> = vec![
        || case::<0, [S; 4], S, [S; 4]>(&[4], &[], &[4]),
        || case::<0, [S; 7], S, [S; 7]>(&[7], &[], &[7]),
        || case::<0, [S; 8], S, [S; 8]>(&[8], &[], &[8]),
        || case::<0, [S; 9], S, [S; 9]>(&[9], &[], &[9]),
        || case::<0, [S; 17], S, [S; 17]>(&[17], &[], &[17]),
        || case::<0, [S; 33], S, [S; 33]>(&[33], &[], &[33]),
        || case::<0, [S; 0], S, [S; 0]>(&[0], &[], &[0]),
        || case::<0, [S; 1], S, [S; 1]>(&[1], &[], &[1]),
        || case::<0, [S; 2], S, [S; 2]>(&[2], &[], &[2]),
        || case::<0, [S; 3], S, [S; 3]>(&[3], &[], &[3]),
        || case::<0, [S; 5], S, [S; 5]>(&[5], &[], &[5])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h2() {
    let v: Vec<fn()> = vec![
        || case::<0, S, [S; 4], [S; 4]>(&[], &[4], &[4]),
        || case::<0, S, [S; 7], [S; 7]>(&[], &[7], &[7]),
        || case::<0, S, [S; 8], [S; 8]>(&[], &[8], &[8]),
        || case::<0, S, [S; 9], [S; 9]>(&[], &[9], &[9]),
        || case::<0, S, [S; 17], [S; 17]>(&[], &[17], &[17]),
        || case::<0, S, [S; 33], [S; 33]>(&[], &[33], &[33]),
        || case::<0, S, [S; 0], [S; 0]>(&[], &[0], &[0]),
        || case::<0, S, [S; 1], [S; 1]>(&[], &[1], &[1]),
        || case::<0, S, [S; 2], [S; 2]>(&[], &[2], &[2]),
        || case::<0, S, [S; 3], [S; 3]>(&[], &[3], &[3]),
        || case::<0, S, [S; 5], [S; 5]>(&[], &[5], &[5])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h3() {
    let v: Vec<fn()> = vec![
        || case::<1, [S; 4], [S; 4], S>(&[4], &[4], &[]),
        || case::<1, [S; 6], [S; 6], S>(&[6], &[6], &[]),
        || case::<1, [S; 7], [S; 7], S>(&[7], &[7], &[]),
        || case::<1, [S; 8], [S; 8], S>(&[8], &[8], &[]),
        || case::<1, [S; 9], [S; 9], S>(&[9], &[9], &[]),
        || case::<1, [S; 16], [S; 16], S>(&[16], &[16], &[]),
        || case::<1, [S; 17], [S; 17], S>(&[17], &[17], &[]),
        || case::<1, [S; 33], [S; 33], S>(&[33], &[33], &[]),
        || case::<1, [S; 65], [S; 65], S>(&[65], &[65], &[]),
        || case::<1, [S; 150], [S; 150], S>(&[150], &[150], &[]),
        || case::<0, [S; 40], [S; 2], [[S; 2]; 40]>(&[40], &[2], &[40, 2]),
        || case::<0, [S; 2], [S; 40], [[S; 40]; 2]>(&[2], &[40], &[2, 40]),
        || case::<0, [S; 4], [S; 4], [[S; 4]; 4]>(&[4], &[4], &[4, 4]),
        || case::<0, [S; 4], [S; 8], [[S; 8]; 4]>(&[4], &[8], &[4, 8]),
        || case::<0, [S; 8], [S; 4], [[S; 4]; 8]>(&[8], &[4], &[8, 4]),
        || case::<0, [S; 5], [S; 9], [[S; 9]; 5]>(&[5], &[9], &[5, 9]),
        || case::<0, [S; 9], [S; 5], [[S; 5]; 9]>(&[9], &[5], &[9, 5]),
        || case::<0, [S; 8], [S; 8], [[S; 8]; 8]>(&[8], &[8], &[8, 8]),
        || case::<0, [S; 9], [S; 9], [[S; 9]; 9]>(&[9], &[9], &[9, 9]),
        || case::<0, [S; 3], [S; 17], [[S; 17]; 3]>(&[3], &[17], &[3, 17]),
        || case::<0, [S; 17], [S; 3], [[S; 3]; 17]>(&[17], &[3], &[17, 3]),
        || case::<1, [S; 0], [S; 0], S>(&[0], &[0], &[]),
        || case::<1, [S; 1], [S; 1], S>(&[1], &[1], &[]),
        || case::<1, [S; 2], [S; 2], S>(&[2], &[2], &[]),
        || case::<1, [S; 3], [S; 3], S>(&[3], &[3], &[]),
        || case::<1, [S; 5], [S; 5], S>(&[5], &[5], &[]),
        || case::<0, [S; 0], [S; 0], [[S; 0]; 0]>(&[0], &[0], &[0, 0]),
        || case::<0, [S; 0], [S; 1], [[S; 1]; 0]>(&[0], &[1], &[0, 1]),
        || case::<0, [S; 0], [S; 2], [[S; 2]; 0]>(&[0], &[2], &[0, 2]),
        || case::<0, [S; 0], [S; 3], [[S; 3]; 0]>(&[0], &[3], &[0, 3]),
        || case::<0, [S; 1], [S; 0], [[S; 0]; 1]>(&[1], &[0], &[1, 0]),
        || case::<0, [S; 1], [S; 1], [[S; 1]; 1]>(&[1], &[1], &[1, 1]),
        || case::<0, [S; 1], [S; 2], [[S; 2]; 1]>(&[1], &[2], &[1, 2]),
        || case::<0, [S; 1], [S; 3], [[S; 3]; 1]>(&[1], &[3], &[1, 3]),
        || case::<0, [S; 2], [S; 0], [[S; 0]; 2]>(&[2], &[0], &[2, 0]),
        || case::<0, [S; 2], [S; 1], [[S; 1]; 2]>(&[2], &[1], &[2, 1]),
        || case::<0, [S; 2], [S; 2], [[S; 2]; 2]>(&[2], &[2], &[2, 2]),
        || case::<0, [S; 2], [S; 3], [[S; 3]; 2]>(&[2], &[3], &[2, 3]),
        || case::<0, [S; 3], [S; 0], [[S; 0]; 3]>(&[3], &[0], &[3, 0]),
        || case::<0, [S; 3], [S; 1], [[S; 1]; 3]>(&[3], &[1], &[3, 1]),
        || case::<0, [S; 3], [S; 2], [[S; 2]; 3]>(&[3], &[2], &[3, 2]),
        || case::<0, [S; 3], [S; 3], [[S; 3]; 3]>(&[3], &[3], &[3, 3])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h4() {
    let v: Vec<fn()> = vec![
        || case::<0, [[S; 4]; 4], S, [[S; 4]; 4]>(&[4, 4], &[], &[4, 4]),
        || case::<0, [[S; 8]; 4], S, [[S; 8]; 4]>(&[4, 8], &[], &[4, 8]),
        || case::<0, [[S; 4]; 8], S, [[S; 4]; 8]>(&[8, 4], &[], &[8, 4]),
        || case::<0, [[S; 9]; 5], S, [[S; 9]; 5]>(&[5, 9], &[], &[5, 9]),
        || case::<0, [[S; 5]; 9], S, [[S; 5]; 9]>(&[9, 5], &[], &[9, 5]),
        || case::<0, [[S; 9]; 9], S, [[S; 9]; 9]>(&[9, 9], &[], &[9, 9]),
        || case::<0, [[S; 0]; 0], S, [[S; 0]; 0]>(&[0, 0], &[], &[0, 0]),
        || case::<0, [[S; 1]; 0], S, [[S; 1]; 0]>(&[0, 1], &[], &[0, 1]),
        || case::<0, [[S; 2]; 0], S, [[S; 2]; 0]>(&[0, 2], &[], &[0, 2]),
        || case::<0, [[S; 3]; 0], S, [[S; 3]; 0]>(&[0, 3], &[], &[0, 3]),
        || case::<0, [[S; 0]; 1], S, [[S; 0]; 1]>(&[1, 0], &[], &[1, 0]),
        || case::<0, [[S; 1]; 1], S, [[S; 1]; 1]>(&[1, 1], &[], &[1, 1]),
        || case::<0, [[S; 2]; 1], S, [[S; 2]; 1]>(&[1, 2], &[], &[1, 2]),
        || case::<0, [[S; 3]; 1], S, [[S; 3]; 1]>(&[1, 3], &[], &[1, 3]),
        || case::<0, [[S; 0]; 2], S, [[S; 0]; 2]>(&[2, 0], &[], &[2, 0]),
        || case::<0, [[S; 1]; 2], S, [[S; 1]; 2]>(&[2, 1], &[], &[2, 1]),
        || case::<0, [[S; 2]; 2], S, [[S; 2]; 2]>(&[2, 2], &[], &[2, 2]),
        || case::<0, [[S; 3]; 2], S, [[S; 3]; 2]>(&[2, 3], &[], &[2, 3]),
        || case::<0, [[S; 0]; 3], S, [[S; 0]; 3]>(&[3, 0], &[], &[3, 0]),
        || case::<0, [[S; 1]; 3], S, [[S; 1]; 3]>(&[3, 1], &[], &[3, 1]),
        || case::<0, [[S; 2]; 3], S, [[S; 2]; 3]>(&[3, 2], &[], &[3, 2]),
        || case::<0, [[S; 3]; 3], S, [[S; 3]; 3]>(&[3, 3], &[], &[3, 3])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h5() {
    let v: Vec<fn()> = vec![
        || case::<0, S, [[S; 4]; 4], [[S; 4]; 4]>(&[], &[4, 4], &[4, 4]),
        || case::<0, S, [[S; 8]; 4], [[S; 8]; 4]>(&[], &[4, 8], &[4, 8]),
        || case::<0, S, [[S; 4]; 8], [[S; 4]; 8]>(&[], &[8, 4], &[8, 4]),
        || case::<0, S, [[S; 9]; 5], [[S; 9]; 5]>(&[], &[5, 9], &[5, 9]),
        || case::<0, S, [[S; 5]; 9], [[S; 5]; 9]>(&[], &[9, 5], &[9, 5]),
        || case::<0, S, [[S; 9]; 9], [[S; 9]; 9]>(&[], &[9, 9], &[9, 9]),
        || case::<0, S, [[S; 0]; 0], [[S; 0]; 0]>(&[], &[0, 0], &[0, 0]),
        || case::<0, S, [[S; 1]; 0], [[S; 1]; 0]>(&[], &[0, 1], &[0, 1]),
        || case::<0, S, [[S; 2]; 0], [[S; 2]; 0]>(&[], &[0, 2], &[0, 2]),
        || case::<0, S, [[S; 3]; 0], [[S; 3]; 0]>(&[], &[0, 3], &[0, 3]),
        || case::<0, S, [[S; 0]; 1], [[S; 0]; 1]>(&[], &[1, 0], &[1, 0]),
        || case::<0, S, [[S; 1]; 1], [[S; 1]; 1]>(&[], &[1, 1], &[1, 1]),
        || case::<0, S, [[S; 2]; 1], [[S; 2]; 1]>(&[], &[1, 2], &[1, 2]),
        || case::<0, S, [[S; 3]; 1], [[S; 3]; 1]>(&[], &[1, 3], &[1, 3]),
        || case::<0, S, [[S; 0]; 2], [[S; 0]; 2]>(&[], &[2, 0], &[2, 0]),
        || case::<0, S, [[S; 1]; 2], [[S; 1]; 2]>(&[], &[2, 1], &[2, 1]),
        || case::<0, S, [[S; 2]; 2], [[S; 2]; 2]>(&[], &[2, 2], &[2, 2]),
        || case::<0, S, [[S; 3]; 2], [[S; 3]; 2]>(&[], &[2, 3], &[2, 3]),
        || case::<0, S, [[S; 0]; 3], [[S; 0]; 3]>(&[], &[3, 0], &[3, 0]),
        || case::<0, S, [[S; 1]; 3], [[S; 1]; 3]>(&[], &[3, 1], &[3, 1]),
        || case::<0, S, [[S; 2]; 3], [[S; 2]; 3]>(&[], &[3, 2], &[3, 2]),
        || case::<0, S, [[S; 3]; 3], [[S; 3]; 3]>(&[], &[3, 3], &[3, 3])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h6() {
    let v: Vec<fn()> = vec![
        || case::<1, [S; 4], [[S; 4]; 4], [S; 4]>(&[4], &[4, 4], &[4]),
        || case::<1, [S; 4], [[S; 8]; 4], [S; 8]>(&[4], &[4, 8], &[8]),
        || case::<1, [S; 8], [[S; 4]; 8], [S; 4]>(&[8], &[8, 4], &[4]),
        || case::<1, [S; 5], [[S; 9]; 5], [S; 9]>(&[5], &[5, 9], &[9]),
        || case::<1, [S; 9], [[S; 5]; 9], [S; 5]>(&[9], &[9, 5], &[5]),
        || case::<1, [S; 9], [[S; 9]; 9], [S; 9]>(&[9], &[9, 9], &[9]),
        || case::<1, [S; 40], [[S; 40]; 40], [S; 40]>(&[40], &[40, 40], &[40]),
        || case::<1, [S; 17], [[S; 2]; 17], [S; 2]>(&[17], &[17, 2], &[2]),
        || case::<1, [S; 2], [[S; 17]; 2], [S; 17]>(&[2], &[2, 17], &[17]),
        || case::<1, [S; 0], [[S; 0]; 0], [S; 0]>(&[0], &[0, 0], &[0]),
        || case::<1, [S; 0], [[S; 1]; 0], [S; 1]>(&[0], &[0, 1], &[1]),
        || case::<1, [S; 0], [[S; 2]; 0], [S; 2]>(&[0], &[0, 2], &[2]),
        || case::<1, [S; 0], [[S; 3]; 0], [S; 3]>(&[0], &[0, 3], &[3]),
        || case::<1, [S; 1], [[S; 0]; 1], [S; 0]>(&[1], &[1, 0], &[0]),
        || case::<1, [S; 1], [[S; 1]; 1], [S; 1]>(&[1], &[1, 1], &[1]),
        || case::<1, [S; 1], [[S; 2]; 1], [S; 2]>(&[1], &[1, 2], &[2]),
        || case::<1, [S; 1], [[S; 3]; 1], [S; 3]>(&[1], &[1, 3], &[3]),
        || case::<1, [S; 2], [[S; 0]; 2], [S; 0]>(&[2], &[2, 0], &[0]),
        || case::<1, [S; 2], [[S; 1]; 2], [S; 1]>(&[2], &[2, 1], &[1]),
        || case::<1, [S; 2], [[S; 2]; 2], [S; 2]>(&[2], &[2, 2], &[2]),
        || case::<1, [S; 2], [[S; 3]; 2], [S; 3]>(&[2], &[2, 3], &[3]),
        || case::<1, [S; 3], [[S; 0]; 3], [S; 0]>(&[3], &[3, 0], &[0]),
        || case::<1, [S; 3], [[S; 1]; 3], [S; 1]>(&[3], &[3, 1], &[1]),
        || case::<1, [S; 3], [[S; 2]; 3], [S; 2]>(&[3], &[3, 2], &[2]),
        || case::<1, [S; 3], [[S; 3]; 3], [S; 3]>(&[3], &[3, 3], &[3])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h7() {
    let v: Vec<fn()> = vec![
        || case::<1, [[S; 4]; 4], [[S; 4]; 4], [[S; 4]; 4]>(&[4, 4], &[4, 4], &[4, 4]),
        || case::<1, [[S; 5]; 5], [[S; 5]; 5], [[S; 5]; 5]>(&[5, 5], &[5, 5], &[5, 5]),
        || case::<1, [[S; 5]; 4], [[S; 6]; 5], [[S; 6]; 4]>(&[4, 5], &[5, 6], &[4, 6]),
        || case::<1, [[S; 5]; 6], [[S; 4]; 5], [[S; 4]; 6]>(&[6, 5], &[5, 4], &[6, 4]),
        || case::<1, [[S; 8]; 8], [[S; 8]; 8], [[S; 8]; 8]>(&[8, 8], &[8, 8], &[8, 8]),
        || case::<1, [[S; 9]; 9], [[S; 9]; 9], [[S; 9]; 9]>(&[9, 9], &[9, 9], &[9, 9]),
        || case::<1, [[S; 40]; 2], [[S; 2]; 40], [[S; 2]; 2]>(&[2, 40], &[40, 2], &[2, 2]),
        || case::<1, [[S; 2]; 40], [[S; 3]; 2], [[S; 3]; 40]>(&[40, 2], &[2, 3], &[40, 3]),
        || case::<1, [[S; 3]; 2], [[S; 40]; 3], [[S; 40]; 2]>(&[2, 3], &[3, 40], &[2, 40]),
        || case::<1, [[S; 9]; 4], [[S; 5]; 9], [[S; 5]; 4]>(&[4, 9], &[9, 5], &[4, 5]),
        || case::<1, [[S; 4]; 9], [[S; 5]; 4], [[S; 5]; 9]>(&[9, 4], &[4, 5], &[9, 5]),
        || case::<1, [[S; 17]; 2], [[S; 3]; 17], [[S; 3]; 2]>(&[2, 17], &[17, 3], &[2, 3]),
        || case::<1, [[S; 3]; 17], [[S; 2]; 3], [[S; 2]; 17]>(&[17, 3], &[3, 2], &[17, 2]),
        || case::<1, [[S; 2]; 3], [[S; 17]; 2], [[S; 17]; 3]>(&[3, 2], &[2, 17], &[3, 17]),
        || case::<1, [[S; 0]; 0], [[S; 0]; 0], [[S; 0]; 0]>(&[0, 0], &[0, 0], &[0, 0]),
        || case::<1, [[S; 1]; 0], [[S; 0]; 1], [[S; 0]; 0]>(&[0, 1], &[1, 0], &[0, 0]),
        || case::<1, [[S; 2]; 0], [[S; 0]; 2], [[S; 0]; 0]>(&[0, 2], &[2, 0], &[0, 0]),
        || case::<1, [[S; 3]; 0], [[S; 0]; 3], [[S; 0]; 0]>(&[0, 3], &[3, 0], &[0, 0]),
        || case::<1, [[S; 0]; 0], [[S; 1]; 0], [[S; 1]; 0]>(&[0, 0], &[0, 1], &[0, 1]),
        || case::<1, [[S; 1]; 0], [[S; 1]; 1], [[S; 1]; 0]>(&[0, 1], &[1, 1], &[0, 1]),
        || case::<1, [[S; 2]; 0], [[S; 1]; 2], [[S; 1]; 0]>(&[0, 2], &[2, 1], &[0, 1]),
        || case::<1, [[S; 3]; 0], [[S; 1]; 3], [[S; 1]; 0]>(&[0, 3], &[3, 1], &[0, 1]),
        || case::<1, [[S; 0]; 0], [[S; 2]; 0], [[S; 2]; 0]>(&[0, 0], &[0, 2], &[0, 2]),
        || case::<1, [[S; 1]; 0], [[S; 2]; 1], [[S; 2]; 0]>(&[0, 1], &[1, 2], &[0, 2]),
        || case::<1, [[S; 2]; 0], [[S; 2]; 2], [[S; 2]; 0]>(&[0, 2], &[2, 2], &[0, 2]),
        || case::<1, [[S; 3]; 0], [[S; 2]; 3], [[S; 2]; 0]>(&[0, 3], &[3, 2], &[0, 2]),
        || case::<1, [[S; 0]; 0], [[S; 3]; 0], [[S; 3]; 0]>(&[0, 0], &[0, 3], &[0, 3]),
        || case::<1, [[S; 1]; 0], [[S; 3]; 1], [[S; 3]; 0]>(&[0, 1], &[1, 3], &[0, 3]),
        || case::<1, [[S; 2]; 0], [[S; 3]; 2], [[S; 3]; 0]>(&[0, 2], &[2, 3], &[0, 3]),
        || case::<1, [[S; 3]; 0], [[S; 3]; 3], [[S; 3]; 0]>(&[0, 3], &[3, 3], &[0, 3]),
        || case::<1, [[S; 0]; 1], [[S; 0]; 0], [[S; 0]; 1]>(&[1, 0], &[0, 0], &[1, 0]),
        || case::<1, [[S; 1]; 1], [[S; 0]; 1], [[S; 0]; 1]>(&[1, 1], &[1, 0], &[1, 0]),
        || case::<1, [[S; 2]; 1], [[S; 0]; 2], [[S; 0]; 1]>(&[1, 2], &[2, 0], &[1, 0]),
        || case::<1, [[S; 3]; 1], [[S; 0]; 3], [[S; 0]; 1]>(&[1, 3], &[3, 0], &[1, 0]),
        || case::<1, [[S; 0]; 1], [[S; 1]; 0], [[S; 1]; 1]>(&[1, 0], &[0, 1], &[1, 1]),
        || case::<1, [[S; 1]; 1], [[S; 1]; 1], [[S; 1]; 1]>(&[1, 1], &[1, 1], &[1, 1]),
        || case::<1, [[S; 2]; 1], [[S; 1]; 2], [[S; 1]; 1]>(&[1, 2], &[2, 1], &[1, 1]),
        || case::<1, [[S; 3]; 1], [[S; 1]; 3], [[S; 1]; 1]>(&[1, 3], &[3, 1], &[1, 1]),
        || case::<1, [[S; 0]; 1], [[S; 2]; 0], [[S; 2]; 1]>(&[1, 0], &[0, 2], &[1, 2]),
        || case::<1, [[S; 1]; 1], [[S; 2]; 1], [[S; 2]; 1]>(&[1, 1], &[1, 2], &[1, 2]),
        || case::<1, [[S; 2]; 1], [[S; 2]; 2], [[S; 2]; 1]>(&[1, 2], &[2, 2], &[1, 2]),
        || case::<1, [[S; 3]; 1], [[S; 2]; 3], [[S; 2]; 1]>(&[1, 3], &[3, 2], &[1, 2]),
        || case::<1, [[S; 0]; 1], [[S; 3]; 0], [[S; 3]; 1]>(&[1, 0], &[0, 3], &[1, 3]),
        || case::<1, [[S; 1]; 1], [[S; 3]; 1], [[S; 3]; 1]>(&[1, 1], &[1, 3], &[1, 3]),
        || case::<1, [[S; 2]; 1], [[S; 3]; 2], [[S; 3]; 1]>(&[1, 2], &[2, 3], &[1, 3]),
        || case::<1, [[S; 3]; 1], [[S; 3]; 3], [[S; 3]; 1]>(&[1, 3], &[3, 3], &[1, 3]),
        || case::<1, [[S; 0]; 2], [[S; 0]; 0], [[S; 0]; 2]>(&[2, 0], &[0, 0], &[2, 0]),
        || case::<1, [[S; 1]; 2], [[S; 0]; 1], [[S; 0]; 2]>(&[2, 1], &[1, 0], &[2, 0]),
        || case::<1, [[S; 2]; 2], [[S; 0]; 2], [[S; 0]; 2]>(&[2, 2], &[2, 0], &[2, 0]),
        || case::<1, [[S; 3]; 2], [[S; 0]; 3], [[S; 0]; 2]>(&[2, 3], &[3, 0], &[2, 0]),
        || case::<1, [[S; 0]; 2], [[S; 1]; 0], [[S; 1]; 2]>(&[2, 0], &[0, 1], &[2, 1]),
        || case::<1, [[S; 1]; 2], [[S; 1]; 1], [[S; 1]; 2]>(&[2, 1], &[1, 1], &[2, 1]),
        || case::<1, [[S; 2]; 2], [[S; 1]; 2], [[S; 1]; 2]>(&[2, 2], &[2, 1], &[2, 1]),
        || case::<1, [[S; 3]; 2], [[S; 1]; 3], [[S; 1]; 2]>(&[2, 3], &[3, 1], &[2, 1]),
        || case::<1, [[S; 0]; 2], [[S; 2]; 0], [[S; 2]; 2]>(&[2, 0], &[0, 2], &[2, 2]),
        || case::<1, [[S; 1]; 2], [[S; 2]; 1], [[S; 2]; 2]>(&[2, 1], &[1, 2], &[2, 2]),
        || case::<1, [[S; 2]; 2], [[S; 2]; 2], [[S; 2]; 2]>(&[2, 2], &[2, 2], &[2, 2]),
        || case::<1, [[S; 3]; 2], [[S; 2]; 3], [[S; 2]; 2]>(&[2, 3], &[3, 2], &[2, 2]),
        || case::<1, [[S; 0]; 2], [[S; 3]; 0], [[S; 3]; 2]>(&[2, 0], &[0, 3], &[2, 3]),
        || case::<1, [[S; 1]; 2], [[S; 3]; 1], [[S; 3]; 2]>(&[2, 1], &[1, 3], &[2, 3]),
        || case::<1, [[S; 2]; 2], [[S; 3]; 2], [[S; 3]; 2]>(&[2, 2], &[2, 3], &[2, 3]),
        || case::<1, [[S; 3]; 2], [[S; 3]; 3], [[S; 3]; 2]>(&[2, 3], &[3, 3], &[2, 3]),
        || case::<1, [[S; 0]; 3], [[S; 0]; 0], [[S; 0]; 3]>(&[3, 0], &[0, 0], &[3, 0]),
        || case::<1, [[S; 1]; 3], [[S; 0]; 1], [[S; 0]; 3]>(&[3, 1], &[1, 0], &[3, 0]),
        || case::<1, [[S; 2]; 3], [[S; 0]; 2], [[S; 0]; 3]>(&[3, 2], &[2, 0], &[3, 0]),
        || case::<1, [[S; 3]; 3], [[S; 0]; 3], [[S; 0]; 3]>(&[3, 3], &[3, 0], &[3, 0]),
        || case::<1, [[S; 0]; 3], [[S; 1]; 0], [[S; 1]; 3]>(&[3, 0], &[0, 1], &[3, 1]),
        || case::<1, [[S; 1]; 3], [[S; 1]; 1], [[S; 1]; 3]>(&[3, 1], &[1, 1], &[3, 1]),
        || case::<1, [[S; 2]; 3], [[S; 1]; 2], [[S; 1]; 3]>(&[3, 2], &[2, 1], &[3, 1]),
        || case::<1, [[S; 3]; 3], [[S; 1]; 3], [[S; 1]; 3]>(&[3, 3], &[3, 1], &[3, 1]),
        || case::<1, [[S; 0]; 3], [[S; 2]; 0], [[S; 2]; 3]>(&[3, 0], &[0, 2], &[3, 2]),
        || case::<1, [[S; 1]; 3], [[S; 2]; 1], [[S; 2]; 3]>(&[3, 1], &[1, 2], &[3, 2]),
        || case::<1, [[S; 2]; 3], [[S; 2]; 2], [[S; 2]; 3]>(&[3, 2], &[2, 2], &[3, 2]),
        || case::<1, [[S; 3]; 3], [[S; 2]; 3], [[S; 2]; 3]>(&[3, 3], &[3, 2], &[3, 2]),
        || case::<1, [[S; 0]; 3], [[S; 3]; 0], [[S; 3]; 3]>(&[3, 0], &[0, 3], &[3, 3]),
        || case::<1, [[S; 1]; 3], [[S; 3]; 1], [[S; 3]; 3]>(&[3, 1], &[1, 3], &[3, 3]),
        || case::<1, [[S; 2]; 3], [[S; 3]; 2], [[S; 3]; 3]>(&[3, 2], &[2, 3], &[3, 3]),
        || case::<1, [[S; 3]; 3], [[S; 3]; 3], [[S; 3]; 3]>(&[3, 3], &[3, 3], &[3, 3])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn h8() {
    let v: Vec<fn()> = vec![
        || case::<1, [[S; 4]; 4], [S; 4], [S; 4]>(&[4, 4], &[4], &[4]),
        || case::<1, [[S; 5]; 5], [S; 5], [S; 5]>(&[5, 5], &[5], &[5]),
        || case::<1, [[S; 7]; 7], [S; 7], [S; 7]>(&[7, 7], &[7], &[7]),
        || case::<1, [[S; 8]; 8], [S; 8], [S; 8]>(&[8, 8], &[8], &[8]),
        || case::<1, [[S; 9]; 9], [S; 9], [S; 9]>(&[9, 9], &[9], &[9]),
        || case::<1, [[S; 40]; 40], [S; 40], [S; 40]>(&[40, 40], &[40], &[40]),
        || case::<1, [[S; 17]; 17], [S; 17], [S; 17]>(&[17, 17], &[17], &[17]),
        || case::<1, [[S; 0]; 0], [S; 0], [S; 0]>(&[0, 0], &[0], &[0]),
        || case::<1, [[S; 1]; 1], [S; 1], [S; 1]>(&[1, 1], &[1], &[1]),
        || case::<1, [[S; 2]; 2], [S; 2], [S; 2]>(&[2, 2], &[2], &[2]),
        || case::<1, [[S; 3]; 3], [S; 3], [S; 3]>(&[3, 3], &[3], &[3])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![
        ("scalar, scalar", Mode::Real, h0 as fn(), "extents 0-3"),
        ("vector, scalar", Mode::Real, h1, "extents 0-5, 7-9, 17, 33"),
        ("scalar, vector", Mode::Real, h2 as fn(), "extents 0-5"),
        ("vector, vector", Mode::Real, h3 as fn(), "extents 0-5"),
        ("matrix, scalar", Mode::Real, h4 as fn(), "extents 0-3"),
        ("scalar, matrix", Mode::Real, h5 as fn(), "extents 0-3"),
        ("vector, matrix", Mode::Real, h6 as fn(), "extents 0-3"),
        ("matrix, matrix", Mode::Real, h7 as fn(), "extents 0-3"),
        ("matrix, vector", Mode::Real, h8 as fn(), "extents 0-3"),
        ("non-square matrix, vector", Mode::Real, nonsquare, "2x3 and 3x2"),
    ]
}

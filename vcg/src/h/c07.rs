// Contracts of the buffer traits on /repo's own buffers: total maps from in-range indices to entries.
#[allow(unused_imports)]
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::buffers::{Buffer, Class};
use aegir::{Function, Node};

// the kinds and sizes; `k!` runs a generic function at every one of them
macro_rules! kinds {
    ($f:ident) => {
        kinds!(@ $f; Gen<S>, [1]; S, []; (S, S), [2];
            [S; 0], [0]; [S; 1], [1]; [S; 2], [2]; [S; 5], [5];
            [S; 7], [7]; [S; 8], [8]; [S; 9], [9]; [S; 16], [16]; [S; 17], [17]; [S; 33], [33]; [S; 65], [65]; [S; 300], [300]; [[S; 70]; 3], [3, 70]; [[S; 3]; 70], [70, 3];
            [[S; 8]; 4], [4, 8]; [[S; 4]; 8], [8, 4]; [[S; 9]; 9], [9, 9]; [[S; 17]; 16], [16, 17]; [[[S; 9]; 2]; 8], [8, 2, 9];
            [[S; 3]; 2], [2, 3]; [[S; 2]; 3], [3, 2]; [[S; 3]; 3], [3, 3]; [[S; 0]; 2], [2, 0]; [[S; 2]; 0], [0, 2]; [[S; 4]; 1], [1, 4];
            [[[S; 4]; 3]; 2], [2, 3, 4]; [[[S; 2]; 2]; 3], [3, 2, 2]; [[[S; 2]; 2]; 2], [2, 2, 2]; [[[S; 2]; 0]; 1], [1, 0, 2];
            [[[[S; 1]; 2]; 3]; 2], [2, 3, 2, 1]; [[[[S; 3]; 2]; 1]; 2], [2, 1, 2, 3]; [[[[S; 2]; 2]; 2]; 2], [2, 2, 2, 2];
            [[[[[S; 3]; 1]; 2]; 2]; 2], [2, 2, 2, 1, 3]; [[[[[S; 2]; 2]; 2]; 2]; 2], [2, 2, 2, 2, 2]; [[[[[S; 1]; 2]; 1]; 3]; 2], [2, 3, 1, 2, 1];
            Vec<S>, [0]; Vec<S>, [1]; Vec<S>, [2]; Vec<S>, [4]; Vec<S>, [7]; Vec<S>, [8]; Vec<S>, [9]; Vec<S>, [16]; Vec<S>, [17]; Vec<S>, [33]; Vec<S>, [65]; Vec<S>, [130]; Vec<S>, [300]; Vec<S>, [1030])
    };
    (@ $f:ident; $($t:ty, $d:expr);*) => {{
        let n = [$(stringify!($t)),*].len();
        let c = engine::choose(n);
        let mut i = 0;
        $( if i == c { let d: &[usize] = &$d; exact_kinds(&[tn::<$t>()]); $f::<$t>(d); } i += 1; )*
        let _ = i;
    }};
}
type Cl<B> = <B as Buffer>::Class;
fn nm(m: &str, d: &[usize], k: &str) -> String { format!("{}::{} (rank {})", k, m, d.len()) }
fn entries<B: Buf<V = S>>(label: &str, b: &B, d: &[usize], f: &dyn Fn(&[usize]) -> S) {
    check(&format!("{}: shape", label), b.dims() == d, || format!("has {:?}, should have {:?}", b.dims(), d));
    if b.dims() == d {
        for ix in B::ixs(d) {
            prove(&format!("{}: every entry", label), b.at(&ix).same(f(&ix)));
        }
    }
}
fn e(n: &str, ix: &[usize]) -> S { S::fresh(&name(n, ix)) }

fn build<B: Buf<V = S, Field = S>>(d: &[usize]) {
    let k = tn::<B>();
    let sh = B::shp(d);
    let all = B::ixs(d);
    let bad = std::cell::Cell::new(false);
    fun(&nm("build", d, k));
    let b: B = real(|| Cl::<B>::build(sh, |ix| { let i = B::unix(ix); if !all.contains(&i) { bad.set(true); return S::c(0.0); } e("x", &i) }));
    entries("build", &b, d, &|i| e("x", i));
    check("asks the index function only for in-range indices", !bad.get(), || "the index function was called out of range".into());
    fun(&nm("full", d, k));
    let v = S::fresh("v");
    let b: B = real(|| Cl::<B>::full(sh, v));
    entries("full", &b, d, &|_| v);
    fun(&nm("zeroes", d, k));
    let b: B = real(|| Cl::<B>::zeroes::<S>(sh));
    entries("zeroes", &b, d, &|_| S::c(0.0));
    fun(&nm("ones", d, k));
    let b: B = real(|| Cl::<B>::ones::<S>(sh));
    entries("ones", &b, d, &|_| S::c(1.0));
    fun(&nm("diagonal", d, k));
    let b: B = real(|| Cl::<B>::diagonal(sh, v));
    entries("diagonal", &b, d, &|i| if diag(i) { v } else { S::c(0.0) });
    fun(&nm("identity", d, k));
    let b: B = real(|| Cl::<B>::identity::<S>(sh));
    entries("identity", &b, d, &|i| if diag(i) { S::c(1.0) } else { S::c(0.0) });
}
fn subset<B: Buf<V = S, Field = S>>(d: &[usize]) {
    let k = tn::<B>();
    let all = B::ixs(d);
    let n = all.len();
    // no index, each single one, all, all but each one (in reverse), alternating with repetitions,
    // one index repeated beyond the number of entries before the others
    // (of a large buffer: the first, the last and a middle single one)
    let c = if n <= 24 { engine::choose(2 * n + 4) } else { [0, 1, n / 2 + 1, n, n + 1, n + n / 2 + 1, 2 * n, 2 * n + 1, 2 * n + 2, 2 * n + 3][engine::choose(10)] };
    let pick: Vec<Vec<usize>> = if c == 0 { vec![] }
        else if c <= n { vec![all[c - 1].clone()] }
        else if c <= 2 * n { let s = c - n - 1; (0..n).rev().filter(|i| *i != s).map(|i| all[i].clone()).collect() }
        else if c == 2 * n + 1 { all.clone() }
        else if c == 2 * n + 2 { all.iter().take(1).cycle().take(n.min(1) * (n + 1)).chain(all.iter().rev()).cloned().collect() }
        else { all.iter().step_by(2).chain(all.iter().step_by(2)).cloned().collect() };
    fun(&nm("build_subset", d, k));
    let base = S::fresh("base");
    let it: Vec<_> = pick.iter().map(|i| B::ix(i)).collect();
    let b: B = real(|| Cl::<B>::build_subset(B::shp(d), base, it.into_iter(), |ix| e("x", &B::unix(ix))));
    entries("build_subset", &b, d, &|i| if pick.iter().any(|p| p == i) { e("x", i) } else { base });
}
fn read<B: Buf<V = S, Field = S>>(d: &[usize]) {
    let k = tn::<B>();
    let b = fresh_buf::<B>("x", d);
    fun(&nm("shape", d, k));
    let s = real(|| b.shape());
    check("shape", B::sdims(&s) == d, || format!("{:?} instead of {:?}", B::sdims(&s), d));
    for i in B::ixs(d) {
        fun(&nm("get_unchecked", d, k));
        let v = real(|| b.get_unchecked(B::ix(&i)));
        prove("the entry at the index", v.same(e("x", &i)));
        fun(&nm("get", d, k));
        match real(|| b.get(B::ix(&i))) {
            Some(v) => prove("the entry at the index", v.same(e("x", &i))),
            None => check("in range gives an entry", false, || format!("None at {:?}", i)),
        }
    }
    // out of range along each axis
    fun(&nm("get", d, k));
    for a in 0..(if k == "any kind" { 0 } else { d.len() }) {
        for far in [d[a], d[a] + 1, usize::MAX] {
            for rest in 0..2 {
                let i: Vec<usize> = (0..d.len()).map(|x| if x == a { far } else if rest == 0 { 0 } else { d[x].saturating_sub(1) }).collect();
                let v = real(|| b.get(B::ix(&i)));
                check("out of range gives nothing", v.is_none(), || format!("an entry at {:?} of {:?}", i, d));
            }
        }
    }
    fun(&nm("into_constant", d, k));
    let c = real(|| b.clone().into_constant().evaluate(Nc));
    match c { Ok(c) => entries("into_constant", &c, d, &|i| e("x", i)), Err(_) => check("evaluates", false, || "error".into()) }
}
fn maps<B: Buf<V = S, Field = S>>(d: &[usize])
where
    Cl<B>: Class<B::Shape, Buffer<S> = B>,
{
    let k = tn::<B>();
    let b = fresh_buf::<B>("x", d);
    // an arbitrary affine function (fresh coefficients)
    let (p, q) = (S::fresh("p"), S::fresh("q"));
    let g = |x: S| p * x + q;
    fun(&nm("map", d, k));
    let m: B = real(|| b.clone().map(g));
    entries("map", &m, d, &|i| g(e("x", i)));
    fun(&nm("map_ref", d, k));
    let m: B = real(|| b.map_ref(g));
    entries("map_ref", &m, d, &|i| g(e("x", i)));
    entries("map_ref leaves its operand alone", &b, d, &|i| e("x", i));
    fun(&nm("mutate", d, k));
    let mut m = b.clone();
    real(|| m.mutate(g));
    entries("mutate", &m, d, &|i| g(e("x", i)));
}
fn folds<B: Buf<V = S, Field = S>>(d: &[usize]) {
    let k = tn::<B>();
    let b = fresh_buf::<B>("x", d);
    fun(&nm("fold", d, k));
    let t: Vec<S> = real(|| b.fold(vec![S::c(77.0)], |mut t, x| { t.push(x); t }));
    let all = B::ixs(d);
    check("visits every entry once", t.len() == all.len() + 1, || format!("{} visits of {} entries", t.len() - 1, all.len()));
    if t.len() == all.len() + 1 {
        prove("starts from the given value", t[0].same(S::c(77.0)));
        for (x, i) in t[1..].iter().zip(&all) {
            prove("row-major order", x.same(e("x", i)));
        }
    }
    fun(&nm("sum", d, k));
    let s = real(|| b.sum());
    prove("sum of all entries", s.same(all.iter().fold(S::c(0.0), |a, i| a + e("x", i))));
    entries("folding leaves the buffer alone", &b, d, &|i| e("x", i));
}
fn k_build() { kinds!(build) }
fn k_subset() { kinds!(subset) }
fn k_read() { kinds!(read) }
fn k_maps() { kinds!(maps) }
fn k_folds() { kinds!(folds) }
const ZIPS: bool = false;
include!("prims.rs");
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    const B: &str = "rank 1: extents 0-9, 16, 17, 33, 65, 300 (vectors also 130, 1030); rank 2: small extents, 4x8, 8x4, 9x9, 16x17, 3x70, 70x3; ranks 3-5: small extents";
    vec![
        ("build", Mode::Real, k_build as fn(), B), ("build_subset", Mode::Real, k_subset as fn(), B), ("read", Mode::Real, k_read as fn(), B), ("map", Mode::Real, k_maps as fn(), B), ("fold", Mode::Real, k_folds as fn(), B),
    ].into_iter().chain(prim_list()).collect()
}

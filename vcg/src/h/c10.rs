// Contracts of the shapes: enumeration, bounds, joining, splitting, broadcasting.
#[allow(unused_imports)]
use crate::engine::{self, *};
use aegir::buffers::shapes::*;

#[allow(dead_code)]
type Unused = S;
trait IxX: Ix {
    fn of(i: &[usize]) -> Self;
    fn un(self) -> Vec<usize>;
}
impl IxX for () {
    fn of(_: &[usize]) {}
    fn un(self) -> Vec<usize> { vec![] }
}
impl IxX for usize {
    fn of(i: &[usize]) -> usize { i[0] }
    fn un(self) -> Vec<usize> { vec![self] }
}
impl<const D: usize> IxX for [usize; D] {
    fn of(i: &[usize]) -> Self { i.try_into().unwrap() }
    fn un(self) -> Vec<usize> { self.to_vec() }
}
fn all(d: &[usize]) -> Vec<Vec<usize>> { crate::stub::all_ix(d) }
fn short<T>() -> &'static str {
    let t = std::any::type_name::<T>();
    let t = t.split('<').next().unwrap();
    t.rsplit(':').next().unwrap()
}
fn enumerates<H: Shape>(h: H, d: &[usize])
where H::Index: IxX {
    let n = short::<H>();
    let want = all(d);
    fun(&format!("{}::cardinality (rank {})", n, d.len()));
    let c = real(|| h.cardinality());
    check("number of in-range indices", c == want.len(), || format!("{} for {:?}", c, d));
    fun(&format!("{}::indices (rank {})", n, d.len()));
    let mut it = real(|| h.indices());
    let mut got: Vec<Vec<usize>> = vec![];
    let mut hints = vec![];
    loop {
        hints.push(real(|| it.size_hint()));
        match real(|| it.next()) {
            Some(i) => got.push(i.un()),
            None => break,
        }
        if got.len() > want.len() { break; }
    }
    check("each in-range index once, in row-major order", got == want, || format!("{:?} for {:?}", got, d));
    let total = got.len();
    for (k, (lo, hi)) in hints.into_iter().enumerate().take(total + 1) {
        let left = total - k;
        check("the remaining-count hint bounds the remaining count", lo <= left && hi.map(|h| h >= left).unwrap_or(true), || format!("({}, {:?}) with {} left of {:?}", lo, hi, left, d));
    }
    for k in 0..total {
        let mut it = real(|| h.indices());
        for _ in 0..k { real(|| it.next()); }
        let left = real(|| it.count());
        check("counting the rest", left == total - k, || format!("{} with {} left of {:?}", left, total - k, d));
    }
    if total == 0 { let left = real(|| h.indices().count()); check("counting the rest", left == 0, || format!("{} for the empty {:?}", left, d)); }
    let l = real(|| h.indices().last());
    check("the last index", l.map(|i| i.un()) == want.last().cloned(), || format!("of {:?}", d));
    // however the iterator is advanced, it goes through the same indices
    let same = |how: &str, got: Vec<Vec<usize>>, w: Vec<Vec<usize>>| check("the same indices however the iterator is driven", got == w, || format!("{}: {:?} for {:?}, not {:?}", how, got, d, w));
    let one = |x: Option<H::Index>| x.map(|i| i.un()).into_iter().collect::<Vec<_>>();
    let ks: Vec<usize> = if total <= 40 { (0..=total).collect() } else { vec![0, 1, 2, total / 2, total - 1, total] };
    for &k in &ks {
        for skip in [0, 1, total / 2] {
            if skip + k > total { continue; }
            let mut it = real(|| h.indices());
            for _ in 0..skip { real(|| it.next()); }
            let v = real(|| it.nth(k));
            same(&format!("nth({}) after {}", k, skip), one(v), want.iter().skip(skip).skip(k).take(1).cloned().collect());
            if skip + k < total {
                let v = if skip + k + 1 < total { real(|| it.next()) } else { None };
                same(&format!("next after nth({}) after {}", k, skip), one(v), want.iter().skip(skip + k + 1).take(1).cloned().collect());
            }
        }
        let v: Vec<_> = real(|| h.indices().skip(k).map(|i| i.un()).collect());
        same(&format!("skip({})", k), v, want.iter().skip(k).cloned().collect());
        let v: Vec<_> = real(|| h.indices().step_by(k + 1).map(|i| i.un()).collect());
        same(&format!("step_by({})", k + 1), v, want.iter().step_by(k + 1).cloned().collect());
        let v: Vec<_> = real(|| h.indices().take(k).map(|i| i.un()).collect());
        same(&format!("take({})", k), v, want.iter().take(k).cloned().collect());
        let mut it = real(|| h.indices());
        for _ in 0..k { real(|| it.next()); }
        if k < total {
            let mut v = vec![];
            real(|| it.for_each(|i| v.push(i.un())));
            same(&format!("for_each after {}", k), v, want.iter().skip(k).cloned().collect());
        }
    }
    let mut v = real(|| h.indices().fold(vec![], |mut v, i| { v.push(i.un()); v }));
    same("fold", v.clone(), want.clone());
    v.clear();
    for i in real(|| h.indices()) { v.push(i.un()); if v.len() > want.len() { break; } }
    same("for", v, want.clone());
    fun(&format!("{}::contains (rank {})", n, d.len()));
    for i in &want {
        let ok = real(|| h.contains(H::Index::of(i)));
        check("accepts every in-range index", ok, || format!("{:?} in {:?}", i, d));
    }
    for a in 0..d.len() {
        for far in [d[a], d[a].wrapping_add(1), usize::MAX, usize::MAX / 2 + 1] {
            let mut i: Vec<usize> = d.iter().map(|x| x.saturating_sub(1)).collect();
            i[a] = far;
            let ok = real(|| h.contains(H::Index::of(&i)));
            check("rejects every index with a component at or above its extent", !ok, || format!("{:?} in {:?}", i, d));
        }
    }
    for i in all(&vec![2; d.len()]) {
        let ok = real(|| h.contains(H::Index::of(&i)));
        check("an index is accepted exactly when every component is below its extent", ok == i.iter().zip(d).all(|(a, b)| a < b), || format!("{:?} in {:?}", i, d));
    }
    fun(&format!("{}: rank", n));
    check("rank", H::DIM == d.len() && h.is_scalar() == (d.len() == 0) && h.is_vector() == (d.len() == 1) && h.is_matrix() == (d.len() == 2), || format!("{}", H::DIM));
}
fn same_err<L: Shape + PartialEq, R: Shape + PartialEq, T: std::fmt::Debug>(r: Result<T, IncompatibleShapes<L, R>>, l: L, rr: R) -> bool {
    match r {
        Err(e) => {
            let v = e.reverse();
            e.left == l && e.right == rr && v.left == rr && v.right == l
        }
        Ok(_) => false,
    }
}
fn fixed<H: Shape + PartialEq + Broadcast<Shape = H> + Broadcast<S0, Shape = H>>(h: H, d: &[usize])
where H::Index: IxX, S0: Broadcast<H, Shape = H> {
    enumerates(h, d);
    fun(&format!("{}::broadcast", short::<H>()));
    let r = real(|| Broadcast::<H>::broadcast(h, h));
    check("with itself gives itself", matches!(r, Ok(x) if x == h), || "differs".into());
    let r = real(|| Broadcast::<S0>::broadcast(h, S0));
    check("with a scalar gives itself", matches!(r, Ok(x) if x == h), || "differs".into());
    let r = real(|| Broadcast::<H>::broadcast(S0, h));
    check("a scalar with it gives it", matches!(r, Ok(x) if x == h), || "differs".into());
}
fn dynamic<const D: usize>(d: [usize; D]) {
    let h = SDynamic(d);
    enumerates(h, &d);
    fun("SDynamic::broadcast");
    let r = real(|| h.broadcast(S0));
    check("with a scalar gives itself", matches!(r, Ok(x) if x == h), || "differs".into());
    let r = real(|| S0.broadcast(h));
    check("a scalar with it gives it", matches!(r, Ok(x) if x == h), || "differs".into());
    for a in 0..=D {
        for delta in [1, 2, usize::MAX] {
            let mut o = d;
            if a < D { o[a] = o[a].wrapping_add(delta) }
            let o = SDynamic(o);
            let r = real(|| Broadcast::<SDynamic<D>>::broadcast(h, o));
            if a == D { check("equal shapes", matches!(r, Ok(x) if x == h), || "differs".into()) }
            else { check("different shapes are rejected, naming left and right in order", same_err(r, h, o), || format!("{:?} and {:?}", h, o)) }
            check("indexing", d.iter().enumerate().all(|(i, x)| h[i] == *x), || "differs".into());
        }
    }
    // reversing the extents keeps the cardinality but not the shape
    let mut rev = d;
    rev.reverse();
    let r = real(|| Broadcast::<SDynamic<D>>::broadcast(h, SDynamic(rev)));
    check("equal shapes only", r.is_ok() == (rev == d), || format!("{:?} and {:?}", d, rev));
    check("is_equivalent", real(|| h.is_equivalent(&SDynamic(rev))), || "same cardinality".into());
}
/// hints for shapes too large to enumerate
fn huge() {
    let m = usize::MAX;
    let c: [[usize; 3]; 6] = [[m, 1, 1], [m, 2, 2], [2, m, 2], [m, m, m], [1 << 22, 1 << 22, 1 << 22], [1, 1 << 40, 3]];
    fun("SDynamic::indices (rank 3, huge)");
    for d in c {
        let h = SDynamic(d);
        let mut it = real(|| h.indices());
        for k in 0u128..20 {
            // the exact remaining count may exceed u128 only for [MAX; 3]
            let total = (d[0] as u128).checked_mul(d[1] as u128).and_then(|x| x.checked_mul(d[2] as u128));
            let (lo, hi) = real(|| it.size_hint());
            if let Some(t) = total {
                check("the hint bounds the remaining count", lo as u128 <= t - k && hi.map(|x| x as u128 >= t - k).unwrap_or(true), || format!("({}, {:?}) after {} of {:?}", lo, hi, k, d));
            } else {
                check("the hint bounds the remaining count", hi.is_none(), || format!("({}, {:?}) after {} of {:?}", lo, hi, k, d));
            }
            let i = real(|| it.next());
            let want = { let k = k as usize; let (a, b) = (k % d[2], k / d[2]); [b / d[1], b % d[1], a] };
            check("row-major order", i == Some(want), || format!("{:?} instead of {:?}", i, want));
        }
    }
}
/// joining: extents concatenated, indices joined component by component
fn joins<L: Shape + Concat<R, Shape = O>, R: Shape, O: Shape + PartialEq>(l: L, r: R, o: O, dl: &[usize], dr: &[usize])
where L::Index: IxX, R::Index: IxX, O::Index: IxX {
    fun(&format!("Concat for {} and {}", short::<L>(), short::<R>()));
    let j = real(|| l.concat(r));
    check("concatenates the extents", j == o, || format!("{:?}", j));
    for i in all(&vec![2; dl.len() + dr.len()]) {
        let i: Vec<usize> = i.iter().enumerate().map(|(k, x)| if *x == 0 { k + 1 } else { usize::MAX - k }).collect();
        let (a, b) = i.split_at(dl.len());
        let c = real(|| L::concat_indices(L::Index::of(a), R::Index::of(b))).un();
        check("joins the indices component by component", c == i, || format!("{:?} and {:?} gave {:?}", a, b, c));
    }
}
fn splits<O: Split + PartialEq>(o: O, l: O::Left, r: O::Right, d: &[usize])
where O::Index: IxX, O::Left: PartialEq, O::Right: PartialEq, IndexOf<O::Left>: IxX, IndexOf<O::Right>: IxX {
    fun(&format!("Split for {}", short::<O>()));
    let (a, b) = real(|| o.split());
    check("splits the extents", a == l && b == r, || format!("{:?} {:?}", a, b));
    check("joining undoes splitting", real(|| a.concat(b)) == o, || "differs".into());
    for i in all(&vec![2; d.len()]) {
        let i: Vec<usize> = i.iter().enumerate().map(|(k, x)| if *x == 0 { k + 1 } else { usize::MAX - k }).collect();
        let (a, b) = real(|| O::split_index(O::Index::of(&i)));
        let (a, b) = (a.un(), b.un());
        check("splits the index", [a.clone(), b.clone()].concat() == i && a.len() == <O::Left as Shape>::DIM, || format!("{:?} gave {:?} {:?}", i, a, b));
    }
}
fn diagonal() {
    fun("Ix::is_diagonal");
    check("()", real(|| ().is_diagonal()), || "".into());
    for i in [0, 1, 7, usize::MAX] { check("usize", real(|| i.is_diagonal()), || "".into()); }
    check("[usize; 0]", real(|| <[usize; 0]>::of(&[]).is_diagonal()), || "".into());
    fn at<const D: usize>() {
        for v in [[0, 1, 2], [5, 6, 1 << 40], [usize::MAX, 0, usize::MAX - 1]] {
            for i in all(&vec![3; D]) {
                let i: Vec<usize> = i.iter().map(|k| v[*k]).collect();
                let g = real(|| <[usize; D]>::of(&i).is_diagonal());
                check("exactly when all components are equal", g == i.iter().all(|x| *x == i[0]), || format!("{:?}", i));
            }
        }
    }
    at::<1>(); at::<2>(); at::<3>(); at::<4>(); at::<5>(); at::<6>();
}
fn k_fixed() {
    let v: Vec<fn()> = vec![
        || fixed(S1::<7>, &[7]),
        || fixed(S1::<8>, &[8]),
        || fixed(S1::<9>, &[9]),
        || fixed(S1::<16>, &[16]),
        || fixed(S1::<17>, &[17]),
        || fixed(S1::<64>, &[64]),
        || fixed(S1::<65>, &[65]),
        || fixed(S1::<257>, &[257]),
        || fixed(S1::<1000>, &[1000]),
        || fixed(S2::<4, 4>, &[4, 4]),
        || fixed(S2::<4, 5>, &[4, 5]),
        || fixed(S2::<8, 8>, &[8, 8]),
        || fixed(S2::<9, 7>, &[9, 7]),
        || fixed(S2::<16, 17>, &[16, 17]),
        || fixed(S2::<64, 3>, &[64, 3]),
        || fixed(S2::<3, 65>, &[3, 65]),
        || enumerates(S0, &[]),
        || fixed(S1::<0>, &[0]),
        || fixed(S1::<1>, &[1]),
        || fixed(S1::<2>, &[2]),
        || fixed(S1::<3>, &[3]),
        || fixed(S1::<4>, &[4]),
        || fixed(S1::<5>, &[5]),
        || fixed(S2::<0, 0>, &[0, 0]),
        || fixed(S2::<0, 1>, &[0, 1]),
        || fixed(S2::<0, 2>, &[0, 2]),
        || fixed(S2::<0, 3>, &[0, 3]),
        || fixed(S2::<1, 0>, &[1, 0]),
        || fixed(S2::<1, 1>, &[1, 1]),
        || fixed(S2::<1, 2>, &[1, 2]),
        || fixed(S2::<1, 3>, &[1, 3]),
        || fixed(S2::<2, 0>, &[2, 0]),
        || fixed(S2::<2, 1>, &[2, 1]),
        || fixed(S2::<2, 2>, &[2, 2]),
        || fixed(S2::<2, 3>, &[2, 3]),
        || fixed(S2::<3, 0>, &[3, 0]),
        || fixed(S2::<3, 1>, &[3, 1]),
        || fixed(S2::<3, 2>, &[3, 2]),
        || fixed(S2::<3, 3>, &[3, 3]),
        || fixed(S3::<0, 0, 0>, &[0, 0, 0]),
        || fixed(S3::<0, 0, 1>, &[0, 0, 1]),
        || fixed(S3::<0, 0, 2>, &[0, 0, 2]),
        || fixed(S3::<0, 0, 3>, &[0, 0, 3]),
        || fixed(S3::<0, 1, 0>, &[0, 1, 0]),
        || fixed(S3::<0, 1, 1>, &[0, 1, 1]),
        || fixed(S3::<0, 1, 2>, &[0, 1, 2]),
        || fixed(S3::<0, 1, 3>, &[0, 1, 3]),
        || fixed(S3::<0, 2, 0>, &[0, 2, 0]),
        || fixed(S3::<0, 2, 1>, &[0, 2, 1]),
        || fixed(S3::<0, 2, 2>, &[0, 2, 2]),
        || fixed(S3::<0, 2, 3>, &[0, 2, 3]),
        || fixed(S3::<0, 3, 0>, &[0, 3, 0]),
        || fixed(S3::<0, 3, 1>, &[0, 3, 1]),
        || fixed(S3::<0, 3, 2>, &[0, 3, 2]),
        || fixed(S3::<0, 3, 3>, &[0, 3, 3]),
        || fixed(S3::<1, 0, 0>, &[1, 0, 0]),
        || fixed(S3::<1, 0, 1>, &[1, 0, 1]),
        || fixed(S3::<1, 0, 2>, &[1, 0, 2]),
        || fixed(S3::<1, 0, 3>, &[1, 0, 3]),
        || fixed(S3::<1, 1, 0>, &[1, 1, 0]),
        || fixed(S3::<1, 1, 1>, &[1, 1, 1]),
        || fixed(S3::<1, 1, 2>, &[1, 1, 2]),
        || fixed(S3::<1, 1, 3>, &[1, 1, 3]),
        || fixed(S3::<1, 2, 0>, &[1, 2, 0]),
        || fixed(S3::<1, 2, 1>, &[1, 2, 1]),
        || fixed(S3::<1, 2, 2>, &[1, 2, 2]),
        || fixed(S3::<1, 2, 3>, &[1, 2, 3]),
        || fixed(S3::<1, 3, 0>, &[1, 3, 0]),
        || fixed(S3::<1, 3, 1>, &[1, 3, 1]),
        || fixed(S3::<1, 3, 2>, &[1, 3, 2]),
        || fixed(S3::<1, 3, 3>, &[1, 3, 3]),
        || fixed(S3::<2, 0, 0>, &[2, 0, 0]),
        || fixed(S3::<2, 0, 1>, &[2, 0, 1]),
        || fixed(S3::<2, 0, 2>, &[2, 0, 2]),
        || fixed(S3::<2, 0, 3>, &[2, 0, 3]),
        || fixed(S3::<2, 1, 0>, &[2, 1, 0]),
        || fixed(S3::<2, 1, 1>, &[2, 1, 1]),
        || fixed(S3::<2, 1, 2>, &[2, 1, 2]),
        || fixed(S3::<2, 1, 3>, &[2, 1, 3]),
        || fixed(S3::<2, 2, 0>, &[2, 2, 0]),
        || fixed(S3::<2, 2, 1>, &[2, 2, 1]),
        || fixed(S3::<2, 2, 2>, &[2, 2, 2]),
        || fixed(S3::<2, 2, 3>, &[2, 2, 3]),
        || fixed(S3::<2, 3, 0>, &[2, 3, 0]),
        || fixed(S3::<2, 3, 1>, &[2, 3, 1]),
        || fixed(S3::<2, 3, 2>, &[2, 3, 2]),
        || fixed(S3::<2, 3, 3>, &[2, 3, 3]),
        || fixed(S3::<3, 0, 0>, &[3, 0, 0]),
        || fixed(S3::<3, 0, 1>, &[3, 0, 1]),
        || fixed(S3::<3, 0, 2>, &[3, 0, 2]),
        || fixed(S3::<3, 0, 3>, &[3, 0, 3]),
        || fixed(S3::<3, 1, 0>, &[3, 1, 0]),
        || fixed(S3::<3, 1, 1>, &[3, 1, 1]),
        || fixed(S3::<3, 1, 2>, &[3, 1, 2]),
        || fixed(S3::<3, 1, 3>, &[3, 1, 3]),
        || fixed(S3::<3, 2, 0>, &[3, 2, 0]),
        || fixed(S3::<3, 2, 1>, &[3, 2, 1]),
        || fixed(S3::<3, 2, 2>, &[3, 2, 2]),
        || fixed(S3::<3, 2, 3>, &[3, 2, 3]),
        || fixed(S3::<3, 3, 0>, &[3, 3, 0]),
        || fixed(S3::<3, 3, 1>, &[3, 3, 1]),
        || fixed(S3::<3, 3, 2>, &[3, 3, 2]),
        || fixed(S3::<3, 3, 3>, &[3, 3, 3]),
        || fixed(S4::<0, 2, 2, 2>, &[0, 2, 2, 2]),
        || fixed(S4::<1, 1, 1, 2>, &[1, 1, 1, 2]),
        || fixed(S4::<1, 1, 2, 2>, &[1, 1, 2, 2]),
        || fixed(S4::<1, 1, 3, 3>, &[1, 1, 3, 3]),
        || fixed(S4::<1, 2, 1, 2>, &[1, 2, 1, 2]),
        || fixed(S4::<1, 2, 2, 1>, &[1, 2, 2, 1]),
        || fixed(S4::<1, 2, 2, 3>, &[1, 2, 2, 3]),
        || fixed(S4::<1, 2, 3, 2>, &[1, 2, 3, 2]),
        || fixed(S4::<1, 3, 2, 1>, &[1, 3, 2, 1]),
        || fixed(S4::<2, 0, 2, 2>, &[2, 0, 2, 2]),
        || fixed(S4::<2, 1, 1, 1>, &[2, 1, 1, 1]),
        || fixed(S4::<2, 1, 1, 2>, &[2, 1, 1, 2]),
        || fixed(S4::<2, 1, 1, 3>, &[2, 1, 1, 3]),
        || fixed(S4::<2, 2, 0, 2>, &[2, 2, 0, 2]),
        || fixed(S4::<2, 2, 1, 1>, &[2, 2, 1, 1]),
        || fixed(S4::<2, 2, 1, 3>, &[2, 2, 1, 3]),
        || fixed(S4::<2, 2, 2, 0>, &[2, 2, 2, 0]),
        || fixed(S4::<2, 2, 2, 1>, &[2, 2, 2, 1]),
        || fixed(S4::<2, 2, 2, 2>, &[2, 2, 2, 2]),
        || fixed(S4::<2, 2, 3, 1>, &[2, 2, 3, 1]),
        || fixed(S4::<2, 2, 3, 2>, &[2, 2, 3, 2]),
        || fixed(S4::<2, 3, 2, 3>, &[2, 3, 2, 3]),
        || fixed(S4::<3, 2, 1, 2>, &[3, 2, 1, 2]),
        || fixed(S4::<3, 3, 2, 2>, &[3, 3, 2, 2]),
        || fixed(S5::<0, 2, 2, 2, 2>, &[0, 2, 2, 2, 2]),
        || fixed(S5::<1, 1, 1, 1, 1>, &[1, 1, 1, 1, 1]),
        || fixed(S5::<1, 1, 1, 2, 2>, &[1, 1, 1, 2, 2]),
        || fixed(S5::<1, 1, 2, 1, 2>, &[1, 1, 2, 1, 2]),
        || fixed(S5::<1, 1, 3, 3, 2>, &[1, 1, 3, 3, 2]),
        || fixed(S5::<1, 3, 1, 1, 1>, &[1, 3, 1, 1, 1]),
        || fixed(S5::<2, 0, 2, 2, 2>, &[2, 0, 2, 2, 2]),
        || fixed(S5::<2, 1, 1, 1, 1>, &[2, 1, 1, 1, 1]),
        || fixed(S5::<2, 1, 1, 1, 3>, &[2, 1, 1, 1, 3]),
        || fixed(S5::<2, 1, 2, 2, 2>, &[2, 1, 2, 2, 2]),
        || fixed(S5::<2, 1, 3, 2, 2>, &[2, 1, 3, 2, 2]),
        || fixed(S5::<2, 2, 0, 2, 2>, &[2, 2, 0, 2, 2]),
        || fixed(S5::<2, 2, 1, 2, 1>, &[2, 2, 1, 2, 1]),
        || fixed(S5::<2, 2, 1, 2, 2>, &[2, 2, 1, 2, 2]),
        || fixed(S5::<2, 2, 1, 2, 3>, &[2, 2, 1, 2, 3]),
        || fixed(S5::<2, 2, 1, 3, 2>, &[2, 2, 1, 3, 2]),
        || fixed(S5::<2, 2, 2, 0, 2>, &[2, 2, 2, 0, 2]),
        || fixed(S5::<2, 2, 2, 2, 0>, &[2, 2, 2, 2, 0]),
        || fixed(S5::<2, 2, 2, 2, 2>, &[2, 2, 2, 2, 2]),
        || fixed(S5::<2, 2, 3, 2, 3>, &[2, 2, 3, 2, 3]),
        || fixed(S5::<2, 3, 1, 2, 1>, &[2, 3, 1, 2, 1]),
        || fixed(S5::<2, 3, 3, 1, 3>, &[2, 3, 3, 1, 3]),
        || fixed(S5::<3, 2, 1, 1, 2>, &[3, 2, 1, 1, 2]),
        || fixed(S5::<3, 2, 2, 3, 1>, &[3, 2, 2, 3, 1]),
        || fixed(S6::<0, 2, 2, 2, 2, 2>, &[0, 2, 2, 2, 2, 2]),
        || fixed(S6::<1, 1, 2, 3, 3, 3>, &[1, 1, 2, 3, 3, 3]),
        || fixed(S6::<1, 1, 3, 3, 2, 3>, &[1, 1, 3, 3, 2, 3]),
        || fixed(S6::<1, 2, 1, 1, 2, 3>, &[1, 2, 1, 1, 2, 3]),
        || fixed(S6::<1, 2, 2, 1, 2, 2>, &[1, 2, 2, 1, 2, 2]),
        || fixed(S6::<1, 3, 1, 2, 2, 1>, &[1, 3, 1, 2, 2, 1]),
        || fixed(S6::<1, 3, 1, 3, 1, 1>, &[1, 3, 1, 3, 1, 1]),
        || fixed(S6::<1, 3, 2, 2, 2, 1>, &[1, 3, 2, 2, 2, 1]),
        || fixed(S6::<1, 3, 3, 1, 1, 3>, &[1, 3, 3, 1, 1, 3]),
        || fixed(S6::<2, 0, 2, 2, 2, 2>, &[2, 0, 2, 2, 2, 2]),
        || fixed(S6::<2, 1, 1, 1, 1, 3>, &[2, 1, 1, 1, 1, 3]),
        || fixed(S6::<2, 2, 0, 2, 2, 2>, &[2, 2, 0, 2, 2, 2]),
        || fixed(S6::<2, 2, 1, 1, 2, 1>, &[2, 2, 1, 1, 2, 1]),
        || fixed(S6::<2, 2, 1, 2, 2, 1>, &[2, 2, 1, 2, 2, 1]),
        || fixed(S6::<2, 2, 1, 2, 3, 3>, &[2, 2, 1, 2, 3, 3]),
        || fixed(S6::<2, 2, 2, 0, 2, 2>, &[2, 2, 2, 0, 2, 2]),
        || fixed(S6::<2, 2, 2, 2, 0, 2>, &[2, 2, 2, 2, 0, 2]),
        || fixed(S6::<2, 2, 2, 2, 2, 0>, &[2, 2, 2, 2, 2, 0]),
        || fixed(S6::<2, 2, 2, 2, 2, 2>, &[2, 2, 2, 2, 2, 2]),
        || fixed(S6::<2, 2, 2, 3, 2, 2>, &[2, 2, 2, 3, 2, 2]),
        || fixed(S6::<3, 1, 2, 2, 1, 1>, &[3, 1, 2, 2, 1, 1]),
        || fixed(S6::<3, 2, 1, 1, 1, 2>, &[3, 2, 1, 1, 1, 2]),
        || fixed(S6::<3, 2, 2, 2, 3, 1>, &[3, 2, 2, 2, 3, 1]),
        || fixed(S6::<3, 3, 3, 1, 2, 1>, &[3, 3, 3, 1, 2, 1])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
fn k_dyn() {
    let v: Vec<Vec<usize>> = (0..6).chain([7, 8, 9, 16, 17, 64, 65, 257, 1000]).map(|n| vec![n]).chain([vec![7, 9], vec![8, 8], vec![16, 17], vec![64, 3], vec![3, 65], vec![8, 9, 7], vec![5, 4, 6, 7]]).chain(all(&[5, 5])).chain(all(&[4, 4, 4])).chain(all(&[3, 3, 3, 3])).chain(all(&[3, 3, 3, 3, 3])).chain(all(&[2; 6]).into_iter().map(|d| d.into_iter().map(|x| x + 1).collect()))
        .chain((0..6).map(|k| (0..6).map(|i| if i == k { 0 } else { 2 }).collect())).chain([vec![]]).collect();
    let c = engine::choose(v.len());
    fn a<const D: usize>(v: &[usize]) -> [usize; D] { v.try_into().unwrap() }
    let d = &v[c][..];
    match d.len() { 0 => dynamic::<0>([]), 1 => dynamic::<1>(a(d)), 2 => dynamic::<2>(a(d)), 3 => dynamic::<3>(a(d)), 4 => dynamic::<4>(a(d)), 5 => dynamic::<5>(a(d)), _ => dynamic::<6>(a(d)) }
}
fn k_join() {
    let v: Vec<fn()> = vec![
        || joins(S0, S0, S0, &[], &[]),
        || joins(S0, S1::<2>, S1::<2>, &[], &[2]),
        || joins(S0, S2::<2, 3>, S2::<2, 3>, &[], &[2, 3]),
        || joins(S0, S3::<2, 3, 5>, S3::<2, 3, 5>, &[], &[2, 3, 5]),
        || joins(S0, S4::<2, 3, 5, 7>, S4::<2, 3, 5, 7>, &[], &[2, 3, 5, 7]),
        || joins(S0, S5::<2, 3, 5, 7, 4>, S5::<2, 3, 5, 7, 4>, &[], &[2, 3, 5, 7, 4]),
        || joins(S1::<2>, S0, S1::<2>, &[2], &[]),
        || joins(S1::<2>, S1::<3>, S2::<2, 3>, &[2], &[3]),
        || joins(S1::<2>, S2::<3, 5>, S3::<2, 3, 5>, &[2], &[3, 5]),
        || joins(S1::<2>, S3::<3, 5, 7>, S4::<2, 3, 5, 7>, &[2], &[3, 5, 7]),
        || joins(S1::<2>, S4::<3, 5, 7, 4>, S5::<2, 3, 5, 7, 4>, &[2], &[3, 5, 7, 4]),
        || joins(S1::<2>, S5::<3, 5, 7, 4, 6>, S6::<2, 3, 5, 7, 4, 6>, &[2], &[3, 5, 7, 4, 6]),
        || joins(S2::<2, 3>, S0, S2::<2, 3>, &[2, 3], &[]),
        || joins(S2::<2, 3>, S1::<5>, S3::<2, 3, 5>, &[2, 3], &[5]),
        || joins(S2::<2, 3>, S2::<5, 7>, S4::<2, 3, 5, 7>, &[2, 3], &[5, 7]),
        || joins(S2::<2, 3>, S3::<5, 7, 4>, S5::<2, 3, 5, 7, 4>, &[2, 3], &[5, 7, 4]),
        || joins(S2::<2, 3>, S4::<5, 7, 4, 6>, S6::<2, 3, 5, 7, 4, 6>, &[2, 3], &[5, 7, 4, 6]),
        || joins(S3::<2, 3, 5>, S0, S3::<2, 3, 5>, &[2, 3, 5], &[]),
        || joins(S3::<2, 3, 5>, S1::<7>, S4::<2, 3, 5, 7>, &[2, 3, 5], &[7]),
        || joins(S3::<2, 3, 5>, S2::<7, 4>, S5::<2, 3, 5, 7, 4>, &[2, 3, 5], &[7, 4]),
        || joins(S3::<2, 3, 5>, S3::<7, 4, 6>, S6::<2, 3, 5, 7, 4, 6>, &[2, 3, 5], &[7, 4, 6]),
        || joins(S4::<2, 3, 5, 7>, S0, S4::<2, 3, 5, 7>, &[2, 3, 5, 7], &[]),
        || joins(S4::<2, 3, 5, 7>, S1::<4>, S5::<2, 3, 5, 7, 4>, &[2, 3, 5, 7], &[4]),
        || joins(S4::<2, 3, 5, 7>, S2::<4, 6>, S6::<2, 3, 5, 7, 4, 6>, &[2, 3, 5, 7], &[4, 6]),
        || joins(S5::<2, 3, 5, 7, 4>, S0, S5::<2, 3, 5, 7, 4>, &[2, 3, 5, 7, 4], &[]),
        || joins(S5::<2, 3, 5, 7, 4>, S1::<6>, S6::<2, 3, 5, 7, 4, 6>, &[2, 3, 5, 7, 4], &[6]),
        || joins(SDynamic::<0>([]), SDynamic::<0>([]), SDynamic::<0>([]), &[], &[]),
        || joins(SDynamic::<0>([]), SDynamic::<1>([2]), SDynamic::<1>([2]), &[], &[2]),
        || joins(SDynamic::<0>([]), SDynamic::<2>([2, 3]), SDynamic::<2>([2, 3]), &[], &[2, 3]),
        || joins(SDynamic::<0>([]), SDynamic::<3>([2, 3, 5]), SDynamic::<3>([2, 3, 5]), &[], &[2, 3, 5]),
        || joins(SDynamic::<0>([]), SDynamic::<4>([2, 3, 5, 7]), SDynamic::<4>([2, 3, 5, 7]), &[], &[2, 3, 5, 7]),
        || joins(SDynamic::<0>([]), SDynamic::<5>([2, 3, 5, 7, 4]), SDynamic::<5>([2, 3, 5, 7, 4]), &[], &[2, 3, 5, 7, 4]),
        || joins(SDynamic::<0>([]), SDynamic::<6>([2, 3, 5, 7, 4, 6]), SDynamic::<6>([2, 3, 5, 7, 4, 6]), &[], &[2, 3, 5, 7, 4, 6]),
        || joins(SDynamic::<1>([2]), SDynamic::<0>([]), SDynamic::<1>([2]), &[2], &[]),
        || joins(SDynamic::<1>([2]), SDynamic::<1>([3]), SDynamic::<2>([2, 3]), &[2], &[3]),
        || joins(SDynamic::<1>([2]), SDynamic::<2>([3, 5]), SDynamic::<3>([2, 3, 5]), &[2], &[3, 5]),
        || joins(SDynamic::<1>([2]), SDynamic::<3>([3, 5, 7]), SDynamic::<4>([2, 3, 5, 7]), &[2], &[3, 5, 7]),
        || joins(SDynamic::<1>([2]), SDynamic::<4>([3, 5, 7, 4]), SDynamic::<5>([2, 3, 5, 7, 4]), &[2], &[3, 5, 7, 4]),
        || joins(SDynamic::<1>([2]), SDynamic::<5>([3, 5, 7, 4, 6]), SDynamic::<6>([2, 3, 5, 7, 4, 6]), &[2], &[3, 5, 7, 4, 6]),
        || joins(SDynamic::<1>([2]), SDynamic::<6>([3, 5, 7, 4, 6, 9]), SDynamic::<7>([2, 3, 5, 7, 4, 6, 9]), &[2], &[3, 5, 7, 4, 6, 9]),
        || joins(SDynamic::<2>([2, 3]), SDynamic::<0>([]), SDynamic::<2>([2, 3]), &[2, 3], &[]),
        || joins(SDynamic::<2>([2, 3]), SDynamic::<1>([5]), SDynamic::<3>([2, 3, 5]), &[2, 3], &[5]),
        || joins(SDynamic::<2>([2, 3]), SDynamic::<2>([5, 7]), SDynamic::<4>([2, 3, 5, 7]), &[2, 3], &[5, 7]),
        || joins(SDynamic::<2>([2, 3]), SDynamic::<3>([5, 7, 4]), SDynamic::<5>([2, 3, 5, 7, 4]), &[2, 3], &[5, 7, 4]),
        || joins(SDynamic::<2>([2, 3]), SDynamic::<4>([5, 7, 4, 6]), SDynamic::<6>([2, 3, 5, 7, 4, 6]), &[2, 3], &[5, 7, 4, 6]),
        || joins(SDynamic::<2>([2, 3]), SDynamic::<5>([5, 7, 4, 6, 9]), SDynamic::<7>([2, 3, 5, 7, 4, 6, 9]), &[2, 3], &[5, 7, 4, 6, 9]),
        || joins(SDynamic::<2>([2, 3]), SDynamic::<6>([5, 7, 4, 6, 9, 8]), SDynamic::<8>([2, 3, 5, 7, 4, 6, 9, 8]), &[2, 3], &[5, 7, 4, 6, 9, 8]),
        || joins(SDynamic::<3>([2, 3, 5]), SDynamic::<0>([]), SDynamic::<3>([2, 3, 5]), &[2, 3, 5], &[]),
        || joins(SDynamic::<3>([2, 3, 5]), SDynamic::<1>([7]), SDynamic::<4>([2, 3, 5, 7]), &[2, 3, 5], &[7]),
        || joins(SDynamic::<3>([2, 3, 5]), SDynamic::<2>([7, 4]), SDynamic::<5>([2, 3, 5, 7, 4]), &[2, 3, 5], &[7, 4]),
        || joins(SDynamic::<3>([2, 3, 5]), SDynamic::<3>([7, 4, 6]), SDynamic::<6>([2, 3, 5, 7, 4, 6]), &[2, 3, 5], &[7, 4, 6]),
        || joins(SDynamic::<3>([2, 3, 5]), SDynamic::<4>([7, 4, 6, 9]), SDynamic::<7>([2, 3, 5, 7, 4, 6, 9]), &[2, 3, 5], &[7, 4, 6, 9]),
        || joins(SDynamic::<3>([2, 3, 5]), SDynamic::<5>([7, 4, 6, 9, 8]), SDynamic::<8>([2, 3, 5, 7, 4, 6, 9, 8]), &[2, 3, 5], &[7, 4, 6, 9, 8]),
        || joins(SDynamic::<3>([2, 3, 5]), SDynamic::<6>([7, 4, 6, 9, 8, 1]), SDynamic::<9>([2, 3, 5, 7, 4, 6, 9, 8, 1]), &[2, 3, 5], &[7, 4, 6, 9, 8, 1]),
        || joins(SDynamic::<4>([2, 3, 5, 7]), SDynamic::<0>([]), SDynamic::<4>([2, 3, 5, 7]), &[2, 3, 5, 7], &[]),
        || joins(SDynamic::<4>([2, 3, 5, 7]), SDynamic::<1>([4]), SDynamic::<5>([2, 3, 5, 7, 4]), &[2, 3, 5, 7], &[4]),
        || joins(SDynamic::<4>([2, 3, 5, 7]), SDynamic::<2>([4, 6]), SDynamic::<6>([2, 3, 5, 7, 4, 6]), &[2, 3, 5, 7], &[4, 6]),
        || joins(SDynamic::<4>([2, 3, 5, 7]), SDynamic::<3>([4, 6, 9]), SDynamic::<7>([2, 3, 5, 7, 4, 6, 9]), &[2, 3, 5, 7], &[4, 6, 9]),
        || joins(SDynamic::<4>([2, 3, 5, 7]), SDynamic::<4>([4, 6, 9, 8]), SDynamic::<8>([2, 3, 5, 7, 4, 6, 9, 8]), &[2, 3, 5, 7], &[4, 6, 9, 8]),
        || joins(SDynamic::<4>([2, 3, 5, 7]), SDynamic::<5>([4, 6, 9, 8, 1]), SDynamic::<9>([2, 3, 5, 7, 4, 6, 9, 8, 1]), &[2, 3, 5, 7], &[4, 6, 9, 8, 1]),
        || joins(SDynamic::<4>([2, 3, 5, 7]), SDynamic::<6>([4, 6, 9, 8, 1, 0]), SDynamic::<10>([2, 3, 5, 7, 4, 6, 9, 8, 1, 0]), &[2, 3, 5, 7], &[4, 6, 9, 8, 1, 0]),
        || joins(SDynamic::<5>([2, 3, 5, 7, 4]), SDynamic::<0>([]), SDynamic::<5>([2, 3, 5, 7, 4]), &[2, 3, 5, 7, 4], &[]),
        || joins(SDynamic::<5>([2, 3, 5, 7, 4]), SDynamic::<1>([6]), SDynamic::<6>([2, 3, 5, 7, 4, 6]), &[2, 3, 5, 7, 4], &[6]),
        || joins(SDynamic::<5>([2, 3, 5, 7, 4]), SDynamic::<2>([6, 9]), SDynamic::<7>([2, 3, 5, 7, 4, 6, 9]), &[2, 3, 5, 7, 4], &[6, 9]),
        || joins(SDynamic::<5>([2, 3, 5, 7, 4]), SDynamic::<3>([6, 9, 8]), SDynamic::<8>([2, 3, 5, 7, 4, 6, 9, 8]), &[2, 3, 5, 7, 4], &[6, 9, 8]),
        || joins(SDynamic::<5>([2, 3, 5, 7, 4]), SDynamic::<4>([6, 9, 8, 1]), SDynamic::<9>([2, 3, 5, 7, 4, 6, 9, 8, 1]), &[2, 3, 5, 7, 4], &[6, 9, 8, 1]),
        || joins(SDynamic::<5>([2, 3, 5, 7, 4]), SDynamic::<5>([6, 9, 8, 1, 0]), SDynamic::<10>([2, 3, 5, 7, 4, 6, 9, 8, 1, 0]), &[2, 3, 5, 7, 4], &[6, 9, 8, 1, 0]),
        || joins(SDynamic::<5>([2, 3, 5, 7, 4]), SDynamic::<6>([6, 9, 8, 1, 0, 11]), SDynamic::<11>([2, 3, 5, 7, 4, 6, 9, 8, 1, 0, 11]), &[2, 3, 5, 7, 4], &[6, 9, 8, 1, 0, 11]),
        || joins(SDynamic::<6>([2, 3, 5, 7, 4, 6]), SDynamic::<0>([]), SDynamic::<6>([2, 3, 5, 7, 4, 6]), &[2, 3, 5, 7, 4, 6], &[]),
        || joins(SDynamic::<6>([2, 3, 5, 7, 4, 6]), SDynamic::<1>([9]), SDynamic::<7>([2, 3, 5, 7, 4, 6, 9]), &[2, 3, 5, 7, 4, 6], &[9]),
        || joins(SDynamic::<6>([2, 3, 5, 7, 4, 6]), SDynamic::<2>([9, 8]), SDynamic::<8>([2, 3, 5, 7, 4, 6, 9, 8]), &[2, 3, 5, 7, 4, 6], &[9, 8]),
        || joins(SDynamic::<6>([2, 3, 5, 7, 4, 6]), SDynamic::<3>([9, 8, 1]), SDynamic::<9>([2, 3, 5, 7, 4, 6, 9, 8, 1]), &[2, 3, 5, 7, 4, 6], &[9, 8, 1]),
        || joins(SDynamic::<6>([2, 3, 5, 7, 4, 6]), SDynamic::<4>([9, 8, 1, 0]), SDynamic::<10>([2, 3, 5, 7, 4, 6, 9, 8, 1, 0]), &[2, 3, 5, 7, 4, 6], &[9, 8, 1, 0]),
        || joins(SDynamic::<6>([2, 3, 5, 7, 4, 6]), SDynamic::<5>([9, 8, 1, 0, 11]), SDynamic::<11>([2, 3, 5, 7, 4, 6, 9, 8, 1, 0, 11]), &[2, 3, 5, 7, 4, 6], &[9, 8, 1, 0, 11]),
        || joins(SDynamic::<6>([2, 3, 5, 7, 4, 6]), SDynamic::<6>([9, 8, 1, 0, 11, 12]), SDynamic::<12>([2, 3, 5, 7, 4, 6, 9, 8, 1, 0, 11, 12]), &[2, 3, 5, 7, 4, 6], &[9, 8, 1, 0, 11, 12]),
        || splits(S2::<2, 3>, S1::<2>, S1::<3>, &[2, 3]),
        || splits(S2::<0, 1>, S1::<0>, S1::<1>, &[0, 1]),
        || splits(S4::<2, 3, 5, 7>, S2::<2, 3>, S2::<5, 7>, &[2, 3, 5, 7])
    ];
    let c = engine::choose(v.len());
    v[c]()
}
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![
        ("compile-time shapes", Mode::Real, k_fixed as fn(), "extents 0-5 and nine to 1000 (rank 1), 0-3 and seven to 16x17, 64x3 (rank 2), 0-3 (rank 3), 24 shapes each (ranks 4-6)"),
        ("run-time shapes", Mode::Real, k_dyn as fn(), "every extent 0-5, 0-4, 0-3, 0-2, 0-2, 1-2 (ranks 1-6), and 16 larger shapes"),
        ("joining and splitting", Mode::Real, k_join as fn(), "one shape per pair of ranks; all component patterns of two values"),
        ("diagonal indices", Mode::Real, diagonal as fn(), "three values per component, ranks 0-6"),
        ("huge extents", Mode::Real, huge as fn(), "six shapes, 20 steps")
    ]
}

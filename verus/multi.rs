// The run-time shape's index enumeration (buffers/shapes/multi_product.rs): from a fresh iterator, each call of `next`
// returns the index of the next rank, from rank 0 to the last, then nothing; for every rank of shape and all extents.
// The rank of an index is its row-major position; the lemmas show that this is a one-to-one numbering of the
// in-range indices by 0, 1, .. cardinality - 1 which follows the lexicographic order.
use std::ops::Range;
verus! {
//@prop C10
pub assume_specification<Idx: Clone> [<Range<Idx> as Clone>::clone] (r: &Range<Idx>) -> (c: Range<Idx>)
    ensures c == *r;

// ---- std stand-ins
pub trait RangeX { 
    spec fn range(&self) -> Range<usize>;
    fn v_next(&mut self) -> (r: Option<usize>)
        ensures
            old(self).range().start < old(self).range().end ==> r == Some(old(self).range().start) && final(self).range().start == old(self).range().start + 1 && final(self).range().end == old(self).range().end,
            old(self).range().start >= old(self).range().end ==> r is None && final(self).range() == old(self).range();
    fn v_size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.0 == len(self.range()), r.1 == Some(r.0);
}
pub open spec fn len(r: Range<usize>) -> int { if r.start < r.end { r.end - r.start } else { 0 } }
impl RangeX for Range<usize> {
    open spec fn range(&self) -> Range<usize> { *self }
    fn v_next(&mut self) -> (r: Option<usize>) {
        if self.start < self.end { let x = self.start; self.start = x + 1; Some(x) } else { None }
    }
    fn v_size_hint(&self) -> (r: (usize, Option<usize>)) {
        let n = if self.start < self.end { self.end - self.start } else { 0 };
        (n, Some(n))
    }
}
pub trait OptionX<T>: Sized {
    spec fn opt(&self) -> Option<T>;
    fn v_is_some(&self) -> (r: bool) ensures r == (self.opt() is Some);
    fn v_unwrap(self) -> (r: T) requires self.opt() is Some ensures Some(r) == self.opt();
}
impl<T> OptionX<T> for Option<T> {
    open spec fn opt(&self) -> Option<T> { *self }
    fn v_is_some(&self) -> (r: bool) { match self { Some(_) => true, None => false } }
    fn v_unwrap(self) -> (r: T) { match self { Some(x) => x, None => unreached() } }
}
pub trait SliceX<T> {
    fn v_split_last_mut<'a>(&'a mut self) -> (r: Option<(&'a mut T, &'a mut [T])>)
        ensures
            old(self).sl().len() == 0 ==> r is None && final(self).sl() == old(self).sl(),
            old(self).sl().len() > 0 ==> r is Some && *(r->0).0 == old(self).sl().last() && (r->0).1@ == old(self).sl().drop_last()
                && final(self).sl() == final((r->0).1)@.push(*final((r->0).0));
    spec fn sl(&self) -> Seq<T>;
}
impl<T> SliceX<T> for [T] {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_split_last_mut<'a>(&'a mut self) -> (r: Option<(&'a mut T, &'a mut [T])>) { self.split_last_mut() }
}
pub trait LastX<T> {
    spec fn els(&self) -> Seq<T>;
    fn v_last<'a>(&'a self) -> (r: Option<&'a T>)
        ensures self.els().len() == 0 ==> r is None, self.els().len() > 0 ==> r is Some && *(r->0) == self.els().last();
}
impl<T, const N: usize> LastX<T> for [T; N] {
    open spec fn els(&self) -> Seq<T> { self@ }
    fn v_last<'a>(&'a self) -> (r: Option<&'a T>) { if N == 0 { None } else { Some(&self[N - 1]) } }
}
pub trait ArrX<T, const N: usize>: Sized {
    spec fn arr(&self) -> Seq<T>;
    fn v_map<U, G: Fn(T) -> U>(self, g: G) -> (r: [U; N])
        requires forall|k: int| 0 <= k < N ==> call_requires(g, (#[trigger] self.arr()[k],)),
        ensures forall|k: int| 0 <= k < N ==> call_ensures(g, (self.arr()[k],), #[trigger] r@[k]);
}
impl<const N: usize> ArrX<usize, N> for [usize; N] {
    open spec fn arr(&self) -> Seq<usize> { self@ }
    fn v_map<U, G: Fn(usize) -> U>(self, g: G) -> (r: [U; N]) { v_array_map(self, g) }
}
pub fn v_mem_take(x: &mut bool) -> (r: bool) ensures r == *old(x), *final(x) == false { let r = *x; *x = false; r }

// ---- ranks
pub open spec fn in_range(k: Seq<int>, s: Seq<int>) -> bool { k.len() == s.len() && forall|i: int| 0 <= i < k.len() ==> 0 <= #[trigger] k[i] < s[i] }
pub open spec fn card(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 1 } else { card(s.drop_last()) * s.last() } }
pub open spec fn rank(k: Seq<int>, s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { rank(k.drop_last(), s.drop_last()) * s.last() + k.last() } }
pub open spec fn before(k: Seq<int>, l: Seq<int>) -> bool { exists|d: int| 0 <= d < k.len() && #[trigger] k[d] < l[d] && forall|i: int| 0 <= i < d ==> k[i] == l[i] }

pub proof fn in_range_drop(k: Seq<int>, s: Seq<int>)
    requires in_range(k, s), s.len() > 0
    ensures in_range(k.drop_last(), s.drop_last()), 0 <= k.last() < s.last()
{}
pub proof fn card_pos(s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i]
    ensures card(s) >= 0, card(s) > 0 <==> forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] > 0
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        card_pos(t);
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
        assert(card(t) * s.last() >= 0 && (card(t) * s.last() > 0 <==> card(t) > 0 && s.last() > 0)) by (nonlinear_arith) requires card(t) >= 0, s.last() >= 0;
        if card(s) > 0 { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] > 0 by { if i < t.len() { assert(t[i] > 0); } } }
    }
}
// ranks of in-range indices are below the cardinality
pub proof fn rank_bound(k: Seq<int>, s: Seq<int>)
    requires in_range(k, s)
    ensures 0 <= rank(k, s) < card(s)
    decreases s.len()
{
    if s.len() > 0 {
        in_range_drop(k, s);
        rank_bound(k.drop_last(), s.drop_last());
        let (a, n, c, x) = (rank(k.drop_last(), s.drop_last()), s.last(), card(s.drop_last()), k.last());
        step(a, c, n);
        step(-1, a, n);
        assert((-1) * n == -n) by (nonlinear_arith);
    }
}
// an index that comes first in the lexicographic order has the smaller rank: no two indices share one
pub proof fn rank_order(k: Seq<int>, l: Seq<int>, s: Seq<int>)
    requires in_range(k, s), in_range(l, s), before(k, l)
    ensures rank(k, s) < rank(l, s)
    decreases s.len()
{
    let d = choose|d: int| 0 <= d < k.len() && #[trigger] k[d] < l[d] && forall|i: int| 0 <= i < d ==> k[i] == l[i];
    in_range_drop(k, s);
    in_range_drop(l, s);
    let (p, q, t) = (k.drop_last(), l.drop_last(), s.drop_last());
    if d < k.len() - 1 {
        assert(p[d] < q[d] && forall|i: int| 0 <= i < d ==> p[i] == q[i]);
        assert(before(p, q));
        rank_order(p, q, t);
        let (a, b, n, x, y) = (rank(p, t), rank(q, t), s.last(), k.last(), l.last());
        step(a, b, n);
    } else {
        assert(p =~= q);
    }
}
pub proof fn step(a: int, b: int, n: int)
    requires a < b, n >= 0
    ensures a * n + n <= b * n
{
    assert((b - a - 1) * n >= 0) by (nonlinear_arith) requires b - a - 1 >= 0, n >= 0;
    assert((b - a - 1) * n == b * n - a * n - n) by (nonlinear_arith);
}
pub proof fn rank_distinct(k: Seq<int>, l: Seq<int>, s: Seq<int>)
    requires in_range(k, s), in_range(l, s), rank(k, s) == rank(l, s)
    ensures k =~= l
    decreases s.len()
{
    if s.len() > 0 {
        in_range_drop(k, s);
        in_range_drop(l, s);
        let (p, q, t) = (k.drop_last(), l.drop_last(), s.drop_last());
        let (a, b, n, x, y) = (rank(p, t), rank(q, t), s.last(), k.last(), l.last());
        if a < b { step(a, b, n); }
        if b < a { step(b, a, n); }
        assert(a == b && x == y);
        rank_distinct(p, q, t);
        assert(k =~= p.push(x));
        assert(l =~= q.push(y));
    }
}
pub proof fn zeros(k: Seq<int>, s: Seq<int>)
    requires k.len() == s.len(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == 0
    ensures rank(k, s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < k.len() - 1 implies #[trigger] k.drop_last()[i] == 0 by { assert(k[i] == 0); }
        zeros(k.drop_last(), s.drop_last());
        assert(0 * s.last() == 0) by (nonlinear_arith);
    }
}
// every number below the cardinality is the rank of an index
pub proof fn rank_onto(n: int, s: Seq<int>) -> (k: Seq<int>)
    requires 0 <= n < card(s), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i]
    ensures in_range(k, s), rank(k, s) == n
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let t = s.drop_last();
        let m = s.last();
        card_pos(s);
        card_pos(t);
        assert(m > 0);
        assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] by { assert(t[i] == s[i]); }
        let c = card(t);
        let (q, x) = (n / m, n % m);
        assert(n == q * m + x && 0 <= x < m) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, m); assert(q * m == m * q) by (nonlinear_arith); }
        if q < 0 { step(q, 0, m); assert(0 * m == 0); }
        if q >= c { step(c - 1, q, m); assert((c - 1) * m + m == c * m) by (nonlinear_arith); }
        assert(0 <= q < c);
        let p = rank_onto(q, t);
        let k = p.push(x);
        assert(k.drop_last() =~= p);
        assert forall|i: int| 0 <= i < k.len() implies 0 <= #[trigger] k[i] < s[i] by { if i < p.len() { assert(p[i] < t[i]); } }
        k
    }
}

// ---- size hints: a lower bound and, where it fits the machine integer, the exact count
pub type SizeHint = (usize, Option<usize>);
pub open spec fn hints(h: SizeHint, n: int) -> bool { h.0 <= n && (h.1 is Some ==> h.1->0 == n) }
pub proof fn hint_mul(a: SizeHint, b: SizeHint, n: int, m: int)
    requires hints(a, n), hints(b, m)
    ensures a.0 * b.0 <= n * m, n * m >= 0, a.1 is Some && b.1 is Some ==> a.1->0 * b.1->0 == n * m, a.1 == Some(0usize) || b.1 == Some(0usize) ==> n * m == 0
{
    assert(a.0 * b.0 <= n * m && n * m >= 0) by (nonlinear_arith) requires a.0 <= n, b.0 <= m, a.0 >= 0, b.0 >= 0;
    assert(n == 0 || m == 0 ==> n * m == 0) by (nonlinear_arith);
}
//@fn buffers::shapes::multi_product::size_hint_add | | | a b
pub fn size_hint_add(a: SizeHint, b: SizeHint) -> (r: SizeHint)
    ensures forall|n: int, m: int| hints(a, n) && hints(b, m) ==> hints(r, #[trigger] (n + m))
//@end
//@fn buffers::shapes::multi_product::size_hint_mul | | | a b
pub fn size_hint_mul(a: SizeHint, b: SizeHint) -> (r: SizeHint)
    ensures forall|n: int, m: int| hints(a, n) && hints(b, m) ==> hints(r, #[trigger] (n * m))
//@pre
    proof { assert forall|n: int, m: int| hints(a, n) && hints(b, m) implies a.0 * b.0 <= #[trigger] (n * m) && n * m >= 0 && (a.1 is Some && b.1 is Some ==> a.1->0 * b.1->0 == n * m) && (a.1 == Some(0usize) || b.1 == Some(0usize) ==> n * m == 0) by { hint_mul(a, b, n, m); } }
//@end
// ---- the iterator
pub struct MultiProductIter { pub cur: Option<usize>, pub iter: Range<usize>, pub iter_orig: Range<usize> }
#[derive(Clone, Copy)] pub enum MultiProductIterState { StartOfIter, MidIter { on_first_iter: bool } }
pub struct MultiProduct<const DIM: usize>(pub [MultiProductIter; DIM], pub bool);

pub open spec fn ok(m: MultiProductIter) -> bool {
    m.iter_orig.start == 0 && (m.cur is Some ==> m.cur->0 < m.iter_orig.end && m.iter == (Range::<usize> { start: (m.cur->0 + 1) as usize, end: m.iter_orig.end }))
}
pub open spec fn oks(s: Seq<MultiProductIter>) -> bool { forall|i: int| 0 <= i < s.len() ==> ok(#[trigger] s[i]) }
pub open spec fn sizes(s: Seq<MultiProductIter>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].iter_orig.end as int) }
pub open spec fn at(s: Seq<MultiProductIter>) -> Seq<int> { Seq::new(s.len(), |i: int| if s[i].cur is Some { s[i].cur->0 as int } else { -1 }) }
// at an index / nowhere yet (leading components may already be at zero)
pub open spec fn mid(s: Seq<MultiProductIter>) -> bool { oks(s) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cur is Some }
pub open spec fn lead(s: Seq<MultiProductIter>, j: int) -> bool {
    oks(s) && 0 <= j <= s.len() && (forall|i: int| 0 <= i < j ==> (#[trigger] s[i]).cur == Some(0usize)) && forall|i: int| j <= i < s.len() ==> (#[trigger] s[i]).cur is None
}
pub open spec fn idle(s: Seq<MultiProductIter>) -> bool { exists|j: int| #[trigger] lead(s, j) }
pub open spec fn positive(s: Seq<MultiProductIter>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).iter_orig.end > 0 }
pub open spec fn fresh(s: Seq<MultiProductIter>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cur is None && s[i].iter == s[i].iter_orig && s[i].iter_orig.start == 0 }
pub open spec fn same_sizes(s: Seq<MultiProductIter>, t: Seq<MultiProductIter>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).iter_orig == t[i].iter_orig }
pub open spec fn advanced(s: Seq<MultiProductIter>, t: Seq<MultiProductIter>, r: bool) -> bool {
    &&& same_sizes(t, s)
    &&& oks(t)
    &&& r == (rank(at(s), sizes(s)) + 1 < card(sizes(s)))
    &&& r ==> mid(t) && rank(at(t), sizes(t)) == rank(at(s), sizes(s)) + 1
    &&& !r ==> lead(t, 0)
}
pub open spec fn started(s: Seq<MultiProductIter>, t: Seq<MultiProductIter>, r: bool) -> bool {
    &&& same_sizes(t, s)
    &&& r == positive(s)
    &&& r ==> lead(t, t.len() as int) && mid(t)
    &&& !r ==> idle(t) && t.len() > 0 && t.last().cur is None
}
pub proof fn mid_range(s: Seq<MultiProductIter>)
    requires mid(s)
    ensures in_range(at(s), sizes(s)), 0 <= rank(at(s), sizes(s)) < card(sizes(s))
{
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] at(s)[i] < sizes(s)[i] by { assert(ok(s[i])); }
    rank_bound(at(s), sizes(s));
}
pub proof fn split(s: Seq<MultiProductIter>)
    requires s.len() > 0
    ensures
        sizes(s).drop_last() =~= sizes(s.drop_last()), sizes(s).last() == s.last().iter_orig.end,
        at(s).drop_last() =~= at(s.drop_last()),
        s.last().cur is Some ==> at(s).last() == s.last().cur->0,
        card(sizes(s)) == card(sizes(s.drop_last())) * s.last().iter_orig.end,
        rank(at(s), sizes(s)) == rank(at(s.drop_last()), sizes(s.drop_last())) * s.last().iter_orig.end + at(s).last(),
{
    assert(sizes(s).drop_last() =~= sizes(s.drop_last()));
    assert(at(s).drop_last() =~= at(s.drop_last()));
}
// one step of the last component, or a carry into the rest
pub proof fn advance_step(s: Seq<MultiProductIter>, t: Seq<MultiProductIter>)
    requires mid(s), s.len() > 0, same_sizes(t, s), t.drop_last() == s.drop_last(), ok(t.last()), t.last().cur is Some, t.last().cur->0 == s.last().cur->0 + 1
    ensures advanced(s, t, true)
{
    split(s);
    split(t);
    assert(sizes(t) =~= sizes(s));
    assert forall|i: int| 0 <= i < t.len() implies ok(#[trigger] t[i]) && t[i].cur is Some by { if i < t.len() - 1 { let (p, q) = (t.drop_last(), s.drop_last()); assert(p[i] == t[i]); assert(q[i] == s[i]); assert(t[i] == s[i]); assert(ok(s[i]) && s[i].cur is Some); } else { assert(t[i] == t.last()); } }
    mid_range(t);
}
pub proof fn advance_carry(s: Seq<MultiProductIter>, t: Seq<MultiProductIter>, r: bool)
    requires
        mid(s), s.len() > 0, t.len() == s.len(), s.last().cur->0 + 1 == s.last().iter_orig.end, t.last().iter_orig == s.last().iter_orig, ok(t.last()),
        advanced(s.drop_last(), t.drop_last(), r),
        r ==> t.last().cur == Some(0usize), !r ==> t.last().cur is None,
    ensures advanced(s, t, r)
{
    split(s);
    split(t);
    let (p, q) = (s.drop_last(), t.drop_last());
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).iter_orig == s[i].iter_orig && ok(t[i]) by { if i < t.len() - 1 { assert(q[i].iter_orig == p[i].iter_orig); assert(ok(q[i])); } }
    assert(sizes(t) =~= sizes(s));
    assert(sizes(q) =~= sizes(p));
    let (a, c, n) = (rank(at(p), sizes(p)), card(sizes(p)), s.last().iter_orig.end as int);
    assert(mid(p)) by { assert forall|i: int| 0 <= i < p.len() implies ok(#[trigger] p[i]) && p[i].cur is Some by { assert(ok(s[i])); } }
    mid_range(p);
    assert((a + 1) * n == a * n + n) by (nonlinear_arith);
    if a + 1 < c { step(a + 1, c, n); } else { step(c - 1, a + 1, n); assert((c - 1) * n + n == c * n) by (nonlinear_arith); }
    assert((a + 1 < c) == (a * n + (n - 1) + 1 < c * n));
    if r {
        assert((a + 1) * n + 0 == a * n + (n - 1) + 1) by (nonlinear_arith);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).cur is Some by { if i < t.len() - 1 { assert(q[i].cur is Some); } }
    } else {
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).cur is None by { if i < t.len() - 1 { assert(q[i].cur is None); } }
    }
}
pub proof fn start_here(s: Seq<MultiProductIter>)
    requires idle(s), s.len() == 0 || s.last().cur is Some
    ensures started(s, s, true)
{
    let j = choose|j: int| lead(s, j);
    assert(j == s.len());
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).iter_orig.end > 0 by { assert(ok(s[i])); }
}
pub proof fn start_drop(s: Seq<MultiProductIter>)
    requires idle(s), s.len() > 0, s.last().cur is None
    ensures idle(s.drop_last())
{
    let j = choose|j: int| lead(s, j);
    let p = s.drop_last();
    assert(j < s.len());
    assert forall|i: int| 0 <= i < p.len() implies ok(#[trigger] p[i]) by { assert(ok(s[i])); }
    assert(lead(p, j));
}
pub proof fn start_carry(s: Seq<MultiProductIter>, t: Seq<MultiProductIter>, r: bool)
    requires
        s.len() > 0, t.len() == s.len(), t.last().iter_orig == s.last().iter_orig, ok(t.last()), started(s.drop_last(), t.drop_last(), r),
        r ==> (if s.last().iter_orig.end > 0 { t.last().cur == Some(0usize) } else { t.last().cur is None }), !r ==> t.last().cur is None,
    ensures started(s, t, r && s.last().iter_orig.end > 0)
{
    let (p, q) = (s.drop_last(), t.drop_last());
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).iter_orig == s[i].iter_orig by { if i < t.len() - 1 { assert(q[i].iter_orig == p[i].iter_orig); } }
    let done = r && s.last().iter_orig.end > 0;
    if positive(s) { assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).iter_orig.end > 0 by { assert(s[i].iter_orig.end > 0); } }
    if done { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).iter_orig.end > 0 by { if i < p.len() { assert(p[i].iter_orig.end > 0); } } }
    let j = if r { q.len() as int } else { choose|j: int| lead(q, j) };
    assert(lead(q, j));
    let k = if done { t.len() as int } else { j };
    assert forall|i: int| 0 <= i < t.len() implies ok(#[trigger] t[i]) && (i < k ==> t[i].cur == Some(0usize)) && (i >= k ==> t[i].cur is None) by {
        if i < q.len() { assert(ok(q[i])); assert(t[i] == q[i]); }
    }
    assert(lead(t, k));
}
pub open spec fn fresh_step(acc: Seq<SizeHint>, s: Seq<MultiProductIter>, k: int) -> bool { forall|n: int| hints(acc[k], n) ==> hints(acc[k + 1], #[trigger] (n * len(s[k].iter))) }
pub open spec fn mid_step(acc: Seq<SizeHint>, s: Seq<MultiProductIter>, k: int) -> bool { forall|n: int| hints(acc[k], n) ==> hints(acc[k + 1], #[trigger] (n * len(s[k].iter_orig)) + len(s[k].iter)) }
pub proof fn fresh_run(acc: Seq<SizeHint>, s: Seq<MultiProductIter>, k: int)
    requires 0 <= k <= s.len(), acc.len() == s.len() + 1, acc[0] == (1usize, Some(1usize)), fresh(s), forall|j: int| 0 <= j < s.len() ==> #[trigger] fresh_step(acc, s, j)
    ensures hints(acc[k], card(sizes(s.take(k))))
    decreases k
{
    if k > 0 {
        fresh_run(acc, s, k - 1);
        let t = s.take(k);
        assert(t.drop_last() =~= s.take(k - 1));
        split(t);
        assert(fresh_step(acc, s, k - 1));
        assert(t.last() == s[k - 1]);
        assert(hints(acc[k - 1 + 1], card(sizes(s.take(k - 1))) * len(s[k - 1].iter)));
    }
}
pub proof fn mid_run(acc: Seq<SizeHint>, s: Seq<MultiProductIter>, k: int)
    requires 0 <= k <= s.len(), acc.len() == s.len() + 1, acc[0] == (0usize, Some(0usize)), mid(s), forall|j: int| 0 <= j < s.len() ==> #[trigger] mid_step(acc, s, j)
    ensures hints(acc[k], card(sizes(s.take(k))) - rank(at(s.take(k)), sizes(s.take(k))) - 1)
    decreases k
{
    if k > 0 {
        mid_run(acc, s, k - 1);
        let (t, p) = (s.take(k), s.take(k - 1));
        assert(t.drop_last() =~= p);
        split(t);
        assert(mid_step(acc, s, k - 1));
        assert(t.last() == s[k - 1]);
        assert(ok(s[k - 1]) && s[k - 1].cur is Some);
        let n = s[k - 1].iter_orig.end as int;
        let (c, r) = (card(sizes(p)), rank(at(p), sizes(p)));
        assert(hints(acc[k - 1], c - r - 1));
        assert(len(s[k - 1].iter_orig) == n);
        assert(hints(acc[k], (c - r - 1) * len(s[k - 1].iter_orig) + len(s[k - 1].iter)));
        assert((c - r - 1) * n + (n - 1 - at(t).last()) == c * n - (r * n + at(t).last()) - 1) by (nonlinear_arith);
    }
}
impl MultiProductIter {
//@fn MultiProductIter::iterate | | | self
pub fn iterate(&mut self)
    requires ok(*old(self)), old(self).cur is Some || old(self).iter == old(self).iter_orig
    ensures
        ok(*final(self)), final(self).iter_orig == old(self).iter_orig,
        old(self).iter.start < old(self).iter.end ==> final(self).cur == Some(old(self).iter.start),
        old(self).iter.start >= old(self).iter.end ==> final(self).cur is None,
//@end
//@fn MultiProductIter::reset | | | self
pub fn reset(&mut self)
    ensures final(self).cur == old(self).cur, final(self).iter_orig == old(self).iter_orig, final(self).iter == old(self).iter_orig,
//@end
//@fn MultiProductIter::in_progress | | | self
pub fn in_progress(&self) -> (r: bool)
    ensures r == (self.cur is Some)
//@end
}
impl<const DIM: usize> MultiProduct<DIM> {
pub open spec fn inv(&self) -> bool { oks(self.0@) && (DIM > 0 ==> !self.1 && (mid(self.0@) || idle(self.0@) && self.0@.last().cur is None)) }
// how many indices it has returned since it was made, or since it last ran out
pub open spec fn returned(&self) -> int { if DIM == 0 { if self.1 { 0 } else { 1 } } else if mid(self.0@) { rank(at(self.0@), sizes(self.0@)) + 1 } else { 0 } }
//@fn MultiProduct<G0>::new | DIM | | sizes_
pub fn new(sizes_: [usize; DIM]) -> (r: Self)
    ensures r.inv(), r.returned() == 0, fresh(r.0@), forall|i: int| 0 <= i < DIM ==> #[trigger] sizes(r.0@)[i] == sizes_@[i]
//@closure-ret 0
MultiProductIter
//@closure 0
    ensures ret.cur is None && ret.iter == (Range::<usize> { start: 0, end: s }) && ret.iter_orig == ret.iter
//@post
    proof {
        let v = __r.0@;
        assert forall|i: int| 0 <= i < DIM implies (#[trigger] v[i]).cur is None && v[i].iter == v[i].iter_orig && v[i].iter_orig.start == 0 && v[i].iter_orig.end == sizes_@[i] by {}
        assert(lead(v, 0));
        if DIM > 0 { assert(v[0].cur is None); }
    }
//@end
//@fn MultiProduct<G0>::iterate_last | DIM | | multi_iters state
pub fn iterate_last(multi_iters: &mut [MultiProductIter], state: MultiProductIterState) -> (r: bool)
    requires
        state is StartOfIter ==> mid(old(multi_iters)@) || idle(old(multi_iters)@) && old(multi_iters)@.last().cur is None,
        state is MidIter ==> if state->on_first_iter { idle(old(multi_iters)@) } else { mid(old(multi_iters)@) },
    ensures
        final(multi_iters)@.len() == old(multi_iters)@.len(),
        state is StartOfIter && old(multi_iters)@.len() == 0 ==> !r,
        state is StartOfIter && old(multi_iters)@.len() > 0 && old(multi_iters)@.last().cur is Some ==> advanced(old(multi_iters)@, final(multi_iters)@, r),
        state is StartOfIter && old(multi_iters)@.len() > 0 && old(multi_iters)@.last().cur is None ==> started(old(multi_iters)@, final(multi_iters)@, r),
        state is MidIter && state->on_first_iter ==> started(old(multi_iters)@, final(multi_iters)@, r),
        state is MidIter && !state->on_first_iter ==> advanced(old(multi_iters)@, final(multi_iters)@, r),
    decreases old(multi_iters)@.len()
//@pre
    let ghost st0 = state;
    proof { assert forall|p: Seq<MultiProductIter>, x: MultiProductIter| (#[trigger] p.push(x)).drop_last() == p && p.push(x).last() == x by { assert(p.push(x).drop_last() =~= p); } }
    let ghost first = if state is StartOfIter { old(multi_iters)@.len() > 0 && old(multi_iters)@.last().cur is None } else { state->on_first_iter };
    let ghost s0 = old(multi_iters)@;
    proof {
        if s0.len() > 0 && first && s0.last().cur is None { start_drop(s0); }
        if s0.len() > 0 && !first { split(s0); mid_range(s0); assert(mid(s0.drop_last())) by { assert forall|i: int| 0 <= i < s0.len() - 1 implies ok(#[trigger] s0.drop_last()[i]) && s0.drop_last()[i].cur is Some by { assert(ok(s0[i])); } } assert(ok(s0.last())); }
        if s0.len() == 0 { assert(lead(s0, 0)); }
        if first && (s0.len() == 0 || s0.last().cur is Some) && idle(s0) { start_here(s0); }
    }
//@post
    proof {
        let t = multi_iters@;
        if s0.len() > 0 {
            if !first {
                if s0.last().cur->0 + 1 < s0.last().iter_orig.end { advance_step(s0, t); } else { advance_carry(s0, t, __r); }
            } else if s0.last().cur is Some { start_here(s0); assert(t =~= s0); } else { start_carry(s0, t, positive(s0.drop_last())); }
        }
    }
//@end
//@fn MultiProduct<G0>::curr_iterator | DIM | | self
pub fn curr_iterator(&self) -> (r: [usize; DIM])
    requires mid(self.0@)
    ensures forall|i: int| 0 <= i < DIM ==> #[trigger] r@[i] == at(self.0@)[i]
//@closure-ret 0
usize
//@closure 0
    requires i < DIM
    ensures ret == at(self.0@)[i as int]
//@end
//@fn MultiProduct<G0>::in_progress | DIM | | self
pub fn in_progress(&self) -> (r: bool)
    ensures r == (DIM > 0 && self.0@.last().cur is Some)
//@end
//@fn Iterator for MultiProduct<G0>::size_hint | DIM | | self
pub fn size_hint(&self) -> (r: (usize, Option<usize>))
    requires self.inv(), fresh(self.0@) || mid(self.0@)
    ensures hints(r, card(sizes(self.0@)) - self.returned())
//@pre
    let ghost s = self.0@;
    proof {
        assert forall|acc: Seq<SizeHint>| #[trigger] ran(acc) && acc.len() == s.len() + 1 && acc[0] == (1usize, Some(1usize)) && fresh(s) && (forall|k: int| 0 <= k < s.len() ==> #[trigger] fresh_step(acc, s, k)) implies hints(acc.last(), card(sizes(s))) by { fresh_run(acc, s, s.len() as int); assert(s.take(s.len() as int) =~= s); }
        assert forall|acc: Seq<SizeHint>| #[trigger] ran(acc) && acc.len() == s.len() + 1 && acc[0] == (0usize, Some(0usize)) && mid(s) && (forall|k: int| 0 <= k < s.len() ==> #[trigger] mid_step(acc, s, k)) implies hints(acc.last(), card(sizes(s)) - rank(at(s), sizes(s)) - 1) by { mid_run(acc, s, s.len() as int); assert(s.take(s.len() as int) =~= s); }
        if DIM > 0 { assert(mid(s) ==> s[DIM - 1].cur is Some); assert(fresh(s) ==> s[DIM - 1].cur is None); }
        if DIM == 0 { assert(mid(s)); assert(card(sizes(s)) == 1); }
    }
//@closure-ret 0
SizeHint
//@closure 0
    ensures forall|n: int| hints(acc, n) ==> hints(ret, #[trigger] (n * len(multi_iter.iter)))
//@closure-ret 1
SizeHint
//@closure 1
    ensures forall|n: int| hints(acc, n) ==> hints(ret, #[trigger] (n * len(__p1_1.iter_orig)) + len(__p1_1.iter))
//@end
//@fn Iterator for MultiProduct<G0>::next | DIM | | self
pub fn next(&mut self) -> (r: Option<[usize; DIM]>)
    requires old(self).inv()
    ensures
        final(self).inv(), sizes(final(self).0@) =~= sizes(old(self).0@),
        r is Some <==> old(self).returned() < card(sizes(old(self).0@)),
        r is Some ==> final(self).returned() == old(self).returned() + 1,
        r is Some ==> ({ let k = Seq::new(DIM as nat, |i: int| (r->0)@[i] as int); in_range(k, sizes(old(self).0@)) && rank(k, sizes(old(self).0@)) == old(self).returned() }),
//@pre
    let ghost s0 = self.0@;
    let ghost d0 = self.1;
    proof {
        card_pos(sizes(s0));
        if mid(s0) { mid_range(s0); assert(DIM > 0 ==> s0.last().cur is Some) by { if DIM > 0 { assert(s0[DIM - 1].cur is Some); } } }
        else { assert(DIM > 0); }
        if positive(s0) { assert forall|i: int| 0 <= i < s0.len() implies #[trigger] sizes(s0)[i] > 0 by { assert(s0[i].iter_orig.end > 0); } }
        if card(sizes(s0)) > 0 { assert forall|i: int| 0 <= i < s0.len() implies (#[trigger] s0[i]).iter_orig.end > 0 by { assert(sizes(s0)[i] > 0); } }
    }
//@post
    proof {
        let t = self.0@;
        assert(sizes(t) =~= sizes(s0));
        if __r is Some {
            assert(Seq::new(DIM as nat, |i: int| (__r->0)@[i] as int) =~= at(t));
            mid_range(t);
            if DIM > 0 && !mid(s0) { zeros(at(t), sizes(t)); }
        }
    }
//@end
}
// an index set is enumerated from its start
//@fn Shape for SDynamic<G0>::indices | DIM | | this
pub fn indices_dyn<const DIM: usize>(this: &SDynamic<DIM>) -> (r: multi_product::MultiProduct<DIM>)
    ensures r.inv(), r.returned() == 0, fresh(r.0@), forall|i: int| 0 <= i < DIM ==> #[trigger] sizes(r.0@)[i] == this.0@[i]
//@end
pub struct SDynamic<const DIM: usize>(pub [usize; DIM]);
pub mod multi_product { pub use super::MultiProduct; }
// all together: the calls of `next` on a run-time shape's enumeration
pub fn enumeration<const DIM: usize>(shape: &SDynamic<DIM>) -> (out: Ghost<Seq<Seq<int>>>)
    requires fits(shape.0@)
    ensures
        out@.len() == prod(shape.0@),
        forall|n: int| 0 <= n < out@.len() ==> { let d = Seq::new(DIM as nat, |i: int| shape.0@[i] as int); in_range(#[trigger] out@[n], d) && rank(out@[n], d) == n },
{
    let mut it = indices_dyn(shape);
    let ghost d = Seq::new(DIM as nat, |i: int| shape.0@[i] as int);
    let ghost mut seen: Seq<Seq<int>> = Seq::empty();
    proof { assert(sizes(it.0@) =~= d); prod_card(shape.0@, d); card_pos(d); }
    loop
        invariant_except_break it.inv(), sizes(it.0@) =~= d, it.returned() == seen.len(), seen.len() <= card(d), forall|n: int| 0 <= n < seen.len() ==> in_range(#[trigger] seen[n], d) && rank(seen[n], d) == n
        ensures seen.len() == card(d), forall|n: int| 0 <= n < seen.len() ==> in_range(#[trigger] seen[n], d) && rank(seen[n], d) == n
        decreases card(d) - seen.len()
    {
        match it.next() {
            Some(k) => { proof { seen = seen.push(Seq::new(DIM as nat, |i: int| k@[i] as int)); } }
            None => { break; }
        }
    }
    Ghost(seen)
}
pub proof fn prod_card(s: Seq<usize>, d: Seq<int>)
    requires s.len() == d.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] d[i] == s[i]
    ensures prod(s) == card(d)
    decreases s.len()
{
    if s.len() > 0 { prod_card(s.drop_last(), d.drop_last()); }
}
}

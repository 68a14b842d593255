// Stand-ins for the parts of std that the extracted functions call. Each carries a contract and a body that Verus
// verifies against it (eager where std is lazy: the extracted closures are pure, so the order of their calls cannot be seen).
#![allow(unused, non_camel_case_types, non_snake_case)]
use vstd::prelude::*;
verus! {
// a fold: the accumulators it runs through, one step after another from the left
pub open spec fn is_run<A, T, G: Fn(A, T) -> A>(g: G, s: Seq<T>, acc: Seq<A>) -> bool {
    acc.len() == s.len() + 1 && ran(acc) && forall|k: int| 0 <= k < s.len() ==> call_ensures(g, (#[trigger] acc[k], s[k]), acc[k + 1])
}
// (names the accumulators, for lemmas that do not mention the closure)
pub open spec fn ran<A>(acc: Seq<A>) -> bool { acc.len() >= 0 }
pub open spec fn is_fold<A, T, G: Fn(A, T) -> A>(g: G, a: A, s: Seq<T>, r: A) -> bool {
    exists|acc: Seq<A>| #[trigger] is_run(g, s, acc) && acc[0] == a && acc.last() == r
}
pub proof fn is_fold_nil<A, T, G: Fn(A, T) -> A>(g: G, a: A, s: Seq<T>)
    requires s.len() == 0
    ensures is_fold(g, a, s, a)
{
    assert(is_run(g, s, seq![a]));
}
pub proof fn is_fold_step<A, T, G: Fn(A, T) -> A>(g: G, a: A, s: Seq<T>, m: A, x: T, r: A)
    requires is_fold(g, a, s, m), call_ensures(g, (m, x), r)
    ensures is_fold(g, a, s.push(x), r)
{
    let acc = choose|acc: Seq<A>| #[trigger] is_run(g, s, acc) && acc[0] == a && acc.last() == m;
    let b = acc.push(r);
    let t = s.push(x);
    assert forall|k: int| 0 <= k < t.len() implies call_ensures(g, (#[trigger] b[k], t[k]), b[k + 1]) by {
        if k < s.len() { assert(b[k] == acc[k] && b[k + 1] == acc[k + 1] && t[k] == s[k]); }
    }
    assert(is_run(g, t, b));
}
pub proof fn is_fold_append<A, T, G: Fn(A, T) -> A>(g: G, a: A, s: Seq<T>, m: A, t: Seq<T>, r: A)
    requires is_fold(g, a, s, m), is_fold(g, m, t, r)
    ensures is_fold(g, a, s + t, r)
{
    let p = choose|acc: Seq<A>| #[trigger] is_run(g, s, acc) && acc[0] == a && acc.last() == m;
    let q = choose|acc: Seq<A>| #[trigger] is_run(g, t, acc) && acc[0] == m && acc.last() == r;
    let b = p + q.skip(1);
    let u = s + t;
    assert forall|k: int| 0 <= k < u.len() implies call_ensures(g, (#[trigger] b[k], u[k]), b[k + 1]) by {
        if k < s.len() { assert(b[k] == p[k] && b[k + 1] == p[k + 1] && u[k] == s[k]); }
        else { let j = k - s.len(); assert(b[k] == q[j] && b[k + 1] == q[j + 1] && u[k] == t[j]); }
    }
    assert(is_run(g, u, b));
}
pub open spec fn is<T>(a: T, b: T) -> bool { a == b }
pub trait Num: Sized { spec fn num(self) -> int; }
impl Num for usize { open spec fn num(self) -> int { self as int } }
impl<'a> Num for &'a usize { open spec fn num(self) -> int { *self as int } }
pub open spec fn sp_lt<T: Num>(a: T, b: T) -> bool { a.num() < b.num() }
pub open spec fn sp_le<T: Num>(a: T, b: T) -> bool { a.num() <= b.num() }
pub open spec fn sp_gt<T: Num>(a: T, b: T) -> bool { a.num() > b.num() }
pub open spec fn sp_ge<T: Num>(a: T, b: T) -> bool { a.num() >= b.num() }
pub open spec fn sp_eq<T>(a: T, b: T) -> bool { a == b }
pub open spec fn sp_ne<T>(a: T, b: T) -> bool { a != b }

// sequences
pub struct It<T> { pub v: Vec<T> }
impl<T> View for It<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { self.v@ }
}
pub trait Items<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn v_into_iter(self) -> (r: It<T>) ensures r@ == self.items();
    fn v_items(self) -> (r: It<T>) ensures r@ == self.items();
}
impl<T: Copy> Items<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    fn v_into_iter(self) -> (r: It<T>) { It { v: self } }
    fn v_items(self) -> (r: It<T>) { It { v: self } }
}
impl<T> Items<T> for It<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    fn v_into_iter(self) -> (r: It<T>) { self }
    fn v_items(self) -> (r: It<T>) { self }
}
impl<'a, T> Items<&'a T> for &'a Vec<T> {
    open spec fn items(&self) -> Seq<&'a T> { refs(self@) }
    fn v_into_iter(self) -> (r: It<&'a T>) {
        let mut out: Vec<&'a T> = Vec::new();
        for k in 0..self.len()
            invariant out@ =~= self.items().take(k as int), self.items().len() == self@.len(),
        { out.push(&self[k]); }
        It { v: out }
    }
    fn v_items(self) -> (r: It<&'a T>) { self.v_into_iter() }
}
impl<T: Copy, const N: usize> Items<T> for [T; N] {
    open spec fn items(&self) -> Seq<T> { self@ }
    fn v_into_iter(self) -> (r: It<T>) {
        let mut out: Vec<T> = Vec::new();
        for k in 0..N
            invariant out@ =~= self@.take(k as int),
        { out.push(self[k]); }
        It { v: out }
    }
    fn v_items(self) -> (r: It<T>) { self.v_into_iter() }
}
impl<'a, T, const N: usize> Items<&'a T> for &'a [T; N] {
    open spec fn items(&self) -> Seq<&'a T> { refs(self@) }
    fn v_into_iter(self) -> (r: It<&'a T>) {
        let mut out: Vec<&'a T> = Vec::new();
        for k in 0..N
            invariant out@ =~= self.items().take(k as int), self.items().len() == N,
        { out.push(&self[k]); }
        It { v: out }
    }
    fn v_items(self) -> (r: It<&'a T>) { self.v_into_iter() }
}
pub open spec fn upto(a: int, b: int) -> Seq<usize> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |k: int| (a + k) as usize) }
impl Items<usize> for std::ops::Range<usize> {
    open spec fn items(&self) -> Seq<usize> { upto(self.start as int, self.end as int) }
    fn v_into_iter(self) -> (r: It<usize>) {
        let mut out: Vec<usize> = Vec::new();
        let (a, b) = (self.start, self.end);
        let ghost s = self.items();
        if a < b {
            for k in a..b
                invariant a <= b, s == upto(a as int, b as int), out@ =~= s.take(k - a),
            { out.push(k); }
            assert(s.take(b - a) =~= s);
        }
        It { v: out }
    }
    fn v_items(self) -> (r: It<usize>) { self.v_into_iter() }
}
pub trait Borrowed<T> {
    spec fn borrowed(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>)
        ensures r@ == refs(self.borrowed());
}
mod seqs { use super::*;
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |k: int| &s[k]) }
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |k: int| *s[k]) }
pub broadcast proof fn derefs_refs<'a, T>(s: Seq<T>)
    ensures #[trigger] derefs(refs::<'a, T>(s)) == s
{ assert(derefs(refs::<'a, T>(s)) =~= s); }
}
pub use seqs::*;
broadcast use seqs::derefs_refs;
impl<T> Borrowed<T> for Vec<T> {
    open spec fn borrowed(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { let r = self.v_into_iter(); r }
}
impl<T, const N: usize> Borrowed<T> for [T; N] {
    open spec fn borrowed(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { let r = self.v_into_iter(); r }
}
// (names a sequence, so that the solver unfolds it)
pub open spec fn seen<T>(s: Seq<T>) -> bool { s.len() >= 0 }
pub trait Adaptors<T>: Items<T> {
    fn v_map<U, G: Fn(T) -> U>(self, g: G) -> (r: It<U>)
        where T: Copy
        requires forall|k: int| 0 <= k < self.items().len() ==> call_requires(g, (#[trigger] self.items()[k],)),
        ensures seen(self.items()), r@.len() == self.items().len(), forall|k: int| 0 <= k < r@.len() ==> call_ensures(g, (self.items()[k],), #[trigger] r@[k]);
    fn v_fold<A, G: Fn(A, T) -> A>(self, init: A, g: G) -> (r: A)
        where T: Copy
        requires forall|a: A, k: int| 0 <= k < self.items().len() ==> #[trigger] call_requires(g, (a, self.items()[k])),
        ensures seen(self.items()), is_fold(g, init, self.items(), r);
    fn v_all<G: Fn(T) -> bool>(self, g: G) -> (r: bool)
        where T: Copy
        requires forall|k: int| 0 <= k < self.items().len() ==> call_requires(g, (#[trigger] self.items()[k],)),
        ensures seen(self.items()),
            r ==> forall|k: int| 0 <= k < self.items().len() ==> call_ensures(g, (#[trigger] self.items()[k],), true),
            !r ==> exists|k: int| 0 <= k < self.items().len() && call_ensures(g, (#[trigger] self.items()[k],), false);
    fn v_any<G: Fn(T) -> bool>(self, g: G) -> (r: bool)
        where T: Copy
        requires forall|k: int| 0 <= k < self.items().len() ==> call_requires(g, (#[trigger] self.items()[k],)),
        ensures seen(self.items()),
            !r ==> forall|k: int| 0 <= k < self.items().len() ==> call_ensures(g, (#[trigger] self.items()[k],), false),
            r ==> exists|k: int| 0 <= k < self.items().len() && call_ensures(g, (#[trigger] self.items()[k],), true);
    fn v_zip<U: Copy, J: Items<U>>(self, o: J) -> (r: It<(T, U)>)
        where T: Copy
        ensures seen(self.items()), r@.len() == (if self.items().len() <= o.items().len() { self.items().len() } else { o.items().len() }),
            forall|k: int| #![trigger r@[k]] #![trigger self.items()[k]] 0 <= k < r@.len() ==> r@[k] == (self.items()[k], o.items()[k]);
    fn v_enumerate(self) -> (r: It<(usize, T)>)
        where T: Copy
        ensures seen(self.items()), r@.len() == self.items().len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (k as usize, self.items()[k]);
    fn v_rev(self) -> (r: It<T>)
        where T: Copy
        ensures seen(self.items()), r@ == self.items().reverse();
    fn v_collect(self) -> (r: Vec<T>)
        ensures seen(self.items()), r@ == self.items();
}
// (what std calls an iterator: a Vec or an array is none until it is asked for one)
pub trait AnIterator {}
impl<T> AnIterator for It<T> {}
impl AnIterator for std::ops::Range<usize> {}
impl<T, I: Items<T> + AnIterator> Adaptors<T> for I {
    fn v_map<U, G: Fn(T) -> U>(self, g: G) -> (r: It<U>)
        where T: Copy
    {
        let ghost s = self.items();
        let it = self.v_into_iter();
        let mut out: Vec<U> = Vec::new();
        for k in 0..it.v.len()
            invariant
                it@ == s, out@.len() == k,
                forall|k: int| 0 <= k < s.len() ==> call_requires(g, (#[trigger] s[k],)),
                forall|j: int| 0 <= j < k ==> call_ensures(g, (s[j],), #[trigger] out@[j]),
        {
            assert(it@[k as int] == s[k as int]);
            out.push(g(it.v[k]));
        }
        It { v: out }
    }
    fn v_fold<A, G: Fn(A, T) -> A>(self, init: A, g: G) -> (r: A)
        where T: Copy
    {
        let ghost s = self.items();
        let it = self.v_into_iter();
        let mut acc = init;
        proof { is_fold_nil(g, init, s.take(0)); }
        for k in 0..it.v.len()
            invariant
                it@ == s, s == self.items(),
                forall|a: A, k: int| 0 <= k < s.len() ==> #[trigger] call_requires(g, (a, s[k])),
                is_fold(g, init, s.take(k as int), acc),
        {
            let ghost m = acc;
            assert(it@[k as int] == s[k as int]);
            acc = g(acc, it.v[k]);
            proof {
                is_fold_step(g, init, s.take(k as int), m, s[k as int], acc);
                assert(s.take(k as int).push(s[k as int]) =~= s.take(k + 1));
            }
        }
        assert(s.take(s.len() as int) =~= s);
        acc
    }
    fn v_all<G: Fn(T) -> bool>(self, g: G) -> (r: bool)
        where T: Copy
    {
        let ghost s = self.items();
        let it = self.v_into_iter();
        for k in 0..it.v.len()
            invariant
                it@ == s, s == self.items(),
                forall|k: int| 0 <= k < s.len() ==> call_requires(g, (#[trigger] s[k],)),
                forall|j: int| 0 <= j < k ==> call_ensures(g, (#[trigger] s[j],), true),
        {
            assert(it@[k as int] == s[k as int]);
            if !g(it.v[k]) { assert(call_ensures(g, (s[k as int],), false)); return false; }
        }
        true
    }
    fn v_any<G: Fn(T) -> bool>(self, g: G) -> (r: bool)
        where T: Copy
    {
        let ghost s = self.items();
        let it = self.v_into_iter();
        for k in 0..it.v.len()
            invariant
                it@ == s, s == self.items(),
                forall|k: int| 0 <= k < s.len() ==> call_requires(g, (#[trigger] s[k],)),
                forall|j: int| 0 <= j < k ==> call_ensures(g, (#[trigger] s[j],), false),
        {
            assert(it@[k as int] == s[k as int]);
            if g(it.v[k]) { assert(call_ensures(g, (s[k as int],), true)); return true; }
        }
        false
    }
    fn v_zip<U: Copy, J: Items<U>>(self, o: J) -> (r: It<(T, U)>)
        where T: Copy
    {
        let ghost s = self.items();
        let ghost t = o.items();
        let x = self.v_into_iter();
        let y = o.v_into_iter();
        let mut out: Vec<(T, U)> = Vec::new();
        let n = if x.v.len() <= y.v.len() { x.v.len() } else { y.v.len() };
        for k in 0..n
            invariant
                x@ == s, y@ == t, s == self.items(), t == o.items(), n == (if s.len() <= t.len() { s.len() } else { t.len() }), out@.len() == k,
                forall|j: int| 0 <= j < k ==> #[trigger] out@[j] == (s[j], t[j]),
        { out.push((x.v[k], y.v[k])); }
        It { v: out }
    }
    fn v_enumerate(self) -> (r: It<(usize, T)>)
        where T: Copy
    {
        let ghost s = self.items();
        let x = self.v_into_iter();
        let mut out: Vec<(usize, T)> = Vec::new();
        for k in 0..x.v.len()
            invariant x@ == s, out@.len() == k, forall|j: int| 0 <= j < k ==> #[trigger] out@[j] == (j as usize, s[j]),
        { out.push((k, x.v[k])); }
        It { v: out }
    }
    fn v_rev(self) -> (r: It<T>)
        where T: Copy
    {
        let ghost s = self.items();
        let x = self.v_into_iter();
        let mut out: Vec<T> = Vec::new();
        let n = x.v.len();
        for k in 0..n
            invariant x@ == s, n == s.len(), out@ =~= s.reverse().take(k as int),
        { out.push(x.v[n - 1 - k]); }
        It { v: out }
    }
    fn v_collect(self) -> (r: Vec<T>) { let r = self.v_into_iter(); r.v }
}
impl<'a, T: Copy> It<&'a T> {
    pub fn v_copied(self) -> (r: It<T>)
        ensures r@ == derefs(self@)
    {
        let mut out: Vec<T> = Vec::new();
        for k in 0..self.v.len()
            invariant out@ =~= derefs(self@).take(k as int),
        { out.push(*self.v[k]); }
        It { v: out }
    }
    pub fn v_cloned(self) -> (r: It<T>)
        ensures r@ == derefs(self@)
    { self.v_copied() }
}
impl<T: Copy> It<T> {
    pub fn v_len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn v_at(&self, k: usize) -> (r: T) requires k < self@.len() ensures r == self@[k as int] { self.v[k] }
}
impl<T> It<T> {
    pub fn v_next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    {
        if self.v.len() == 0 { None } else {
            let x = self.v.remove(0);
            assert(self@ =~= old(self)@.skip(1));
            Some(x)
        }
    }
}
pub fn v_into_iter<T, I: Items<T>>(x: I) -> (r: It<T>) ensures r@ == x.items() { x.v_into_iter() }
pub fn v_once<T>(x: T) -> (r: It<T>) ensures r@ =~= seq![x] { let mut v = Vec::new(); v.push(x); It { v } }
// products: std multiplies from the left; every partial product has to fit the machine integer
pub open spec fn prod(s: Seq<usize>) -> int
    decreases s.len()
{ if s.len() == 0 { 1 } else { prod(s.drop_last()) * s.last() } }
pub open spec fn fits(s: Seq<usize>) -> bool { forall|k: int| 0 <= k <= s.len() ==> prod(#[trigger] s.take(k)) <= usize::MAX }
pub trait Product {
    spec fn factors(&self) -> Seq<usize>;
    fn v_product(self) -> (r: usize) where Self: Sized requires fits(self.factors()) ensures r == prod(self.factors());
}
impl Product for It<usize> {
    open spec fn factors(&self) -> Seq<usize> { self@ }
    fn v_product(self) -> (r: usize) {
        let ghost s = self@;
        let mut acc = 1usize;
        for k in 0..self.v.len()
            invariant s == self@, fits(s), acc == prod(s.take(k as int)),
        {
            assert(s.take(k + 1).drop_last() =~= s.take(k as int));
            assert(prod(s.take(k + 1)) <= usize::MAX);
            assert(acc * s[k as int] == prod(s.take(k + 1)));
            acc = acc * self.v[k];
        }
        assert(s.take(s.len() as int) =~= s);
        acc
    }
}
impl<'a> Product for It<&'a usize> {
    open spec fn factors(&self) -> Seq<usize> { derefs(self@) }
    fn v_product(self) -> (r: usize) { self.v_copied().v_product() }
}
// itertools: the last factor runs fastest
pub open spec fn cart<A, B>(x: Seq<A>, y: Seq<B>) -> Seq<(A, B)> { Seq::new(x.len() * y.len(), |k: int| (x[k / (y.len() as int)], y[k % (y.len() as int)])) }
pub fn v_cartesian<A: Copy, B: Copy, I: Items<A>, J: Items<B>>(x: I, y: J) -> (r: It<(A, B)>)
    ensures r@ == cart(x.items(), y.items())
{
    let ghost s = x.items();
    let ghost t = y.items();
    let a = x.v_into_iter();
    let b = y.v_into_iter();
    let mut out: Vec<(A, B)> = Vec::new();
    let (m, n) = (a.v.len(), b.v.len());
    assert(0 * n == 0) by (nonlinear_arith);
    for i in 0..m
        invariant a@ == s, b@ == t, m == s.len(), n == t.len(), out@.len() == i * n, forall|k: int| 0 <= k < i * n ==> #[trigger] out@[k] == (s[k / (n as int)], t[k % (n as int)]),
    {
        for j in 0..n
            invariant
                a@ == s, b@ == t, m == s.len(), n == t.len(), i < m, out@.len() == i * n + j,
                forall|k: int| 0 <= k < i * n + j ==> #[trigger] out@[k] == (s[k / (n as int)], t[k % (n as int)]),
        {
            proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * n + j, n as int, i as int, j as int); }
            out.push((a.v[i], b.v[j]));
        }
        assert((i + 1) * n == i * n + n) by (nonlinear_arith);
    }
    assert(out@ =~= cart(s, t));
    It { v: out }
}
pub trait ConsTuples {
    type Out;
    spec fn flat(&self) -> Seq<Self::Out>;
    fn cons(self) -> (r: It<Self::Out>) where Self: Sized ensures r@ == self.flat();
}
pub fn v_cons_tuples<I: ConsTuples>(x: I) -> (r: It<I::Out>) ensures r@ == x.flat() { x.cons() }
impl<A: Copy, B: Copy, C: Copy> ConsTuples for It<((A, B), C)> {
    type Out = (A, B, C);
    open spec fn flat(&self) -> Seq<(A, B, C)> { Seq::new(self@.len(), |k: int| (self@[k].0.0, self@[k].0.1, self@[k].1)) }
    fn cons(self) -> (r: It<(A, B, C)>) {
        let mut out: Vec<(A, B, C)> = Vec::new();
        for k in 0..self.v.len() invariant out@ =~= self.flat().take(k as int) { let x = self.v[k]; out.push((x.0.0, x.0.1, x.1)); }
        It { v: out }
    }
}
impl<A: Copy, B: Copy, C: Copy, D: Copy> ConsTuples for It<((A, B, C), D)> {
    type Out = (A, B, C, D);
    open spec fn flat(&self) -> Seq<(A, B, C, D)> { Seq::new(self@.len(), |k: int| (self@[k].0.0, self@[k].0.1, self@[k].0.2, self@[k].1)) }
    fn cons(self) -> (r: It<(A, B, C, D)>) {
        let mut out: Vec<(A, B, C, D)> = Vec::new();
        for k in 0..self.v.len() invariant out@ =~= self.flat().take(k as int) { let x = self.v[k]; out.push((x.0.0, x.0.1, x.0.2, x.1)); }
        It { v: out }
    }
}
impl<A: Copy, B: Copy, C: Copy, D: Copy, E: Copy> ConsTuples for It<((A, B, C, D), E)> {
    type Out = (A, B, C, D, E);
    open spec fn flat(&self) -> Seq<(A, B, C, D, E)> { Seq::new(self@.len(), |k: int| (self@[k].0.0, self@[k].0.1, self@[k].0.2, self@[k].0.3, self@[k].1)) }
    fn cons(self) -> (r: It<(A, B, C, D, E)>) {
        let mut out: Vec<(A, B, C, D, E)> = Vec::new();
        for k in 0..self.v.len() invariant out@ =~= self.flat().take(k as int) { let x = self.v[k]; out.push((x.0.0, x.0.1, x.0.2, x.0.3, x.1)); }
        It { v: out }
    }
}
impl<A: Copy, B: Copy, C: Copy, D: Copy, E: Copy, F: Copy> ConsTuples for It<((A, B, C, D, E), F)> {
    type Out = (A, B, C, D, E, F);
    open spec fn flat(&self) -> Seq<(A, B, C, D, E, F)> { Seq::new(self@.len(), |k: int| (self@[k].0.0, self@[k].0.1, self@[k].0.2, self@[k].0.3, self@[k].0.4, self@[k].1)) }
    fn cons(self) -> (r: It<(A, B, C, D, E, F)>) {
        let mut out: Vec<(A, B, C, D, E, F)> = Vec::new();
        for k in 0..self.v.len() invariant out@ =~= self.flat().take(k as int) { let x = self.v[k]; out.push((x.0.0, x.0.1, x.0.2, x.0.3, x.0.4, x.1)); }
        It { v: out }
    }
}
// concat-arrays: one array after the other
pub fn v_concat<const M: usize, const N: usize, const K: usize>(x: [usize; M], y: [usize; N]) -> (r: [usize; K])
    requires K == M + N
    ensures forall|k: int| 0 <= k < M ==> #[trigger] r@[k] == x@[k], forall|k: int| 0 <= k < N ==> r@[M + k] == #[trigger] y@[k],
{
    let mut r = [0usize; K];
    for k in 0..M invariant K == M + N, forall|j: int| 0 <= j < k ==> #[trigger] r@[j] == x@[j] { r[k] = x[k]; }
    for k in 0..N invariant K == M + N, forall|j: int| 0 <= j < M ==> #[trigger] r@[j] == x@[j], forall|j: int| 0 <= j < k ==> r@[M + j] == #[trigger] y@[j] { r[M + k] = y[k]; }
    r
}
pub fn v_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == x,
{
    let mut out: Vec<T> = Vec::new();
    for k in 0..n
        invariant out@.len() == k, forall|j: int| 0 <= j < k ==> #[trigger] out@[j] == x,
    { out.push(x); }
    out
}
// array-init's documented contract: the element at k is what the function gives for k
#[verifier::external_body]
pub fn v_array_init<T, const N: usize, G: Fn(usize) -> T>(g: G) -> (r: [T; N])
    requires forall|k: usize| k < N ==> #[trigger] call_requires(g, (k,)),
    ensures forall|k: usize| k < N ==> call_ensures(g, (k,), #[trigger] r@[k as int]),
{ unimplemented!() }
// std's contract of <[T; N]>::map
#[verifier::external_body]
pub fn v_array_map<T, U, const N: usize, G: Fn(T) -> U>(a: [T; N], g: G) -> (r: [U; N])
    requires forall|k: int| 0 <= k < N ==> call_requires(g, (#[trigger] a@[k],)),
    ensures forall|k: int| 0 <= k < N ==> call_ensures(g, (a@[k],), #[trigger] r@[k]),
{ unimplemented!() }
pub trait ResultX<T, E>: Sized {
    spec fn res(&self) -> Result<T, E>;
    fn v_unwrap_unchecked(self) -> (r: T) requires self.res() is Ok ensures r == self.res()->Ok_0;
    fn v_unwrap(self) -> (r: T) requires self.res() is Ok ensures r == self.res()->Ok_0;
    fn v_ok(self) -> (r: Option<T>) ensures r == (match self.res() { Ok(x) => Some(x), Err(_) => None });
    fn v_map<U, G: FnOnce(T) -> U>(self, g: G) -> (r: Result<U, E>)
        requires self.res() is Ok ==> call_requires(g, (self.res()->Ok_0,)),
        ensures self.res() is Ok ==> r is Ok && call_ensures(g, (self.res()->Ok_0,), r->Ok_0), self.res() is Err ==> r is Err && r->Err_0 == self.res()->Err_0;
}
impl<T, E> ResultX<T, E> for Result<T, E> {
    open spec fn res(&self) -> Result<T, E> { *self }
    fn v_unwrap_unchecked(self) -> (r: T) { match self { Ok(x) => x, Err(_) => unreached() } }
    fn v_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => unreached() } }
    fn v_ok(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => None } }
    fn v_map<U, G: FnOnce(T) -> U>(self, g: G) -> (r: Result<U, E>) { match self { Ok(x) => Ok(g(x)), Err(e) => Err(e) } }
}
pub fn unreached<T>() -> (r: T) requires false { loop invariant false decreases 0int {} }
} // verus!

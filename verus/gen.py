"""Skeletons that repeat per rank."""
AX = "ABCDEF"
DIVIDES = """pub proof fn divides(k: int, m: int, n: int)
    requires 0 <= k < m * n, 0 <= m, 0 <= n
    ensures n > 0, 0 <= k / n < m, 0 <= k % n < n, k == (k / n) * n + k % n
{
    assert(n > 0) by (nonlinear_arith) requires 0 <= k < m * n, 0 <= n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(k, n);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, n);
    assert(n * m == m * n) by (nonlinear_arith);
    assert(k / n < m) by { vstd::arithmetic::div_mod::lemma_multiply_divide_lt(k, n, m); }
    assert(n * (k / n) == (k / n) * n) by (nonlinear_arith);
}"""


def lt(ix, dims):
    """0-based components of index text `ix` under the extents"""
    if len(dims) == 0:
        return "true"
    if len(dims) == 1:
        return "%s < %s" % (ix, dims[0])
    return " && ".join("%s@[%d] < %s" % (ix, k, d) for k, d in enumerate(dims))


def comp(ix, rank, k):
    return ix if rank == 1 else "%s@[%d]" % (ix, k)


def ixty(rank):
    return "()" if rank == 0 else "usize" if rank == 1 else "[usize; %d]" % rank


def consts(names):
    return "".join("const %s: usize, " % n for n in names)[:-2]


def sh(rank, names):
    return "S0" if rank == 0 else "S%d<%s>" % (rank, ", ".join(names))


def alpha(names, start=0):
    return ",".join("G%d" % (start + k) for k in range(len(names)))


def key(rank, start=0):
    return "S0" if rank == 0 else "S%d<%s>" % (rank, ",".join("G%d" % (start + k) for k in range(rank)))


def shapes():
    o = ["// Contracts of the shapes, for every extent.", "verus! {", "//@prop C10"]
    for r in range(7):
        o.append("#[derive(Copy, Clone)] pub struct %s;" % ("S0" if r == 0 else "S%d<%s>" % (r, consts(AX[:r]))))
        # unit structs are equal
    o += ["""#[derive(Copy, Clone)] pub struct SDynamic<const DIM: usize>(pub [usize; DIM]);
pub struct IncompatibleShapes<L, R = L> { pub left: L, pub right: R }
pub open spec fn same<const DIM: usize>(a: SDynamic<DIM>, b: SDynamic<DIM>) -> bool { forall|k: int| 0 <= k < DIM ==> #[trigger] a.0@[k] == b.0@[k] }
// std's derive(PartialEq) on SDynamic
impl<const DIM: usize> PartialEq for SDynamic<DIM> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<const DIM: usize> vstd::std_specs::cmp::PartialEqSpecImpl for SDynamic<DIM> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { same(*self, *o) }
}
// the number of entries: the product of the extents
"""]
    for r in range(2, 7):
        a = ", ".join("%s: usize" % x for x in AX[:r])
        l = ", ".join(AX[:r])
        p = AX[0]
        steps = ["reveal_with_fuel(prod, %d);" % (r + 2)]
        prev = "Seq::<usize>::empty()"
        for k in range(1, r + 1):
            steps.append("assert(s.take(%d).drop_last() =~= s.take(%d));" % (k, k - 1))
        o.append("pub proof fn prod%d(%s) ensures ({ let s = [%s]@; prod(s.take(0)) == 1 && %s && s.take(%d) == s }) { let s = [%s]@; %s assert(s.take(%d) =~= s); }" % (
            r, a, l, " && ".join("prod(s.take(%d)) == %s" % (k, "*".join(AX[:k])) for k in range(1, r + 1)), r, l, " ".join(steps), r))
    # contains / cardinality / indices
    for r in range(7):
        n = AX[:r]
        g = "<%s>" % consts(n) if r else ""
        me = sh(r, n)
        K = key(r)
        ig = " ".join(n)
        o.append("//@fn Shape for %s::contains | %s | | this ix" % (K, ig))
        o.append("pub fn contains_s%d%s(this: &%s, ix: %s) -> (r: bool)\n    ensures r == (%s)" % (r, g, me, ixty(r), lt("ix", n)))
        if r >= 2:
            o.append("//@pre\n    proof { let d = [%s]@; %s }" % (", ".join(n), " ".join("assert(d[%d] == %s);" % (k, x) for k, x in enumerate(n))))
            o.append("//@post\n    proof { let d = [%s]@; let x = ix@; %s }" % (", ".join(n), " ".join("assert(x[%d] == ix@[%d] && d[%d] == %s);" % (k, k, k, x) for k, x in enumerate(n))))
        o.append("//@end")
        o.append("//@fn Shape for %s::cardinality | %s | | this" % (K, ig))
        req = ""
        if r >= 2:
            req = "\n    requires %s" % ", ".join("%s <= usize::MAX" % "*".join(n[:k]) for k in range(2, r + 1))
        o.append("pub fn cardinality_s%d%s(this: &%s) -> (r: usize)%s\n    ensures r == %s" % (r, g, me, req, "*".join(n) if r else "1"))
        if r >= 2:
            o.append("//@pre\n    proof { prod%d(%s); let s = [%s]@; assert forall|k: int| 0 <= k <= s.len() implies prod(#[trigger] s.take(k)) <= usize::MAX by { %s } }" % (
                r, ", ".join(n), ", ".join(n), " else ".join("if k == %d { assert(prod(s.take(%d)) <= usize::MAX); }" % (k, k) for k in range(r + 1))))
        o.append("//@end")
        o.append("//@fn Shape for %s::indices | %s | | this" % (K, ig))
        if r == 0:
            o.append("pub fn indices_s0(this: &S0) -> (r: It<()>)\n    ensures r@ =~= seq![()]")
        elif r == 1:
            o.append("pub fn indices_s1%s(this: &%s) -> (r: std::ops::Range<usize>)\n    ensures r.items().len() == A, forall|k: int| 0 <= k < A ==> #[trigger] r.items()[k] == k" % (g, me))
        else:
            pos = "(#[trigger] r@[k])@[0]"
            for k in range(1, r):
                pos = "(%s) * %s + r@[k]@[%d]" % (pos, n[k], k)
            ens = ["r@.len() == %s" % "*".join(n), "forall|k: int| 0 <= k < r@.len() ==> k == %s" % pos,
                   "forall|k: int| 0 <= k < r@.len() ==> (%s)" % " && ".join("(#[trigger] r@[k])@[%d] < %s" % (j, x) for j, x in enumerate(n))]
            o.append("pub fn indices_s%d%s(this: &%s) -> (r: Box<It<[usize; %d]>>)\n    ensures\n%s" % (r, g, me, r, "".join("        %s,\n" % e for e in ens)))
            # k -> components by repeated division
            div, terms = "k", []
            body = ""
            for j in range(r - 1, 0, -1):
                body += "let q%d = %s / (%s as int); let m%d = %s %% (%s as int); divides(%s, %s, %s as int); " % (j, div, n[j], j, div, n[j], div, "*".join("(%s as int)" % x for x in n[:j]), n[j])
                div = "q%d" % j
            o.append("//@post\n    proof { assert forall|k: int| 0 <= k < %s implies %s && k == %s by { %s } }" % (
                "*".join(n), " && ".join("(#[trigger] __r@[k])@[%d] < %s" % (j, x) for j, x in enumerate(n)), pos.replace("r@", "__r@").replace("#[trigger] ", ""), body))
        o.append("//@end")
    o.append(DIVIDES)
    # broadcasting
    for r in range(7):
        n = AX[:r]
        g = "<%s>" % consts(n) if r else ""
        me, K, ig = sh(r, n), key(r), " ".join(n)
        o.append("//@fn Broadcast for %s::broadcast | %s | | this _\npub fn broadcast_s%d%s(this: %s, _o: %s) -> (r: Result<$assoc:Shape=%s$, IncompatibleShapes<%s>>)\n    ensures r is Ok && r->Ok_0 == this\n//@end" % (K, ig, r, g, me, me, me, me))
        if r:
            o.append("//@fn Broadcast<S0> for %s::broadcast | %s | | this _\npub fn broadcast_s%d_0%s(this: %s, _o: S0) -> (r: Result<$assoc:Shape=%s$, IncompatibleShapes<%s, S0>>)\n    ensures r is Ok && r->Ok_0 == this\n//@end" % (K, ig, r, g, me, me, me))
            o.append("//@fn Broadcast<%s> for S0::broadcast | %s | | this rhs\npub fn broadcast_0_s%d%s(this: S0, rhs: %s) -> (r: Result<$assoc:Shape=%s$, IncompatibleShapes<S0, %s>>)\n    ensures r is Ok && r->Ok_0 == rhs\n//@end" % (K, ig, r, g, me, me, me))
    # joining
    for a in range(7):
        for b in range(7 - a):
            if 6 in (a, b):
                continue
            l, r = ["L%d" % k for k in range(a)], ["R%d" % k for k in range(b)]
            g = "<%s>" % consts(l + r) if a + b else ""
            out = sh(a + b, l + r)
            K = "Concat<%s> for %s" % (key(b, a), key(a))
            ig = " ".join(l + r)
            o.append("//@fn %s::concat | %s | | this _\npub fn concat_%d_%d%s(this: %s, _o: %s) -> (r: $assoc:Shape=%s$)\n    ensures r == %s\n//@end" % (K, ig, a, b, g, sh(a, l), sh(b, r), out, "S%d" % (a + b)))
            if a + b == 0:
                ens = "true"
            elif a + b == 1:
                ens = "r == %s" % ("x" if a else "y")
            else:
                ens = " && ".join("r@[%d] == %s" % (k, comp("x", a, k) if k < a else comp("y", b, k - a)) for k in range(a + b))
            p = ("x" if a else "_", "y" if b else "_")
            if a + b == 0:
                p = ("_", "_")
            o.append("//@fn %s::concat_indices | %s | | x y\npub fn concat_indices_%d_%d%s(x: %s, y: %s) -> (r: %s)\n    ensures %s\n//@end" % (K, ig, a, b, g, ixty(a), ixty(b), ixty(a + b), ens))
    # splitting
    for n, h in ((2, 1), (4, 2)):
        names = AX[:n]
        o.append("//@fn Split for %s::split | %s | | this\npub fn split_%d<%s>(this: %s) -> (r: ($assoc:Left=%s$, $assoc:Right=%s$))\n    ensures r == (S%d, S%d)\n//@end" % (
            key(n), " ".join(names), n, consts(names), sh(n, names), sh(h, names[:h]), sh(h, names[h:]), h, h))
        o.append("//@fn Split for %s::split_index | %s | | ix\npub fn split_index_%d<%s>(ix: %s) -> (r: (%s, %s))\n    ensures %s\n//@end" % (
            key(n), " ".join(names), n, consts(names), ixty(n), ixty(h), ixty(h), ", ".join("%s == ix@[%d]" % (comp("r.%d" % (k // h), h, k % h), k) for k in range(n))))
    # run-time shapes
    o.append("""
//@fn Shape for SDynamic<G0>::contains | DIM | | this ix
pub fn contains_dyn<const DIM: usize>(this: &SDynamic<DIM>, ix: [usize; DIM]) -> (r: bool)
    ensures r == (forall|k: int| 0 <= k < DIM ==> #[trigger] ix@[k] < this.0@[k])
//@pre
    let ghost xs = refs(ix@);
    let ghost ds = refs(this.0@);
//@post
    proof { assert forall|k: int| 0 <= k < DIM && __r implies #[trigger] ix@[k] < this.0@[k] by { assert(*xs[k] == ix@[k] && *ds[k] == this.0@[k]); } }
//@end
//@fn Shape for SDynamic<G0>::cardinality | DIM | | this
pub fn cardinality_dyn<const DIM: usize>(this: &SDynamic<DIM>) -> (r: usize)
    requires fits(this.0@)
    ensures r == prod(this.0@)
//@end
//@fn Broadcast for SDynamic<G0>::broadcast | DIM | | this rhs
pub fn broadcast_dyn<const DIM: usize>(this: SDynamic<DIM>, rhs: SDynamic<DIM>) -> (r: Result<SDynamic<DIM>, IncompatibleShapes<SDynamic<DIM>>>)
    ensures
        r is Ok <==> same(this, rhs),
        r is Ok ==> same(r->Ok_0, this),
        r is Err ==> same(r->Err_0.left, this) && same(r->Err_0.right, rhs),
//@end
//@fn Broadcast<S0> for SDynamic<G0>::broadcast | DIM | | this _
pub fn broadcast_dyn_0<const DIM: usize>(this: SDynamic<DIM>, _o: S0) -> (r: Result<$assoc:Shape=SDynamic<DIM>$, IncompatibleShapes<SDynamic<DIM>, S0>>)
    ensures r is Ok && same(r->Ok_0, this)
//@end
//@fn Broadcast<SDynamic<G0>> for S0::broadcast | DIM | | this rhs
pub fn broadcast_0_dyn<const DIM: usize>(this: S0, rhs: SDynamic<DIM>) -> (r: Result<$assoc:Shape=SDynamic<DIM>$, IncompatibleShapes<S0, SDynamic<DIM>>>)
    ensures r is Ok && same(r->Ok_0, rhs)
//@end
//@fn IncompatibleShapes<G0,G1>::reverse | L R | | this
pub fn reverse<L, R>(this: IncompatibleShapes<L, R>) -> (r: IncompatibleShapes<R, L>)
    ensures r.left == this.right, r.right == this.left
//@end
//@fn Ix for ()::is_diagonal | | | this
pub fn is_diagonal_0(this: &()) -> (r: bool)
    ensures r
//@end
//@fn Ix for usize::is_diagonal | | | this
pub fn is_diagonal_1(this: &usize) -> (r: bool)
    ensures r
//@end
//@fn Ix for [usize;G0]::is_diagonal | DIM | | this
pub fn is_diagonal<const DIM: usize>(this: &[usize; DIM]) -> (r: bool)
    ensures r == (forall|j: int, k: int| 0 <= j < DIM && 0 <= k < DIM ==> #[trigger] this@[j] == #[trigger] this@[k])
//@pre
    let ghost xs = refs(this@);
//@post
    proof { if __r && DIM > 0 { assert forall|j: int, k: int| 0 <= j < DIM && 0 <= k < DIM implies #[trigger] this@[j] == #[trigger] this@[k] by {
        assert(j == 0 || *xs.skip(1)[j - 1] == this@[j]); assert(k == 0 || *xs.skip(1)[k - 1] == this@[k]); } } }
//@end""")
    for a in range(7):
        for b in range(7):
            K = "Concat<SDynamic<%d>> for SDynamic<%d>" % (b, a)
            join = "forall|k: int| 0 <= k < %d ==> #[trigger] %%s@[k] == x%%s@[k], forall|k: int| 0 <= k < %d ==> %%s@[%d + k] == #[trigger] y%%s@[k]" % (a, b, a)
            o.append("//@fn %s::concat | | | x y\npub fn dconcat_%d_%d(x: SDynamic<%d>, y: SDynamic<%d>) -> (r: $assoc:Shape=SDynamic<%d>$)\n    ensures %s\n//@end" % (K, a, b, a, b, a + b, join % ("r.0", ".0", "r.0", ".0")))
            o.append("//@fn %s::concat_indices | | | x y\npub fn dconcat_indices_%d_%d(x: [usize; %d], y: [usize; %d]) -> (r: [usize; %d])\n    ensures %s\n//@end" % (K, a, b, a, b, a + b, join % ("r", "", "r", "")))
    o.append("} // verus!")
    return "\n".join(o)


# ---------------------------------------------------------------- arrays
def arr(el, ds):
    for d in reversed(ds):
        el = "[%s; %s]" % (el, d)
    return el


def arrk(ds, n):
    """key text of an array with extents G1.. of G0"""
    t = "G0"
    for k in range(n, 0, -1):
        t = "[%s;G%d]" % (t, k)
    return t


IV = "ijklm"


def at(x, ix):
    return x + "".join("@[%s]" % i for i in ix)


def ranges(ix, ds):
    return " && ".join("0 <= %s < %s" % (i, d) for i, d in zip(ix, ds))


def every(ix, ds, body, ty="int"):
    if not ix:
        return body.replace("#[trigger] ", "")
    return "forall|%s| %s ==> %s" % (", ".join("%s: %s" % (i, ty) for i in ix), ranges(ix, ds), body)


def closed(ds):
    """the components of the k-th index in row-major order"""
    r, k = [], "k"
    for d in reversed(ds[1:]):
        r.append("%s %% (%s as int)" % (k, d))
        k = "(%s / (%s as int))" % (k, d)
    r.append(k)
    return r[::-1]


def arrays(top=5):
    o = ["// Contracts of the array buffers, for every extent.", "verus! {", """
pub struct IncompatibleShapes<L, R = L> { pub left: L, pub right: R }
#[derive(Copy, Clone)] pub struct S0;
"""]
    for r in range(1, top + 1):
        ds = ["D%d" % k for k in range(1, r + 1)]
        o.append("#[derive(Copy, Clone)] pub struct S%d<%s>;" % (r, consts(ds)))
    for r in range(1, top + 1):
        ds = ["D%d" % k for k in range(1, r + 1)]
        ix = list(IV[:r])
        me, out = arr("F", ds), arr("A", ds)
        sub, subout = arr("F", ds[1:]), arr("A", ds[1:])
        g, sg, cd = "<F: Copy, %s>" % consts(ds), "<%s>" % consts(ds), ", ".join(ds)
        S = "S%d<%s>" % (r, cd)
        skey = "S%d<%s>" % (r, ",".join("G%d" % k for k in range(r)))
        K = arrk(ds, r)
        ixt = ixty(r)
        T = "B%d<F, %s>" % (r, cd)
        R = lambda t, e=None: "Result<%s, IncompatibleShapes<%s%s>>" % (t, S if e is None else e[0], "" if e is None else ", " + e[1])
        sm, rm = "self.me()", "rhs.me()"
        o.append("pub mod r%d { use super::*;%s" % (r, " use super::r%d::{B%d, B%d as Buffer, flat%d};" % (r - 1, r - 1, r - 1, r - 1) if r > 1 else " use super::r0::B0;"))
        # shape
        o.append("//@prop C10")
        o.append("impl%s %s {" % (sg, S))
        o.append("//@fn Shape for %s::indices | %s | | self" % (skey, " ".join(ds)))
        if r == 1:
            o.append("pub fn indices(&self) -> (r: std::ops::Range<usize>)\n    ensures r.items().len() == D1, forall|k: int| 0 <= k < D1 ==> #[trigger] r.items()[k] == k")
        else:
            o.append("pub fn indices(&self) -> (r: Box<It<%s>>)\n    ensures\n        r@.len() == %s,\n        forall|k: int| 0 <= k < r@.len() ==> (%s),\n        forall|k: int| 0 <= k < r@.len() ==> (%s)," % (
                ixt, "*".join(ds),
                " && ".join("%s@[%d] == %s" % ("(#[trigger] r@[k])" if j == 0 else "r@[k]", j, c) for j, c in enumerate(closed(ds))),
                " && ".join("%s@[%d] < %s" % ("(#[trigger] r@[k])" if j == 0 else "r@[k]", j, c) for j, c in enumerate(ds))))
            div, body = "k", ""
            for j in range(r - 1, 0, -1):
                body += "let q%d = %s / (%s as int); divides(%s, %s, %s as int); " % (j, div, ds[j], div, "*".join("(%s as int)" % x for x in ds[:j]), ds[j])
                div = "q%d" % j
            o.append("//@post\n    proof { assert forall|k: int| 0 <= k < %s implies %s && %s by { %s } }" % (
                "*".join(ds), " && ".join("(#[trigger] __r@[k])@[%d] < %s" % (j, x) for j, x in enumerate(ds)), " && ".join("__r@[k]@[%d] == %s" % (j, c) for j, c in enumerate(closed(ds))), body))
        o.append("//@end\n}")
        # contract
        o.append("//@prop C07")
        el = at(sm, ix)
        named = "%s@.len() == D1" % sm
        call = named + ", " + every(ix, ds, "call_requires(f, (#[trigger] %s,))" % el)
        mapped = every(ix, ds, "call_ensures(f, (%s,), #[trigger] %s)" % (el, at("r", ix)))
        o.append("pub trait B%d%s: Sized {" % (r, g))
        o.append("    spec fn me(&self) -> %s;" % me)
        o.append("    fn shape(&self) -> (r: %s);" % S)
        o.append("    fn v_get_unchecked(&self, ix: %s) -> (r: F)\n        requires %s\n        ensures %s, r == %s;" % (ixt, lt("ix", ds), named, at(sm, ["ix as int"] if r == 1 else ["ix@[%d] as int" % k for k in range(r)])))
        o.append("    fn map<A, M: Fn(F) -> A>(self, f: M) -> (r: %s)\n        requires %s\n        ensures %s, %s;" % (out, call, named, mapped))
        o.append("    fn map_ref<A, M: Fn(F) -> A>(&self, f: M) -> (r: %s)\n        requires %s\n        ensures %s, %s;" % (out, call, named, mapped))
        oc, fi = at("old(self).me()", ix), at("final(self).me()", ix)
        o.append("    fn mutate<M: Fn(F) -> F>(&mut self, f: M)\n        requires old(self).me()@.len() == D1, %s\n        ensures old(self).me()@.len() == D1, final(self).me()@.len() == D1, %s;" % (
            every(ix, ds, "call_requires(f, (#[trigger] %s,))" % oc), every(ix, ds, "call_ensures(f, (%s,), #[trigger] %s)" % (oc, fi))))
        o.append("    fn v_fold<A, M: Fn(A, F) -> A>(&self, init: A, f: M) -> (r: A)\n        requires %s, forall|a: A, %s| %s ==> #[trigger] call_requires(f, (a, %s))\n        ensures %s, is_fold(f, init, flat%d(%s), r);" % (
            named, ", ".join("%s: int" % i for i in ix), ranges(ix, ds), el, named, r, sm))
        o.append("}\n//@prop C08\npub trait BZ%d%s: Sized {\n    spec fn mz(&self) -> %s;" % (r, g, me))
        sm, rm = "self.mz()", "rhs.mz()"
        el = at(sm, ix)
        oc, fi = at("old(self).mz()", ix), at("final(self).mz()", ix)
        named = "%s@.len() == D1, %s@.len() == D1" % (sm, rm)
        re = at(rm, ix)
        call2 = named + ", " + every(ix, ds, "#[trigger] call_requires(f, (%s, %s))" % (el, re))
        o.append("    fn zip_map<A, M: Fn(F, F) -> A>(self, rhs: &Self, f: M) -> (r: %s)\n        requires %s\n        ensures %s, r is Ok, %s;" % (
            R(out), call2, named, every(ix, ds, "call_ensures(f, (%s, %s), #[trigger] %s)" % (el, re, at("r->Ok_0", ix)))))
        o.append("    fn zip_mut<M: Fn(F, F) -> F>(&mut self, rhs: &Self, f: M) -> (r: %s)\n        requires old(self).mz()@.len() == D1, %s@.len() == D1, %s\n        ensures old(self).mz()@.len() == D1, final(self).mz()@.len() == D1, %s@.len() == D1, r is Ok, %s;" % (
            R("()"), rm, every(ix, ds, "#[trigger] call_requires(f, (%s, %s))" % (oc, re)), rm, every(ix, ds, "call_ensures(f, (%s, %s), #[trigger] %s)" % (oc, re, fi))))
        o.append("    fn zip_shape(self, o: %s) -> (r: %s)\n        ensures r is Ok, r->Ok_0 == %s;" % (S, R(me), sm))
        pairs = "zipped%d(%s, %s)" % (r, sm, rm)
        o.append("    fn zip_fold<A, M: Fn(A, (F, F)) -> A>(&self, rhs: &Self, acc: A, f: M) -> (r: %s)\n        requires %s, forall|a: A, %s| %s ==> #[trigger] call_requires(f, (a, (%s, %s)))\n        ensures r is Ok, is_fold(f, acc, %s, r->Ok_0);" % (
            R("A"), named, ", ".join("%s: int" % i for i in ix), ranges(ix, ds), el, re, pairs))
        o.append("}")
        # the scalar on the right
        o.append("pub trait BS%d%s: Sized {" % (r, g))
        o.append("    spec fn ms(&self) -> %s;" % me)
        ss = "self.ms()"
        els, ocs, fis = at(ss, ix), at("old(self).ms()", ix), at("final(self).ms()", ix)
        call3 = "%s@.len() == D1, " % ss + every(ix, ds, "call_requires(f, (#[trigger] %s, *rhs))" % els)
        o.append("    fn zip_map<A, M: Fn(F, F) -> A>(self, rhs: &F, f: M) -> (r: %s)\n        requires %s\n        ensures %s@.len() == D1, r is Ok, %s;" % (
            R(out, (S, "S0")), call3, ss, every(ix, ds, "call_ensures(f, (%s, *rhs), #[trigger] %s)" % (els, at("r->Ok_0", ix)))))
        o.append("    fn zip_mut<M: Fn(F, F) -> F>(&mut self, rhs: &F, f: M) -> (r: %s)\n        requires old(self).ms()@.len() == D1, %s\n        ensures old(self).ms()@.len() == D1, final(self).ms()@.len() == D1, r is Ok, %s;" % (
            R("()", (S, "S0")), every(ix, ds, "call_requires(f, (#[trigger] %s, *rhs))" % ocs), every(ix, ds, "call_ensures(f, (%s, *rhs), #[trigger] %s)" % (ocs, fis))))
        o.append("    fn zip_shape(self, o: S0) -> (r: %s)\n        ensures r is Ok, r->Ok_0 == %s;" % (R(me, (S, "S0")), ss))
        o.append("    fn zip_fold<A, M: Fn(A, (F, F)) -> A>(&self, rhs: &F, acc: A, f: M) -> (r: %s)\n        requires %s@.len() == D1, forall|a: A, %s| %s ==> #[trigger] call_requires(f, (a, (%s, *rhs)))\n        ensures r is Ok, is_fold(f, acc, paired%d(%s, *rhs), r->Ok_0);" % (
            R("A", (S, "S0")), ss, ", ".join("%s: int" % i for i in ix), ranges(ix, ds), els, r, ss))
        o.append("}")
        # specs
        o.append("pub open spec fn zipped%d%s(x: %s, y: %s) -> Seq<(F, F)> { Seq::new((%s) as nat, |k: int| (%s, %s)) }" % (r, g, me, me, "*".join(ds), at("x", closed(ds)), at("y", closed(ds))))
        o.append("pub open spec fn paired%d%s(x: %s, y: F) -> Seq<(F, F)> { Seq::new((%s) as nat, |k: int| (%s, y)) }" % (r, g, me, "*".join(ds), at("x", closed(ds))))
        if r == 1:
            o.append("pub open spec fn flat1%s(x: %s) -> Seq<F> { x@ }" % (g, me))
        else:
            o.append("pub open spec fn flat%d%s(x: %s) -> Seq<F> { rows%d::<F, %s>(x@) }" % (r, g, me, r, cd))
            o.append("pub open spec fn rows%d%s(s: Seq<%s>) -> Seq<F>\n    decreases s.len()\n{ if s.len() == 0 { seq![] } else { rows%d::<F, %s>(s.drop_last()) + flat%d(s.last()) } }" % (r, g, sub, r, cd, r - 1))
        # bodies
        ig = "F " + " ".join(ds)
        o.append("//@prop C07")
        o.append("impl%s B%d<F, %s> for %s {" % (g, r, cd, me))
        o.append("    open spec fn me(&self) -> %s { *self }" % me)
        o.append("//@fn Shaped for %s::shape | %s | | self\n    fn shape(&self) -> (r: %s)\n//@count 1\n//@end" % (K, ig, S))
        o.append("//@fn Buffer for %s::get_unchecked | %s | | self ix\n    fn v_get_unchecked(&self, ix: %s) -> (r: F)\n//@count 2\n//@end" % (K, ig, ixt))
        o.append("//@fn Buffer for %s::map | %s | A M | self f\n    fn map<A, M: Fn(F) -> A>(self, f: M) -> (r: %s)\n//@count 2" % (K, ig, out))
        inner, ids = ix[1:], ds[1:]
        if r > 1:
            o.append("//@closure-ret 0\n%s\n//@closure 0\n    requires %s, ensures %s," % (subout, every(inner, ids, "call_requires(f, (#[trigger] %s,))" % at("x", inner)), every(inner, ids, "call_ensures(f, (%s,), #[trigger] %s)" % (at("x", inner), at("ret", inner)))))
        o.append("//@end")
        # one closure per outermost position
        row = "requires i < D1, %s, ensures %s,"
        o.append("//@fn Buffer for %s::map_ref | %s | A M | self f\n    fn map_ref<A, M: Fn(F) -> A>(&self, f: M) -> (r: %s)\n//@count 2" % (K, ig, out))
        si = "self@[i as int]"
        o.append("//@closure-ret 0\n%s\n//@closure 0\n    " % subout + row % (every(inner, ids, "call_requires(f, (#[trigger] %s,))" % at(si, inner)), every(inner, ids, "call_ensures(f, (%s,), #[trigger] %s)" % (at(si, inner), at("ret", inner)))))
        o.append("//@end")
        o.append("//@fn Buffer for %s::mutate | %s | M | self f\n    fn mutate<M: Fn(F) -> F>(&mut self, f: M)\n//@count 3\n//@pre\n    let ghost o = *self;" % (K, ig))
        h = ["h"] + inner
        o.append("//@loop 0\n        invariant\n            forall|h: int| $i <= h < D1 ==> #[trigger] self@[h] == o@[h],\n            forall|%s| %s && h < $i ==> call_ensures(f, (%s,), #[trigger] %s),\n            %s,\n//@end" % (
            ", ".join("%s: int" % i for i in h), ranges(h, ds), at("o", h), at("self", h), every(ix, ds, "call_requires(f, (#[trigger] %s,))" % at("o", ix))))
        o.append("//@fn Buffer for %s::fold | %s | A M | self init f\n    fn v_fold<A, M: Fn(A, F) -> A>(&self, init: A, f: M) -> (r: A)\n//@count 3\n//@pre\n    let ghost a0 = init;" % (K, ig))
        if r == 1:
            o.append("    proof { is_fold_nil(f, a0, self@.take(0)); }\n//@loop 0\n        invariant is_fold(f, a0, self@.take($i as int), init),\n//@loop-pre 0\n            let ghost m = init;\n//@loop-post 0\n            proof { is_fold_step(f, a0, self@.take($i as int), m, self@[$i as int], init); assert(self@.take($i as int).push(self@[$i as int]) =~= self@.take($i + 1)); }\n//@loop-after 0\n    assert(self@.take(D1 as int) =~= self@);\n//@end")
        else:
            f = "rows%d::<F, %s>" % (r, cd)
            o.append("    proof { is_fold_nil(f, a0, %s(self@.take(0))); }\n//@loop 0\n        invariant is_fold(f, a0, %s(self@.take($i as int)), init),\n//@loop-pre 0\n            let ghost m = init;" % (f, f))
            o.append("//@loop-post 0\n            proof { let s = self@.take($i + 1); assert(s.drop_last() =~= self@.take($i as int)); assert(s.last() == self@[$i as int]); is_fold_ref(&f, f, m, flat%d(self@[$i as int]), init); is_fold_append(f, a0, %s(self@.take($i as int)), m, flat%d(self@[$i as int]), init); }" % (r - 1, f, r - 1))
            o.append("//@loop-after 0\n    assert(self@.take(D1 as int) =~= self@);\n//@end")
        o.append("//@prop C08")
        ri = "rhs@[i as int]"
        for kind in ("", "<G0>"):
            rhs = "&Self" if not kind else "&F"
            e = None if not kind else (S, "S0")
            if not kind:
                o.append("}\n}\npub mod z%d { use super::*; use super::r%d::{B%d, BZ%d, zipped%d};%s\nimpl%s BZ%d<F, %s> for %s {\n    open spec fn mz(&self) -> %s { *self }" % (r, r, r, r, r, " use super::r%d::BZ%d;" % (r - 1, r - 1) if r > 1 else "", g, r, cd, me, me))
            else:
                o.append("}\n}\npub mod s%d { use super::*; use super::r%d::{B%d, BS%d, paired%d};%s\nimpl%s BS%d<F, %s> for %s {\n    open spec fn ms(&self) -> %s { *self }" % (r, r, r, r, r, " use super::r%d::BS%d;" % (r - 1, r - 1) if r > 1 else "", g, r, cd, me, me))
            ro = lambda v: at("rhs", v) if not kind else "*rhs"
            o.append("//@fn ZipMap%s for %s::zip_map | %s | A M | self rhs f\n    fn zip_map<A, M: Fn(F, F) -> A>(self, rhs: %s, f: M) -> (r: %s)\n//@count 3" % (kind, K, ig, rhs, R(out, e)))
            rr = at(ri, inner) if not kind else "*rhs"
            tr = "#[trigger] call_requires(f, (%s, %s))" if not kind else "call_requires(f, (#[trigger] %s, %s))"
            o.append("//@closure-ret 0\n%s\n//@closure 0\n    " % subout + row % (every(inner, ids, tr % (at(si, inner), rr)), every(inner, ids, "call_ensures(f, (%s, %s), #[trigger] %s)" % (at(si, inner), rr, at("ret", inner)))))
            o.append("//@end")
            o.append("//@fn ZipMap%s for %s::zip_shape | %s | | self _\n    fn zip_shape(self, _o: %s) -> (r: %s)\n//@count 2\n//@end" % (kind, K, ig, "S0" if kind else S, R(me, e)))
            o.append("//@fn ZipMut%s for %s::zip_mut | %s | M | self rhs f\n    fn zip_mut<M: Fn(F, F) -> F>(&mut self, rhs: %s, f: M) -> (r: %s)\n//@count 4\n//@pre\n    let ghost o = *self;" % (kind, K, ig, rhs, R("()", e)))
            o.append("//@loop 0\n        invariant\n            forall|h: int| $i <= h < D1 ==> #[trigger] self@[h] == o@[h],\n            forall|%s| %s && h < $i ==> call_ensures(f, (%s, %s), #[trigger] %s),\n            %s,\n//@end" % (
                ", ".join("%s: int" % i for i in h), ranges(h, ds), at("o", h), ro(h), at("self", h), every(ix, ds, tr % (at("o", ix), ro(ix)))))
            z = "zipped%d(*self, *rhs)" % r if not kind else "paired%d(*self, *rhs)" % r
            o.append("//@fn ZipFold%s for %s::zip_fold | %s | A M | self rhs acc f\n    fn zip_fold<A, M: Fn(A, (F, F)) -> A>(&self, rhs: %s, acc: A, f: M) -> (r: %s)\n//@count 2\n//@pre\n    let ghost a0 = acc; let ghost z = %s;\n    proof { is_fold_nil(f, a0, z.take(0)); }" % (kind, K, ig, rhs, R("A", e), z))
            o.append("//@loop 0\n        invariant is_fold(f, a0, z.take($i as int), acc),\n//@loop-pre 0\n            let ghost m = acc;\n//@loop-post 0\n            proof { is_fold_step(f, a0, z.take($i as int), m, z[$i as int], acc); assert(z.take($i as int).push(z[$i as int]) =~= z.take($i + 1)); }\n//@loop-after 0\n    assert(z.take(z.len() as int) =~= z);\n//@end")
        o.append("}")
        for kind in ("", "<G0>"):
            # mapping in place
            el = at("this", ix)
            rhs, e, tr = ("*rhs", (S, "S0"), "call_requires(f, (#[trigger] %s, %s))") if kind else (at("rhs", ix), None, "#[trigger] call_requires(f, (%s, %s))")
            o.append("}\npub mod %s%d { use super::*; use super::r%d::%s%d;" % ("n" if kind else "m", r, r, "BS" if kind else "BZ", r))
            o.append("//@fn ZipMap%s for %s::zip_map_id | %s | M | this rhs f\npub fn zip_map_id<F: Copy, %s, M: Fn(F, F) -> F>(this: %s, rhs: &%s, f: M) -> (r: %s)\n    requires %s\n    ensures r is Ok, %s\n//@end" % (
                kind, K, ig, consts(ds), me, "F" if kind else me, R(me, e), every(ix, ds, tr % (el, rhs)), every(ix, ds, "call_ensures(f, (%s, %s), #[trigger] %s)" % (el, rhs, at("r->Ok_0", ix)))))
        o.append("}\npub mod l%d { use super::*; use super::a%d::Arrays;%s" % (r, r, " use super::r%d::BS%d;" % (r - 1, r - 1) if r > 1 else ""))
        # scalar on the left
        o.append("pub struct L%d;\nimpl L%d {" % (r, r))
        o.append("//@fn ZipMap<%s> for G0::zip_map | %s | A M | this rhs f\n    pub fn zip_map<F: Copy, %s, A, M: Fn(F, F) -> A>(this: F, rhs: &%s, f: M) -> (r: %s)\n        requires %s\n        ensures r is Ok, %s" % (
            K, ig, consts(ds), me, R(out, ("S0", S)), every(ix, ds, "call_requires(f, (this, #[trigger] %s))" % at("rhs", ix)), every(ix, ds, "call_ensures(f, (this, %s), #[trigger] %s)" % (at("rhs", ix), at("r->Ok_0", ix)))))
        o.append("//@closure-ret 0\n%s\n//@closure 0\n    " % subout + row % (every(inner, ids, "call_requires(f, (this, #[trigger] %s))" % at(ri, inner)), every(inner, ids, "call_ensures(f, (this, %s), #[trigger] %s)" % (at(ri, inner), at("ret", inner)))))
        o.append("//@end")
        o.append("//@fn ZipMap<%s> for G0::zip_shape | %s | | this rshape\n    pub fn zip_shape<F: Copy, %s>(this: F, rshape: %s) -> (r: %s)\n        ensures r is Ok, %s\n//@end\n}" % (
            K, ig, consts(ds), S, R(me, ("S0", S)), every(ix, ds, "#[trigger] %s == this" % at("r->Ok_0", ix))))
        # class
        o.append("//@prop C07")
        o.append("}\npub mod a%d { use super::*;\npub struct Arrays;\nimpl Arrays {" % r)
        inb = lt("ix", ds)
        okf = "forall|ix: %s| %s ==> #[trigger] call_requires(f, (ix,))" % (ixt, inb)
        lit = "[%s]" % ", ".join(ix) if r > 1 else "i"
        res = at("r", ["%s as int" % i for i in ix])
        o.append("//@fn Class<%s> for Arrays::build | %s | F | shape f\n    pub fn build<%s, F: Copy, G: Fn(%s) -> F>(shape: %s, f: G) -> (r: %s)\n        requires %s\n        ensures forall|%s| %s ==> call_ensures(f, (%s,), #[trigger] %s)" % (
            skey, " ".join(ds), consts(ds), ixt, S, me, okf, ", ".join("%s: usize" % i for i in ix), " && ".join("%s < %s" % p for p in zip(ix, ds)), lit, res))
        for c in range(r if r > 1 else 0):
            rest, rds = ix[c + 1:], ds[c + 1:]
            ens = "call_ensures(f, (%s,), #[trigger] %s)" % (lit, at("ret", ["%s as int" % i for i in rest])) if rest else "call_ensures(f, (%s,), ret)" % lit
            if rest:
                ens = "forall|%s| %s ==> %s" % (", ".join("%s: usize" % i for i in rest), " && ".join("%s < %s" % p for p in zip(rest, rds)), ens)
            o.append("//@closure-ret %d\n%s\n//@closure %d\n    requires %s, ensures %s," % (c, arr("F", rds), c, " && ".join("%s < %s" % p for p in list(zip(ix, ds))[:c + 1]), ens))
        o.append("//@end")
        o.append("//@fn Class<%s> for Arrays::full | %s | F | shape value\n    pub fn full<%s, F: Copy>(shape: %s, value: F) -> (r: %s)\n        ensures %s\n//@end" % (skey, " ".join(ds), consts(ds), S, me, every(ix, ds, "#[trigger] %s == value" % at("r", ix))))
        hit = lambda upto: "exists|q: int| 0 <= q < %s && (#[trigger] indices@[q]) == %s" % (upto, lit)
        vs = ", ".join("%s: usize" % i for i in ix)
        bd = " && ".join("%s < %s" % p for p in zip(ix, ds))
        def subset(b, upto):
            cell = at(b, ["%s as int" % i for i in ix])
            return "forall|%s| %s && !(%s) ==> #[trigger] %s == base,\n            forall|%s| %s && (%s) ==> call_ensures(active, (%s,), #[trigger] %s)," % (vs, bd, hit(upto), cell, vs, bd, hit(upto), lit, cell)
        valid = "forall|q: int| 0 <= q < indices@.len() ==> (%s)" % lt("(#[trigger] indices@[q])" if r == 1 else "indices@[q]", ds).replace("indices@[q]@[0]", "(#[trigger] indices@[q])@[0]")
        o.append("//@fn Class<%s> for Arrays::build_subset | %s | F | shape base indices active\n    pub fn build_subset<%s, F: Copy, G: Fn(%s) -> F>(shape: %s, base: F, indices: It<%s>, active: G) -> (r: %s)\n        requires %s,\n            %s,\n        ensures\n            %s" % (
            skey, " ".join(ds), consts(ds), ixt, S, ixt, me, okf.replace("(f,", "(active,"), valid, subset("r", "indices@.len()")))
        same_index = "" if r == 1 else "//@loop-post 0\n            proof { let w = $it@[$i as int]; assert forall|%s| #![trigger %s] (w == %s) == (%s) by { if %s { assert(w@ =~= %s@); assert(w =~= %s); } }; }\n" % (
            vs, at("buf", ["%s as int" % i for i in ix]), lit, " && ".join("w@[%d] == %s" % (n, i) for n, i in enumerate(ix)), " && ".join("w@[%d] == %s" % (n, i) for n, i in enumerate(ix)), lit, lit)
        o.append("//@loop 0\n        invariant\n            $it@ == indices@,\n            %s\n%s//@end\n}" % (subset("buf", "$i"), same_index))
        o.append("}")
    o.append("""pub mod r0 { use super::*;
// a scalar is its own only entry (the implementations for f64, f32 and the integers are under contract in scalars.rs)
pub trait B0<F> {
    spec fn m0(&self) -> F;
    fn map_ref<A, M: Fn(F) -> A>(&self, f: M) -> (r: A)
        requires call_requires(f, (self.m0(),)) ensures call_ensures(f, (self.m0(),), r);
    fn v_fold<A, M: Fn(A, F) -> A>(&self, init: A, f: M) -> (r: A)
        requires call_requires(f, (init, self.m0())) ensures call_ensures(f, (init, self.m0()), r);
}
impl<F: Copy> B0<F> for F {
    open spec fn m0(&self) -> F { *self }
    fn map_ref<A, M: Fn(F) -> A>(&self, f: M) -> (r: A) { f(*self) }
    fn v_fold<A, M: Fn(A, F) -> A>(&self, init: A, f: M) -> (r: A) { f(init, *self) }
}
}""")
    o.append("""pub proof fn is_fold_ref<A, T, G: Fn(A, T) -> A>(gr: &G, g: G, a: A, s: Seq<T>, r: A)
    requires is_fold(gr, a, s, r), *gr == g
    ensures is_fold(g, a, s, r)
{
    let acc = choose|acc: Seq<A>| #[trigger] is_run(gr, s, acc) && acc[0] == a && acc.last() == r;
    assert(is_run(g, s, acc));
}""")
    o.append(DIVIDES)
    import contract
    o.append(contract.text())
    o.append("} // verus!")
    return "\n".join(o)

// State contracts of the contexts: one operation from an arbitrary state, hence any history.
#[allow(unused_imports)]
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::buffers::{shapes::Shaped, Buffer, Spec};
use aegir::ids::{Theta, B, C, D, W, X, Y, Z};
use aegir::{ctx_type, meta::Cached, ops, Context, Differentiable, Function, Node, Read, Write};

type M2 = [[S; 2]; 2];
aegir::ids!(Foo::f, Bar);

aegir::ctx_type!(Plain { x: X, y: Y });
aegir::ctx_type!(One { cache only: C });
aegir::ctx_type!(Mixed { cache c: C, x: X, cache d: D, y: Y, th: Theta, });
#[derive(Context)]
struct Derived {
    #[id(X)]
    a: S,
    #[cache]
    #[id(C)]
    b: Option<M2>,
    #[id(D)]
    #[cache]
    c: Option<S>,
    /// documented
    #[allow(dead_code)]
    #[id(Foo)]
    pub x: (S, S),
    #[id(Bar)]
    y: Vec<S>,
}
#[derive(Context)]
struct Generic<T: Clone, U>
where
    U: Clone,
{
    #[id(Y)]
    u: U,
    #[id(X)]
    t: T,
    #[id(W)]
    w: [S; 3],
}

/// what a context gives under one identifier: value, lifted value and shape agree
fn read<I: aegir::Identifier, Cx: Read<I>>(c: &Cx, i: I) -> Option<Cx::Buffer>
where Cx::Buffer: Buf<V = S> {
    let v = real(|| c.read(i));
    let s = real(|| c.read_spec(i));
    let h = real(|| c.read_shape(i));
    check("value, lifted and shape reads agree on presence", v.is_some() == s.is_some() && v.is_some() == h.is_some(), || format!("{} {} {}", v.is_some(), s.is_some(), h.is_some()));
    if let (Some(v), Some(s), Some(h)) = (&v, &s, &h) {
        let d = v.dims();
        check("the shape read is the shape of the value", <Cx::Buffer as Buf>::sdims(h) == d && spec_dims(s) == d, || format!("{:?} {:?} {:?}", <Cx::Buffer as Buf>::sdims(h), spec_dims(s), d));
        if spec_dims(s) == d {
            for ix in all_ix(&d) { prove("the lifted read is the value", spec_at(s, &ix).same(v.at(&ix))); }
        }
    }
    v
}
fn same<B: Buf<V = S>>(label: &str, got: &Option<B>, want: &Option<B>) {
    match (got, want) {
        (None, None) => check(label, true, || String::new()),
        (Some(a), Some(b)) if a.dims() == b.dims() => for ix in all_ix(&a.dims()) { prove(label, a.at(&ix).same(b.at(&ix))); },
        (a, b) => check(label, false, || format!("present {} instead of {}, shape {:?} instead of {:?}", a.is_some(), b.is_some(), a.as_ref().map(|x| x.dims()), b.as_ref().map(|x| x.dims()))),
    }
}
// a context type's contract; `$init` lists every identifier with the buffer initially under it
macro_rules! contract {
    ($name:expr, $mk:expr, $( $id:ident : $t:ty = $init:expr ),+) => {{
        // initial reads
        fun(&format!("{}::read", $name));
        let c = $mk;
        $( same("reads what it was built with", &read(&c, $id), &$init); )+
        // each write
        contract!(@w $name, $mk; [$( $id : $t = $init ),+]; $( $id : $t = $init ),+);
    }};
    (@w $name:expr, $mk:expr; $all:tt; $( $id:ident : $t:ty = $init:expr ),+) => { $(
        for lifted in 0..4 {
            fun(&format!("{}::write<{}>", $name, stringify!($id)));
            let mut c = $mk;
            let d: Vec<usize> = dims_of::<$t>();
            let v: Spec<$t> = match lifted { 0 | 1 => Spec::Raw(fresh_buf::<$t>("new", &d)), 2 => Spec::Full(<$t as Buf>::shp(&d), S::fresh("fill")), _ => Spec::Diagonal(<$t as Buf>::shp(&d), S::fresh("fill")) };
            let want = dense(&v);
            if lifted == 0 { real(|| Write::<$id>::write(&mut c, $id, want.clone())); } else { real(|| Write::<$id>::write_spec(&mut c, $id, v)); }
            same("reads what was last written", &read(&c, $id), &Some(want.clone()));
            contract!(@o c, $id; $all);
            // a second write replaces the first
            let v2 = fresh_buf::<$t>("newer", &d);
            real(|| Write::<$id>::write(&mut c, $id, v2.clone()));
            same("reads what was last written", &read(&c, $id), &Some(v2));
        }
    )+ };
    (@o $c:ident, $id:ident; [$( $o:ident : $t:ty = $init:expr ),+]) => { $(
        if stringify!($o) != stringify!($id) { same("writing one identifier changes no other", &read(&$c, $o), &$init); }
    )+ };
}
fn dims_of<B: Buf>() -> Vec<usize> {
    let t = std::any::type_name::<B>();
    if t.contains("Vec<") { vec![3] } else if t.starts_with('(') { vec![2] } else if t.starts_with("[[") { vec![2, 2] } else if t.starts_with('[') { vec![if t.contains("; 3]") { 3 } else { 2 }] } else { vec![] }
}
fn b<T: Buf<V = S>>(n: &str) -> T { fresh_buf::<T>(n, &dims_of::<T>()) }

fn contexts() {
    match engine::choose(4) {
        0 => contract!("ctx_type! without caches", Plain { x: b::<S>("x"), y: b::<[S; 2]>("y") }, X: S = Some(b::<S>("x")), Y: [S; 2] = Some(b::<[S; 2]>("y"))),
        // two fields of the same type: a mixed-up field would still type-check
        1 => contract!("ctx_type! without caches", Plain { x: b::<S>("x"), y: b::<S>("y") }, X: S = Some(b::<S>("x")), Y: S = Some(b::<S>("y"))),
        2 => contract!("derive(Context), generic", Generic { u: b::<Vec<S>>("u"), t: b::<Vec<S>>("t"), w: b::<[S; 3]>("w") }, X: Vec<S> = Some(b::<Vec<S>>("t")), Y: Vec<S> = Some(b::<Vec<S>>("u")), W: [S; 3] = Some(b::<[S; 3]>("w"))),
        _ => contract!("ctx!", aegir::ctx! { X = b::<(S, S)>("x"), Y = b::<[[S; 2]; 2]>("y"), Theta = b::<S>("t"), Foo = b::<S>("f") },
            X: (S, S) = Some(b::<(S, S)>("x")), Y: [[S; 2]; 2] = Some(b::<[[S; 2]; 2]>("y")), Theta: S = Some(b::<S>("t")), Foo: S = Some(b::<S>("f"))),
    }
}
fn opt<T: Buf<V = S>>(on: bool, n: &str) -> Option<T> { if on { Some(b::<T>(n)) } else { None } }
fn caches() {
    let k = engine::choose(12);
    let (p, q) = (k % 2 == 1, (k / 2) % 2 == 1);
    match k / 4 {
        0 => contract!("ctx_type! with caches", Mixed { c: opt::<S>(p, "c"), x: b::<S>("x"), d: opt::<S>(q, "d"), y: b::<Vec<S>>("y"), th: b::<S>("th") },
            C: S = opt::<S>(p, "c"), X: S = Some(b::<S>("x")), D: S = opt::<S>(q, "d"), Y: Vec<S> = Some(b::<Vec<S>>("y")), Theta: S = Some(b::<S>("th"))),
        1 => contract!("derive(Context) with caches", Derived { a: b::<S>("a"), b: opt::<[[S; 2]; 2]>(p, "b"), c: opt::<S>(q, "c"), x: b::<(S, S)>("x"), y: b::<Vec<S>>("y") },
            X: S = Some(b::<S>("a")), C: [[S; 2]; 2] = opt::<[[S; 2]; 2]>(p, "b"), D: S = opt::<S>(q, "c"), Foo: (S, S) = Some(b::<(S, S)>("x")), Bar: Vec<S> = Some(b::<Vec<S>>("y"))),
        _ => contract!("ctx_type! with caches", One { only: opt::<(S, S)>(p, "only") }, C: (S, S) = opt::<(S, S)>(p, "only")),
    }
}
/// the provided methods of Read and Write, over a context that implements only the required ones
struct Least(Option<[S; 2]>);
impl AsMut<Least> for Least { fn as_mut(&mut self) -> &mut Least { self } }
impl Context for Least {}
impl Read<X> for Least { type Buffer = [S; 2]; fn read(&self, _: X) -> Option<[S; 2]> { self.0 } }
impl Write<X> for Least { fn write(&mut self, _: X, v: [S; 2]) { self.0 = Some(v) } }
fn provided() {
    match engine::choose(2) {
        0 => contract!("Read and Write, provided methods", Least(None), X: [S; 2] = None::<[S; 2]>),
        _ => contract!("Read and Write, provided methods", Least(Some(b::<[S; 2]>("x"))), X: [S; 2] = Some(b::<[S; 2]>("x"))),
    }
}

// ------------------------------------------------------------------ caching

fn cached_case<T: Buf<V = S>>(d: &[usize]) {
    type Node0<T> = Stub<T, Stub<T>>;
    let other = |s: Store<T>| s.with(X, Spec::Raw(fresh_buf::<T>("x", d))).with(D, Spec::Raw(fresh_buf::<T>("d", d)));
    let untouched = |s: &Store<T>| {
        same("nothing else is touched", &s.get(X), &Some(fresh_buf::<T>("x", d)));
        same("nothing else is touched", &s.get(D), &Some(fresh_buf::<T>("d", d)));
        check("nothing else is touched", s.0.len() <= 3, || format!("{:?}", s.0.keys().collect::<Vec<_>>()));
    };
    let res = any_spec::<T>("v", d);
    let v = dense(&res);
    let node: Node0<T> = Stub::ok("node", res).with(Stub::ok("derivative", Spec::Raw(fresh_buf::<T>("j", d))));
    let evals = |l: &[(String, &'static str)]| l.iter().filter(|e| e.0 == "node").count();
    for how in 0..3 {
        let c = Cached { node: node.clone(), ident: C };
        // how the value is obtained: by value, lifted, by shape
        let run = |c: &Cached<Node0<T>, C>, s: &mut Store<T>| -> Result<(Vec<usize>, Option<T>), StubErr> {
            match how {
                0 => real(|| c.evaluate(s)).map(|x| (x.dims(), Some(x))),
                1 => real(|| c.evaluate_spec(s)).map(|x| (spec_dims(&x), Some(dense(&x)))),
                _ => real(|| c.evaluate_shape(s)).map(|x| (T::sdims(&x), None)),
            }
        };
        fun(["Cached::evaluate", "Cached::evaluate_spec", "Cached::evaluate_shape"][how]);
        // empty slot
        let mut s = other(Store::new());
        let _ = take_log();
        match run(&c, &mut s) {
            Ok((sd, x)) => {
                check("shape of the node's value", sd == d, || format!("{:?}", sd));
                if how < 2 {
                    same("the node's value", &x, &Some(v.clone()));
                    same("stores exactly that value", &s.get(C), &Some(v.clone()));
                    let l = take_log();
                    check("evaluates the node once", evals(&l) == 1, || format!("{:?}", l));
                    check("writes only its slot, once", l.iter().filter(|e| e.1 == "write").count() == 1 && l.iter().any(|e| e.1 == "write" && e.0 == "C"), || format!("{:?}", l));
                } else if s.get(C).is_some() { same("stores nothing but that value", &s.get(C), &Some(v.clone())); }
                untouched(&s);
            }
            Err(e) => check("evaluates", false, || format!("{:?}", e)),
        }
        if how < 2 {
            // and then again
            let _ = take_log();
            match run(&c, &mut s) {
                Ok((_, x)) => {
                    same("then returns the stored value", &x, &Some(v.clone()));
                    let l = take_log();
                    check("without evaluating the node again", evals(&l) == 0, || format!("{:?}", l));
                    same("and keeps it", &s.get(C), &Some(v.clone()));
                    untouched(&s);
                }
                Err(e) => check("evaluates", false, || format!("{:?}", e)),
            }
        }
        // filled slot: whatever is stored there
        let mut s = other(Store::new()).with(C, Spec::Raw(fresh_buf::<T>("stored", d)));
        let _ = take_log();
        match run(&c, &mut s) {
            Ok((sd, x)) => {
                check("shape of the stored value", sd == d, || format!("{:?}", sd));
                if how < 2 { same("returns the stored value", &x, &Some(fresh_buf::<T>("stored", d))); }
                let l = take_log();
                check("without evaluating the node", evals(&l) == 0, || format!("{:?}", l));
                same("keeps the stored value", &s.get(C), &Some(fresh_buf::<T>("stored", d)));
                untouched(&s);
            }
            Err(e) => check("evaluates", false, || format!("{:?}", e)),
        }
        // failing node
        let bad = Cached { node: Stub::<T>::err("node", 7).with(Stub::ok("derivative", Spec::Raw(v.clone()))), ident: C };
        let mut s = other(Store::new());
        match run(&bad, &mut s) {
            Err(e) => check("the node's error", e == StubErr(7), || format!("{:?}", e)),
            Ok(_) => check("fails when the node fails", false, || "succeeded".into()),
        }
        check("a failed evaluation stores nothing", s.get(C).is_none(), || "stored".into());
        untouched(&s);
    }
    fun("Cached::adjoint");
    let c = node.clone().cached(C);
    let mut s = other(Store::new());
    match real(|| c.adjoint(C).evaluate(&mut s)) {
        Ok(x) => same("the derivative of the node", &Some(x), &Some(fresh_buf::<T>("j", d))),
        Err(e) => check("evaluates", false, || format!("{:?}", e)),
    }
    check("does not touch the slot", s.get(C).is_none(), || "stored".into());
}
fn cached() {
    match engine::choose(5) {
        0 => cached_case::<S>(&[]),
        1 => cached_case::<[S; 2]>(&[2]),
        2 => cached_case::<Vec<S>>(&[3]),
        3 => cached_case::<(S, S)>(&[2]),
        _ => cached_case::<Gen<S>>(&[1]),
    }
}
/// one cached node in two places; different slots; nested
fn shared() {
    fun("Cached in an expression");
    let (x, y) = (S::fresh("x"), S::fresh("y"));
    let n = Stub::ok("node", Spec::Raw(S::fresh("v")));
    let m = Stub::ok("other node", Spec::Raw(S::fresh("w")));
    let st = || Store::new().with(X, Spec::Raw(x)).with(Y, Spec::Raw(y));
    let _ = (Z, B);
    let c = || n.clone().cached(C);
    let e = ops::Add(ops::Mul(c(), X.into_var_()), ops::Sub(m.clone().cached(D), c()));
    for first in 0..2 {
        let mut s = st();
        if first == 1 { s = s.with(C, Spec::Raw(S::fresh("stored"))) }
        let v = if first == 1 { S::fresh("stored") } else { S::fresh("v") };
        let _ = take_log();
        match real(|| e.evaluate(&mut s)) {
            Ok(r) => prove("the value of the uncached expression", r.same(v * x + (S::fresh("w") - v))),
            Err(_) => check("evaluates", false, || "error".into()),
        }
        let l = take_log();
        check("the node is evaluated at most once", l.iter().filter(|e| e.0 == "node").count() == 1 - first && l.iter().filter(|e| e.0 == "other node").count() == 1, || format!("{:?}", l));
        same("each slot holds its own node's value", &s.get(C), &Some(v));
        same("each slot holds its own node's value", &s.get(D), &Some(S::fresh("w")));
        match real(|| e.evaluate_spec(&mut s)) {
            Ok(r) => prove("the same value again", spec_at(&r, &[]).same(v * x + (S::fresh("w") - v))),
            Err(_) => check("evaluates", false, || "error".into()),
        }
        let l = take_log();
        check("without evaluating again", l.iter().all(|e| e.0 != "node" && e.0 != "other node"), || format!("{:?}", l));
    }
    // against contexts made by the macros
    let mut m = Mixed { c: None, x, d: Some(S::fresh("d")), y: vec![y], th: S::fresh("th") };
    let e = ops::Add(X.into_var_(), Theta.into_var_()).cached(C).mul(X.into_var_().cached(D));
    match real(|| e.evaluate(&mut m)) {
        Ok(r) => prove("the uncached value where empty, the stored one where filled", r.same((x + S::fresh("th")) * S::fresh("d"))),
        Err(_) => check("evaluates", false, || "error".into()),
    }
    same("slot C", &m.c, &Some(x + S::fresh("th")));
    same("slot D", &m.d, &Some(S::fresh("d")));
    prove("X is untouched", m.x.same(x));
    prove("Theta is untouched", m.th.same(S::fresh("th")));
    prove("Y is untouched", m.y[0].same(y));
}
trait IntoVar: aegir::Identifier { fn into_var_(self) -> aegir::meta::Variable<Self> { aegir::meta::Variable(self) } }
impl<I: aegir::Identifier> IntoVar for I {}
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![("contexts", Mode::Real, contexts as fn(), "five declarations"), ("caches", Mode::Real, caches, "three declarations"), ("provided methods", Mode::Real, provided, ""), ("cached node", Mode::Real, cached, ""), ("shared and nested", Mode::Real, shared, "two expressions")]
}

//! extract FILE.rs > bodies.json : the functions of a macro-expanded crate, as text a contract can be put around.
//!
//! For every function: the bodies' text, the names of its generics and parameters, its loops and its closures.
//! What is rewritten (and nothing else):
//!  * names: adaptors and other std methods in METHODS get the prefix `v_` (they resolve to stand-ins that carry contracts);
//!    `::alloc::vec::from_elem`, `array_init::array_init`, `<[T; N]>::map`, `std::iter::once` likewise;
//!  * `for P in E` over anything but a range becomes a loop over the stand-in sequence's positions;
//!  * tuple and array patterns in closure parameters and loop headers become `let`s;
//!  * `unsafe { e }` becomes `{ e }`; attributes and doc comments are dropped; `mut` on parameters becomes a rebinding;
//!  * functions declared inside a function become functions of their own; `parse_quote!` becomes a call of a stand-in
//!    named after the quoted text;
//!  * loop bodies and closure bodies get a marker where the contract file's invariants go.
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const METHODS: &[&str] = &[
    "iter", "into_iter", "iter_mut", "map", "zip", "fold", "copied", "cloned", "collect", "all", "any", "product", "sum", "enumerate", "rev", "take", "skip", "chain", "next",
    "unwrap", "unwrap_unchecked", "ok", "is_zero", "map_err", "and_then", "unwrap_or", "is_err", "is_ok", "expect", "ok_or", "get_unchecked", "first", "last", "is_some", "is_none",
    "split_last_mut", "count", "size_hint",
];

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }
fn text(t: &impl ToTokens) -> String { t.to_token_stream().to_string() }
fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

/// Rename identifiers consistently (generics to G0, G1, ...), to compare types however they are spelled.
fn renamed(ts: TokenStream, m: &BTreeMap<String, String>) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) => match m.get(&i.to_string()) {
                Some(n) => proc_macro2::TokenTree::Ident(Ident::new(n, i.span())),
                None => proc_macro2::TokenTree::Ident(i),
            },
            proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), renamed(g.stream(), m))),
            t => t,
        })
        .collect()
}
fn generic_names(g: &Generics) -> Vec<String> {
    g.params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Const(c) => Some(c.ident.to_string()),
            GenericParam::Lifetime(_) => None,
        })
        .collect()
}

/// The mathematical reading of an expression, where it has an evident one.
fn spec(e: &Expr) -> Option<String> {
    Some(match e {
        Expr::Path(p) if p.qself.is_none() => text(p),
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => text(i),
        Expr::Paren(p) => spec(&p.expr)?,
        Expr::Group(p) => spec(&p.expr)?,
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => format!("(*{})", spec(expr)?),
        Expr::Reference(r) if r.mutability.is_none() => format!("(&{})", spec(&r.expr)?),
        Expr::Field(f) => format!("{}.{}", spec(&f.base)?, text(&f.member)),
        Expr::Index(i) => format!("{}[({}) as int]", spec(&i.expr)?, spec(&i.index)?),
        Expr::Tuple(t) => {
            let v: Option<Vec<_>> = t.elems.iter().map(spec).collect();
            let v = v?;
            format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" })
        }
        Expr::Array(t) => {
            let v: Option<Vec<_>> = t.elems.iter().map(spec).collect();
            format!("[{}]", v?.join(", "))
        }
        Expr::Binary(b) => {
            let f = match b.op {
                BinOp::Add(_) => "sp_add",
                BinOp::Mul(_) => "sp_mul",
                BinOp::Sub(_) => "sp_sub",
                BinOp::Lt(_) => "sp_lt",
                BinOp::Le(_) => "sp_le",
                BinOp::Gt(_) => "sp_gt",
                BinOp::Ge(_) => "sp_ge",
                BinOp::Eq(_) => "sp_eq",
                BinOp::Ne(_) => "sp_ne",
                _ => return None,
            };
            format!("{}({}, {})", f, spec(&b.left)?, spec(&b.right)?)
        }
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e) => spec(e)?,
            _ => return None,
        },
        _ => return None,
    })
}
/// The contract of a closure whose body is one call of a function value, or one evident expression.
fn closure_contract(body: &Expr, lets: &str, locals: &[String]) -> Option<String> {
    let inner = match body {
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e) => e,
            _ => return None,
        },
        e => e,
    };
    if let Expr::Call(c) = inner {
        if let Expr::Path(p) = &*c.func {
            if p.qself.is_none() && p.path.segments.len() == 1 && locals.contains(&text(p)) {
                let a: Option<Vec<String>> = c.args.iter().map(spec).collect();
                let f = text(&c.func);
                let a = format!("({},)", a?.join(", "));
                return Some(format!("requires ({{ {} call_requires({}, {}) }}), ensures ({{ {} call_ensures({}, {}, ret) }}),", lets, f, a, lets, f, a));
            }
        }
        return None;
    }
    spec(inner).map(|s| format!("ensures ({{ {} is(ret, {}) }}),", lets, s))
}

struct T {
    loops: Vec<(String, String)>,
    closures: Vec<(Vec<String>, Option<String>)>,
    locals: Vec<String>,
    n: usize,
}
/// Bind a pattern by `let`s without patterns; None if it has refutable or reference parts.
fn unpack(p: &Pat, from: &TokenStream, out: &mut Vec<TokenStream>, sp: &mut String) -> bool {
    match p {
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_some() && i.mutability.is_none() => {
            let n = &i.ident;
            out.push(quote!(let #n = &#from;));
            sp.push_str(&format!("let {} = &{};", n, from));
            true
        }
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
            let (m, n) = (&i.mutability, &i.ident);
            out.push(quote!(let #m #n = #from;));
            sp.push_str(&format!("let {} = {};", n, from));
            true
        }
        Pat::Wild(_) => true,
        Pat::Type(t) => unpack(&t.pat, from, out, sp),
        Pat::Tuple(t) => t.elems.iter().enumerate().all(|(k, q)| {
            let i = Index::from(k);
            unpack(q, &quote!(#from.#i), out, sp)
        }),
        Pat::Slice(t) => {
            let mut l = String::new();
            let ok = t.elems.iter().enumerate().all(|(k, q)| {
                let i = LitInt::new(&format!("{}usize", k), Span::call_site());
                unpack(q, &quote!(#from[#i]), out, &mut l)
            });
            sp.push_str(&l);
            ok
        }
        Pat::Reference(r) => unpack(&r.pat, &quote!((*#from)), out, sp),
        Pat::Struct(t) => t.fields.iter().all(|f| {
            let m = &f.member;
            unpack(&f.pat, &quote!(#from.#m), out, sp)
        }),
        _ => false,
    }
}
fn is_plain(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.subpat.is_none() && i.by_ref.is_none(),
        Pat::Wild(_) => true,
        Pat::Type(t) => is_plain(&t.pat),
        _ => false,
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
impl VisitMut for T {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let k = self.loops.len();
                self.loops.push((String::new(), String::new()));
                self.visit_expr_mut(&mut f.expr);
                let head = text(&f.expr);
                let mark = id(&format!("__LOOP_{}", k));
                let range = matches!(strip(&f.expr), Expr::Range(_));
                self.visit_block_mut(&mut f.body);
                let body = &f.body.stmts;
                if range && is_plain(&f.pat) {
                    self.loops[k] = (text(&f.pat), head);
                    let (p, x) = (&f.pat, strip(&f.expr));
                    *e = parse2(quote!(for #p in #x { #mark; #(#body)* })).unwrap();
                } else {
                    let (it, kx, x) = (id(&format!("__it{}", k)), id(&format!("__k{}", k)), &f.expr);
                    self.loops[k] = (format!("__k{}", k), head);
                    let mut lets = vec![];
                    let el = id(&format!("__x{}", k));
                    let first = if let Pat::Ident(_) = &f.pat { let p = &f.pat; quote!(let #p = #it.v_at(#kx);) } else {
                        if !unpack(&f.pat, &quote!(#el), &mut lets, &mut String::new()) { lets.push(quote!(__UNSUPPORTED_PATTERN;)) }
                        quote!(let #el = #it.v_at(#kx);)
                    };
                    *e = parse2(quote!({ let #it = (#x).v_items(); for #kx in 0..#it.v_len() { #mark; #first #(#lets)* #(#body)* } })).unwrap();
                }
                return;
            }
            Expr::While(w) => {
                let k = self.loops.len();
                self.loops.push(("while".into(), text(&w.cond)));
                self.visit_expr_mut(&mut w.cond);
                let mark = id(&format!("__LOOP_{}", k));
                self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, parse2(quote!(#mark;)).unwrap());
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops.len();
                self.loops.push(("loop".into(), String::new()));
                let mark = id(&format!("__LOOP_{}", k));
                self.visit_block_mut(&mut w.body);
                w.body.stmts.insert(0, parse2(quote!(#mark;)).unwrap());
                return;
            }
            Expr::Closure(c) => {
                let k = self.closures.len();
                self.closures.push((vec![], None));
                let orig = (*c.body).clone();
                self.visit_expr_mut(&mut c.body);
                let mut lets = vec![];
                let mut sp = String::new();
                let mut names = vec![];
                for (n, p) in c.inputs.iter_mut().enumerate() {
                    if is_plain(p) {
                        if let Pat::Wild(_) = p {
                            let v = id(&format!("__p{}_{}", k, n));
                            *p = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: v, subpat: None });
                        }
                        if let Pat::Ident(i) = p {
                            if i.mutability.is_some() {
                                let (o, v) = (i.ident.clone(), id(&format!("__p{}_{}", k, n)));
                                lets.push(quote!(let mut #o = #v;));
                                sp.push_str(&format!("let {} = {};", o, v));
                                i.ident = v;
                                i.mutability = None;
                            }
                        }
                    } else {
                        let v = id(&format!("__p{}_{}", k, n));
                        if !unpack(p, &quote!(#v), &mut lets, &mut sp) {
                            lets.push(quote!(__UNSUPPORTED_PATTERN;))
                        }
                        *p = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: v, subpat: None });
                    }
                    names.push(text(p));
                }
                // array patterns index with a machine integer in code and a mathematical one in contracts
                let sp = sp.replace("usize]", "]");
                self.closures[k] = (names, closure_contract(&orig, &sp, &self.locals));
                let mark = id(&format!("__CL_{}", k));
                let b = &c.body;
                c.body = Box::new(parse2(quote!({ #mark; #(#lets)* #b })).unwrap());
                c.output = ReturnType::Default;
                return;
            }
            Expr::Unsafe(u) => {
                let mut b = u.block.clone();
                self.visit_block_mut(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                return;
            }
            _ => {}
        }
        if let Expr::Block(b) = e {
            // the expansion of concat_arrays!(l, r): two bindings, then layout checks and a transmute
            let args: Vec<Expr> = b.block.stmts.iter().map_while(|s| match s {
                Stmt::Local(l) if text(&l.pat).starts_with("concat_arrays_arg_") => l.init.as_ref().map(|x| (*x.1).clone()),
                _ => None,
            }).collect();
            if args.len() == 2 && b.label.is_none() {
                let (x, y) = (&args[0], &args[1]);
                *e = parse2(quote!(v_concat(#x, #y))).unwrap();
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("parse_quote") {
                let (mut name, mut args) = (String::from("q_"), vec![]);
                template(m.mac.tokens.clone(), &mut name, &mut args);
                let f = id(&name);
                *e = parse2(quote!(#f(#(#args),*))).unwrap();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let t = text(&p.path).replace(' ', "");
                if let (Some(q), true) = (&p.qself, p.path.segments.len() == 1) {
                    if matches!(&*q.ty, Type::Array(_)) {
                        let f = id(&format!("v_array_{}", t.trim_start_matches(':')));
                        c.func = Box::new(parse2(quote!(#f)).unwrap());
                        return;
                    }
                }
                let n = match t.as_str() {
                    "::alloc::vec::from_elem" | "alloc::vec::from_elem" => "v_from_elem",
                    "array_init::array_init" | "::array_init::array_init" | "array_init" => "v_array_init",
                    "std::iter::once" | "::std::iter::once" | "core::iter::once" => "v_once",
                    "IntoIterator::into_iter" | "::itertools::__std_iter::IntoIterator::into_iter" => "v_into_iter",
                    "::itertools::Itertools::cartesian_product" => "v_cartesian",
                    "::itertools::cons_tuples" => "v_cons_tuples",
                    "num_traits::zero" | "num_traits::identities::zero" => "v_zero",
                    "num_traits::one" => "v_one",
                    "std::mem::take" | "core::mem::take" => "v_mem_take",
                    _ => return,
                };
                let n = id(n);
                c.func = Box::new(parse2(quote!(#n)).unwrap());
            }
        }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        if METHODS.contains(&m.method.to_string().as_str()) {
            m.method = id(&format!("v_{}", m.method));
            m.turbofish = None;
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}
/// Takes the functions declared inside a function out of it (they become entries of their own).
struct Nested(Vec<ItemFn>);
impl VisitMut for Nested {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut keep = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Fn(f)) => self.0.push(f),
                s => keep.push(s),
            }
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// `parse_quote!(.. #x ..)` as a call of a stand-in named after its text, of the interpolated values.
fn template(ts: TokenStream, name: &mut String, args: &mut Vec<TokenStream>) {
    let mut hash = false;
    for t in ts {
        match t {
            proc_macro2::TokenTree::Punct(p) if p.as_char() == '#' && !hash => {
                hash = true;
                continue;
            }
            proc_macro2::TokenTree::Ident(i) if hash => {
                name.push('H');
                args.push(quote!(#i));
            }
            proc_macro2::TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("P", "p"),
                    proc_macro2::Delimiter::Brace => ("B", "b"),
                    proc_macro2::Delimiter::Bracket => ("S", "s"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                name.push_str(a);
                template(g.stream(), name, args);
                name.push_str(b);
            }
            t => name.extend(t.to_string().chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' })),
        }
        hash = false;
    }
}
fn emit(key: &str, ig: &[String], assoc: &[[String; 2]], sig: &Signature, block: &Block, out: &mut Vec<String>) {
    let _ = &mut T { loops: vec![], closures: vec![], locals: vec![], n: 0 }.n;
    let mut names = vec![];
    let mut muts = vec![];
    let mut types = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                names.push("self".to_string());
                types.push(text(r));
                if r.mutability.is_some() && r.reference.is_none() {
                    muts.push("self".into());
                }
            }
            FnArg::Typed(t) => {
                types.push(text(&t.ty));
                match &*t.pat {
                    Pat::Ident(i) if i.subpat.is_none() => {
                        if i.mutability.is_some() {
                            muts.push(i.ident.to_string());
                        }
                        names.push(i.ident.to_string())
                    }
                    Pat::Wild(_) => names.push("_".into()),
                    p => names.push(format!("?{}", text(p))),
                }
            }
        }
    }
    let mut t = T { loops: vec![], closures: vec![], locals: names.clone(), n: 0 };
    let mut b = block.clone();
    let mut inner = Nested(vec![]);
    inner.visit_block_mut(&mut b);
    for f in inner.0 {
        emit(&format!("{}::{}", key, f.sig.ident), &[], &[], &f.sig, &f.block, out);
    }
    t.visit_block_mut(&mut b);
    let q = |v: &[String]| arr(&v.iter().map(|s| js(s)).collect::<Vec<_>>());
    let body: String = b.stmts.iter().map(text).collect::<Vec<_>>().join("\n");
    out.push(format!(
        "{{\"key\":{},\"impl_generics\":{},\"fn_generics\":{},\"params\":{},\"types\":{},\"muts\":{},\"ret\":{},\"body\":{},\"source\":{},\"loops\":{},\"closures\":{},\"assoc\":{}}}",
        js(key),
        q(ig),
        q(&generic_names(&sig.generics)),
        q(&names),
        q(&types),
        q(&muts),
        js(&text(&sig.output)),
        js(&body),
        js(&block.stmts.iter().map(text).collect::<Vec<_>>().join("\n")),
        arr(&t.loops.iter().map(|(a, b)| q(&[a.clone(), b.clone()])).collect::<Vec<_>>()),
        arr(&t.closures.iter().map(|(a, b)| format!("{{\"params\":{},\"contract\":{}}}", q(a), b.as_ref().map(|b| js(b)).unwrap_or("null".into()))).collect::<Vec<_>>()),
        arr(&assoc.iter().map(|a| q(a)).collect::<Vec<_>>())
    ));
}
fn walk(path: &str, items: &[Item], out: &mut Vec<String>) {
    for i in items {
        match i {
            Item::Mod(m) => {
                if let Some((_, v)) = &m.content {
                    walk(&if path.is_empty() { m.ident.to_string() } else { format!("{}::{}", path, m.ident) }, v, out)
                }
            }
            Item::Fn(f) => emit(&format!("{}::{}", path, f.sig.ident), &[], &[], &f.sig, &f.block, out),
            Item::Trait(t) => {
                for x in &t.items {
                    if let TraitItem::Method(m) = x {
                        if let Some(b) = &m.default {
                            emit(&format!("trait {}::{}", t.ident, m.sig.ident), &generic_names(&t.generics), &[], &m.sig, b, out)
                        }
                    }
                }
            }
            Item::Impl(i) => {
                let g = generic_names(&i.generics);
                let m: BTreeMap<String, String> = g.iter().enumerate().map(|(k, n)| (n.clone(), format!("G{}", k))).collect();
                let c = |t: TokenStream| renamed(t, &m).to_string().replace(' ', "");
                let head = match &i.trait_ {
                    Some((_, p, _)) => format!("{} for {}", c(p.to_token_stream()), c(i.self_ty.to_token_stream())),
                    None => c(i.self_ty.to_token_stream()),
                };
                let mut assoc: Vec<[String; 2]> = i.items.iter().filter_map(|x| match x {
                    ImplItem::Type(t) => Some([t.ident.to_string(), text(&t.ty)]),
                    _ => None,
                }).collect();
                assoc.push(["Self".into(), text(&i.self_ty)]);
                for x in &i.items {
                    if let ImplItem::Method(m) = x {
                        emit(&format!("{}::{}", head, m.sig.ident), &g, &assoc, &m.sig, &m.block, out)
                    }
                }
            }
            _ => {}
        }
    }
}
fn main() {
    let p = std::env::args().nth(1).expect("file");
    let src = std::fs::read_to_string(p).unwrap();
    let f = parse_file(&src).expect("the expanded source parses");
    let mut out = vec![];
    walk("", &f.items, &mut out);
    println!("[\n{}\n]", out.join(",\n"));
}

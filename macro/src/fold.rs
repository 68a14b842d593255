// The function behind `aegir!`, called on formulas as token streams, against what the formula denotes.
//
// Contract of the fold: with `M(e)` the tree it builds for `e`,
//   M(l op r) = M(l).method(op)(M(r)), except M(l ^ 2) = M(l).squared(); M((e)) = M(e); M(literal) = a constant of that
//   literal; M(other) = other, with its subexpressions folded.
// The equation is checked at every operator and at one operand of each syntactic class, and over every
// formula up to a number of operators.
use quote::ToTokens;
use std::str::FromStr;
macro_rules! parse_macro_input { ($t:ident as $ty:ty) => { syn::parse2::<$ty>($t).unwrap() } }
#[allow(dead_code, unused_imports, non_snake_case)]
mod real {
    include!(concat!(env!("OUT_DIR"), "/real.rs"));
}

/// what a formula denotes, by a parser of its own (Rust's precedence: * over + and -, those over ^; all associate to the left)
#[derive(Clone, Debug, PartialEq)]
enum T {
    Leaf(String),
    Int(String),
    Float(String),
    Op(&'static str, Box<T>, Box<T>),
    Squared(Box<T>),
}
fn show(t: &T) -> String {
    match t {
        T::Leaf(s) => s.clone(),
        T::Int(s) => format!("i64:{}", s),
        T::Float(s) => format!("f64:{}", s),
        T::Op(m, l, r) => format!("({} {} {})", m, show(l), show(r)),
        T::Squared(x) => format!("(squared {})", show(x)),
    }
}
/// formula as a tree, printed by the checker itself
#[derive(Clone)]
enum F {
    Atom(&'static str, T),
    Bin(usize, Box<F>, Box<F>),
}
const OPS: [(char, &str, u8); 4] = [('+', "add", 2), ('-', "sub", 2), ('*', "mul", 3), ('^', "pow", 1)];
fn text(f: &F, full: bool) -> String {
    match f {
        F::Atom(s, _) => s.to_string(),
        F::Bin(o, l, r) => {
            let (c, _, p) = OPS[*o];
            // exactly two, unbracketed, is what squares
            let side = |x: &F, right: bool| match x {
                F::Atom(s, _) => s.to_string(),
                F::Bin(q, ..) => {
                    let pq = OPS[*q].2;
                    if full || pq < p || (right && pq == p) { format!("({})", text(x, full)) } else { text(x, full) }
                }
            };
            format!("{} {} {}", side(l, false), c, side(r, true))
        }
    }
}
fn want(f: &F) -> T {
    match f {
        F::Atom(_, t) => t.clone(),
        F::Bin(3, l, r) if matches!(&**r, F::Atom("2" | "2.0", _)) => T::Squared(Box::new(want(l))),
        F::Bin(o, l, r) => T::Op(OPS[*o].1, Box::new(want(l)), Box::new(want(r))),
    }
}
/// the tree that an expansion builds
fn got(e: &syn::Expr) -> Result<T, String> {
    use syn::*;
    let bad = |w: &str| Err(format!("{}: {}", w, e.to_token_stream()));
    match e {
        Expr::Paren(p) => got(&p.expr),
        Expr::Group(p) => got(&p.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e) => got(e),
            _ => bad("statement"),
        },
        Expr::MethodCall(m) => {
            let l = got(&m.receiver)?;
            let n = m.method.to_string();
            if n == "squared" && m.args.is_empty() {
                return Ok(T::Squared(Box::new(l)));
            }
            match OPS.iter().find(|o| o.1 == n) {
                Some(o) if m.args.len() == 1 => Ok(T::Op(o.1, Box::new(l), Box::new(got(&m.args[0])?))),
                _ => Ok(T::Leaf(clean(e))),
            }
        }
        Expr::Call(c) => {
            let f = clean(&c.func);
            match &f[..] {
                "aegir::meta::Constant::<i64>" | "aegir::meta::Constant::<f64>" | "::aegir::meta::Constant::<i64>" | "::aegir::meta::Constant::<f64>" if c.args.len() == 1 => {
                    let s = clean(&c.args[0]);
                    Ok(if f.ends_with("<i64>") { T::Int(s) } else { T::Float(s) })
                }
                _ => Ok(T::Leaf(clean(e))),
            }
        }
        _ => Ok(T::Leaf(clean(e))),
    }
}
fn clean(e: &impl ToTokens) -> String {
    let s = e.to_token_stream().to_string();
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn expand(src: &str) -> Result<syn::Expr, String> {
    let t = proc_macro2::TokenStream::from_str(src).map_err(|e| format!("{}", e))?;
    let r = std::panic::catch_unwind(|| real::aegir(t)).map_err(|_| "the macro panicked".to_string())?;
    // as a compiler sees it: tokens, not the tree they came from
    let t = proc_macro2::TokenStream::from_str(&r.to_string()).map_err(|e| format!("{}", e))?;
    syn::parse2(t).map_err(|e| format!("expansion does not parse: {}: {}", e, r))
}
struct Out {
    n: usize,
    ok: usize,
    fail: Vec<(String, String, String)>,
    samples: Vec<String>,
    /// distinct formulas that contain an operator of the formula language
    seen: std::collections::HashSet<String>,
}
impl Out {
    fn case(&mut self, what: &str, src: &str, w: &str) {
        self.n += 1;
        if w.starts_with('(') {
            self.seen.insert(src.into());
        }
        let g = match expand(src).and_then(|e| got(&e)) {
            Ok(t) => show(&t),
            Err(e) => e,
        };
        if g == w {
            self.ok += 1;
        } else {
            self.fail.push((what.into(), src.into(), format!("builds {} instead of {}", g, w)));
        }
        if self.samples.len() < 400 && self.n % 997 == 1 {
            self.samples.push(format!("{} => {}", src, w));
        }
    }
}
fn atoms() -> Vec<F> {
    let leaf = |s: &'static str| F::Atom(s, T::Leaf(s.chars().filter(|c| !c.is_whitespace()).collect()));
    vec![
        leaf("x"),
        F::Atom("2", T::Int("2".into())),
        F::Atom("2.0", T::Float("2.0".into())),
        F::Atom("3", T::Int("3".into())),
        F::Atom("0.5", T::Float("0.5".into())),
        leaf("f(y)"),
        leaf("a.b"),
    ]
}
fn trees(n: usize, leaves: &dyn Fn(usize) -> Vec<F>, at: usize) -> Vec<F> {
    if n == 0 {
        return leaves(at);
    }
    let mut v = vec![];
    for k in 0..n {
        let ls = trees(k, leaves, at);
        let rs = trees(n - 1 - k, leaves, at + k + 1);
        for o in 0..4 {
            for l in &ls {
                for r in &rs {
                    v.push(F::Bin(o, Box::new(l.clone()), Box::new(r.clone())));
                }
            }
        }
    }
    v
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut o = Out { n: 0, ok: 0, fail: vec![], samples: vec![], seen: Default::default() };
    let a = atoms();
    // each operator with operands of each class, to two operators; all formulas over distinct names beyond that
    for n in 0..=(if thorough { 3 } else { 2 }) {
        for f in trees(n, &|_| a.clone(), 0) {
            for full in [false, true] {
                o.case("a formula builds the tree it denotes", &text(&f, full), &show(&want(&f)));
            }
        }
    }
    let names = ["a", "b", "c", "d", "e", "f", "g"];
    for n in 3..=(if thorough { 5 } else { 4 }) {
        let leaves = |i: usize| vec![F::Atom(names[i], T::Leaf(names[i].into()))];
        for f in trees(n, &leaves, 0) {
            o.case("a formula builds the tree it denotes", &text(&f, false), &show(&want(&f)));
        }
    }
    // literals of every form: their own value and type
    for l in ["0", "1", "2", "10", "1_000", "0x1F", "0b101", "9223372036854775807", "7i64"] {
        o.case("a literal is a constant of its own value", l, &format!("i64:{}", l));
        o.case("a literal is a constant of its own value", &format!("x + {}", l), &format!("(add x i64:{})", l));
    }
    for l in ["0.0", "1.5", "1e3", "2.5e-3", "2.", "1_0.25", "3.0f64"] {
        o.case("a literal is a constant of its own value", l, &format!("f64:{}", l));
        o.case("a literal is a constant of its own value", &format!("{} * x", l), &format!("(mul f64:{} x)", l));
    }
    for (l, t) in [("3", "i64:3"), ("0", "i64:0"), ("1", "i64:1"), ("2.5", "f64:2.5"), ("20", "i64:20"), ("2.01", "f64:2.01"), ("0.2", "f64:0.2"), ("12", "i64:12"), ("22", "i64:22")] {
        o.case("an exponent that is not two is the power operator", &format!("x ^ {}", l), &format!("(pow x {})", t));
    }
    for l in ["2", "2.0"] {
        o.case("an exponent two is the squaring operator", &format!("x ^ {}", l), "(squared x)");
        o.case("an exponent two is the squaring operator", &format!("(x + y) ^ {}", l), "(squared (add x y))");
        o.case("an exponent two is the squaring operator", &format!("x ^ y ^ {}", l), "(squared (pow x y))");
        o.case("only an exponent two squares", &format!("x * {}", l), &format!("(mul x {}{})", if l == "2" { "i64:" } else { "f64:" }, l));
        o.case("only an exponent two squares", &format!("x + {}", l), &format!("(add x {}{})", if l == "2" { "i64:" } else { "f64:" }, l));
        o.case("only an exponent two squares", &format!("x - {}", l), &format!("(sub x {}{})", if l == "2" { "i64:" } else { "f64:" }, l));
        o.case("only an exponent two squares", &format!("{} ^ x", l), &format!("(pow {}{} x)", if l == "2" { "i64:" } else { "f64:" }, l));
    }
    // everything else is passed through, with formulas inside it built
    let sub = "{aegir::meta::Constant::<i64>(3)}";
    for (src, w) in [
        ("x", "x".to_string()),
        ("self.x", "self.x".into()),
        ("a::b::C", "a::b::C".into()),
        ("\"s\"", "\"s\"".into()),
        ("'c'", "'c'".into()),
        ("true", "true".into()),
        ("b\"s\"", "b\"s\"".into()),
        ("f(x, y)", "f(x,y)".into()),
        ("f(x + y)", "f(x.add(y))".into()),
        ("f(g(x - y), \"s\")", "f(g(x.sub(y)),\"s\")".into()),
        ("x.sigmoid()", "x.sigmoid()".into()),
        ("x.dot(y * z)", "x.dot(y.mul(z))".into()),
        ("(x + y).exp()", "(x.add(y)).exp()".into()),
        ("&x", "&x".into()),
        ("&(x * y)", "&(x.mul(y))".into()),
        ("v[3]", format!("v[{}]", sub)),
        ("(x, y - z)", "(x,y.sub(z))".into()),
        ("[x ^ y, z]", "[x.pow(y),z]".into()),
        ("{ x + y }", "{x.add(y)}".into()),
        ("{ let k = x * y; k }", "{letk=x.mul(y);k}".into()),
        ("if c { x + y } else { z }", "ifc{x.add(y)}else{z}".into()),
        ("match k { A => x + y, B => z }", "matchk{A=>x.add(y),B=>z}".into()),
        ("|a| a + x", "|a|a.add(x)".into()),
        ("S { a: x + y }", "S{a:x.add(y)}".into()),
        ("x?", "x?".into()),
        ("loop { break x - y }", "loop{breakx.sub(y)}".into()),
        ("m!(a + b)", "m!(a+b)".into()),
        ("unsafe { x + y }", "unsafe{x.add(y)}".into()),
        ("return x ^ y", "returnx.pow(y)".into()),
        ("x as T", "xasT".into()),
        ("-x", "-x".into()),
        ("!x", "!x".into()),
        ("-(x + y)", "-(x.add(y))".into()),
        ("a..b", "a..b".into()),
        ("a = x + y", "a=x.add(y)".into()),
    ] {
        o.n += 1;
        let g = expand(src).map(|e| clean(&e)).unwrap_or_else(|e| e);
        if g == w {
            o.ok += 1;
        } else {
            o.fail.push(("everything else is passed through".into(), src.into(), format!("gives {} instead of {}", g, w)));
        }
    }
    // operands of those kinds keep their places
    for s in ["f(u + v)", "u.g()", "m!(u)", "(u, v)", "[u]", "u[i]", "S { u }", "if c { u } else { v }", "a::b"] {
        for (c, m, _) in OPS {
            let w = expand(s).map(|e| clean(&e)).unwrap_or_default();
            if !s.starts_with("if") {
                o.case("an operand that is no operator keeps its place", &format!("{} {} z", s, c), &format!("({} {} z)", m, w));
            }
            o.case("an operand that is no operator keeps its place", &format!("z {} {}", c, s), &format!("({} z {})", m, w));
        }
    }
    // operators that bind tighter than the formula's own
    for (s, w) in [("-x", "-x"), ("!x", "!x"), ("*x", "*x"), ("&x", "&x"), ("&mut x", "&mutx"), ("-f(x)", "-f(x)"), ("x as T", "xasT"), ("**x", "**x"), ("-x?", "-x?")] {
        for (c, m, _) in OPS {
            o.case("a prefix operator or cast stays with its operand", &format!("{} {} z", s, c), &format!("({} {} z)", m, w));
            o.case("a prefix operator or cast stays with its operand", &format!("z {} {}", c, s), &format!("({} z {})", m, w));
            o.case("a prefix operator or cast stays with its operand", &format!("y {} {} {} z", c, s, c), &format!("({} ({} y {}) z)", m, m, w));
        }
        o.case("a prefix operator or cast stays with its operand", &format!("{} ^ 2", s), &format!("(squared {})", w));
    }
    for (a, b, c) in o.fail.iter().take(40) {
        println!("FAIL\t{}\t{}\t{}", a, b, c);
    }
    for s in o.samples.iter().take(6) {
        println!("SAMPLE\t{}", s);
    }
    println!("TOTAL\t{}\t{}\t{}\t{}", o.n, o.ok, o.fail.len(), o.seen.len());
}

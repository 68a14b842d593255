// The macro expanded by the compiler in ordinary code: the type and the contents of the node it builds.
use aegir::{meta::{Constant, Variable}, ops::{Add, Mul, Power, Square, Sub}, Node};
use aegir_compile::aegir;
trait Tree {
    fn tree(&self) -> String;
}
aegir::ids!(IdX::x, IdY::y, IdZ::z, IdW::w);
impl<I: std::fmt::Display> Tree for Variable<I> {
    fn tree(&self) -> String { self.0.to_string() }
}
impl Tree for Constant<i64> {
    fn tree(&self) -> String { format!("i64:{}", self.0) }
}
impl Tree for Constant<f64> {
    fn tree(&self) -> String { format!("f64:{}", self.0) }
}
impl<L: Tree> Tree for Square<L> {
    fn tree(&self) -> String { format!("(squared {})", self.0.tree()) }
}
macro_rules! bin { ($($t:ident $n:literal),*) => { $( impl<L: Tree, R: Tree> Tree for $t<L, R> {
    fn tree(&self) -> String { format!(concat!("(", $n, " {} {})"), self.0.tree(), self.1.tree()) }
} )* } }
bin!(Add "add", Sub "sub", Mul "mul", Power "pow");
#[derive(Clone, Copy)]
struct Pair<A, B>(A, B);
fn id<N: Node>(n: N) -> N { n }
fn first<A: Node, B: Node>(a: A, _: B) -> A { a }

struct Out(usize, usize, std::collections::HashSet<String>);
fn case(o: &mut Out, src: &str, got: String, want: &str) {
    o.0 += 1;
    if want.starts_with('(') {
        o.2.insert(src.into());
    }
    if got == want {
        o.1 += 1;
    } else {
        println!("FAIL\tthe compiled formula builds the tree it denotes\t{}\tbuilds {} instead of {}", src, got, want);
    }
}
#[allow(unused_parens)]
fn main() {
    use aegir::Identifier;
    let (x, y, z, w) = (IdX.into_var(), IdY.into_var(), IdZ.into_var(), IdW.into_var());
    let v = [x, x];
    let pair = Pair(x, y);
    let mut o = Out(0, 0, Default::default());
    macro_rules! t { ({$($f:tt)*} $w:literal) => { { let n = aegir!($($f)*); case(&mut o, stringify!($($f)*), n.tree(), $w) } } }
    macro_rules! e { ($f:expr, $w:literal) => { { let n = aegir!($f); case(&mut o, stringify!($f), n.tree(), $w) } } }
    macro_rules! prod { ($a:expr, $b:expr) => { aegir!($a * $b).tree() } }
    t!({x} "x");
    t!({2} "i64:2");
    t!({2.0} "f64:2");
    t!({3} "i64:3");
    t!({0.5} "f64:0.5");
    t!({x + y} "(add x y)");
    t!({x + 2} "(add x i64:2)");
    t!({2 + x} "(add i64:2 x)");
    t!({x + 2.0} "(add x f64:2)");
    t!({2.0 + x} "(add f64:2 x)");
    t!({x + 3} "(add x i64:3)");
    t!({3 + x} "(add i64:3 x)");
    t!({x + 0.5} "(add x f64:0.5)");
    t!({0.5 + x} "(add f64:0.5 x)");
    t!({3 + 7} "(add i64:3 i64:7)");
    t!({2 + 2} "(add i64:2 i64:2)");
    t!({x - y} "(sub x y)");
    t!({x - 2} "(sub x i64:2)");
    t!({2 - x} "(sub i64:2 x)");
    t!({x - 2.0} "(sub x f64:2)");
    t!({2.0 - x} "(sub f64:2 x)");
    t!({x - 3} "(sub x i64:3)");
    t!({3 - x} "(sub i64:3 x)");
    t!({x - 0.5} "(sub x f64:0.5)");
    t!({0.5 - x} "(sub f64:0.5 x)");
    t!({3 - 7} "(sub i64:3 i64:7)");
    t!({2 - 2} "(sub i64:2 i64:2)");
    t!({x * y} "(mul x y)");
    t!({x * 2} "(mul x i64:2)");
    t!({2 * x} "(mul i64:2 x)");
    t!({x * 2.0} "(mul x f64:2)");
    t!({2.0 * x} "(mul f64:2 x)");
    t!({x * 3} "(mul x i64:3)");
    t!({3 * x} "(mul i64:3 x)");
    t!({x * 0.5} "(mul x f64:0.5)");
    t!({0.5 * x} "(mul f64:0.5 x)");
    t!({3 * 7} "(mul i64:3 i64:7)");
    t!({2 * 2} "(mul i64:2 i64:2)");
    t!({x ^ y} "(pow x y)");
    t!({x ^ 2} "(squared x)");
    t!({2 ^ x} "(pow i64:2 x)");
    t!({x ^ 2.0} "(squared x)");
    t!({2.0 ^ x} "(pow f64:2 x)");
    t!({x ^ 3} "(pow x i64:3)");
    t!({3 ^ x} "(pow i64:3 x)");
    t!({x ^ 0.5} "(pow x f64:0.5)");
    t!({0.5 ^ x} "(pow f64:0.5 x)");
    t!({3 ^ 7} "(pow i64:3 i64:7)");
    t!({2 ^ 2} "(squared i64:2)");
    t!({x + y + z} "(add (add x y) z)");
    t!({x + (y + z)} "(add x (add y z))");
    t!({x + 2 + z} "(add (add x i64:2) z)");
    t!({x + (y + 2.0)} "(add x (add y f64:2))");
    t!({x + y + (z + w)} "(add (add x y) (add z w))");
    t!({x + y + (z - w)} "(add (add x y) (sub z w))");
    t!({x + y + z * w} "(add (add x y) (mul z w))");
    t!({x + y + (z ^ w)} "(add (add x y) (pow z w))");
    t!({x - y + z} "(add (sub x y) z)");
    t!({x + (y - z)} "(add x (sub y z))");
    t!({x - 2 + z} "(add (sub x i64:2) z)");
    t!({x + (y - 2.0)} "(add x (sub y f64:2))");
    t!({x - y + (z + w)} "(add (sub x y) (add z w))");
    t!({x - y + (z - w)} "(add (sub x y) (sub z w))");
    t!({x - y + z * w} "(add (sub x y) (mul z w))");
    t!({x - y + (z ^ w)} "(add (sub x y) (pow z w))");
    t!({x * y + z} "(add (mul x y) z)");
    t!({x + y * z} "(add x (mul y z))");
    t!({x * 2 + z} "(add (mul x i64:2) z)");
    t!({x + y * 2.0} "(add x (mul y f64:2))");
    t!({x * y + (z + w)} "(add (mul x y) (add z w))");
    t!({x * y + (z - w)} "(add (mul x y) (sub z w))");
    t!({x * y + z * w} "(add (mul x y) (mul z w))");
    t!({x * y + (z ^ w)} "(add (mul x y) (pow z w))");
    t!({(x ^ y) + z} "(add (pow x y) z)");
    t!({x + (y ^ z)} "(add x (pow y z))");
    t!({(x ^ 2) + z} "(add (squared x) z)");
    t!({x + (y ^ 2.0)} "(add x (squared y))");
    t!({(x ^ y) + (z + w)} "(add (pow x y) (add z w))");
    t!({(x ^ y) + (z - w)} "(add (pow x y) (sub z w))");
    t!({(x ^ y) + z * w} "(add (pow x y) (mul z w))");
    t!({(x ^ y) + (z ^ w)} "(add (pow x y) (pow z w))");
    t!({x + y - z} "(sub (add x y) z)");
    t!({x - (y + z)} "(sub x (add y z))");
    t!({x + 2 - z} "(sub (add x i64:2) z)");
    t!({x - (y + 2.0)} "(sub x (add y f64:2))");
    t!({x + y - (z + w)} "(sub (add x y) (add z w))");
    t!({x + y - (z - w)} "(sub (add x y) (sub z w))");
    t!({x + y - z * w} "(sub (add x y) (mul z w))");
    t!({x + y - (z ^ w)} "(sub (add x y) (pow z w))");
    t!({x - y - z} "(sub (sub x y) z)");
    t!({x - (y - z)} "(sub x (sub y z))");
    t!({x - 2 - z} "(sub (sub x i64:2) z)");
    t!({x - (y - 2.0)} "(sub x (sub y f64:2))");
    t!({x - y - (z + w)} "(sub (sub x y) (add z w))");
    t!({x - y - (z - w)} "(sub (sub x y) (sub z w))");
    t!({x - y - z * w} "(sub (sub x y) (mul z w))");
    t!({x - y - (z ^ w)} "(sub (sub x y) (pow z w))");
    t!({x * y - z} "(sub (mul x y) z)");
    t!({x - y * z} "(sub x (mul y z))");
    t!({x * 2 - z} "(sub (mul x i64:2) z)");
    t!({x - y * 2.0} "(sub x (mul y f64:2))");
    t!({x * y - (z + w)} "(sub (mul x y) (add z w))");
    t!({x * y - (z - w)} "(sub (mul x y) (sub z w))");
    t!({x * y - z * w} "(sub (mul x y) (mul z w))");
    t!({x * y - (z ^ w)} "(sub (mul x y) (pow z w))");
    t!({(x ^ y) - z} "(sub (pow x y) z)");
    t!({x - (y ^ z)} "(sub x (pow y z))");
    t!({(x ^ 2) - z} "(sub (squared x) z)");
    t!({x - (y ^ 2.0)} "(sub x (squared y))");
    t!({(x ^ y) - (z + w)} "(sub (pow x y) (add z w))");
    t!({(x ^ y) - (z - w)} "(sub (pow x y) (sub z w))");
    t!({(x ^ y) - z * w} "(sub (pow x y) (mul z w))");
    t!({(x ^ y) - (z ^ w)} "(sub (pow x y) (pow z w))");
    t!({(x + y) * z} "(mul (add x y) z)");
    t!({x * (y + z)} "(mul x (add y z))");
    t!({(x + 2) * z} "(mul (add x i64:2) z)");
    t!({x * (y + 2.0)} "(mul x (add y f64:2))");
    t!({(x + y) * (z + w)} "(mul (add x y) (add z w))");
    t!({(x + y) * (z - w)} "(mul (add x y) (sub z w))");
    t!({(x + y) * (z * w)} "(mul (add x y) (mul z w))");
    t!({(x + y) * (z ^ w)} "(mul (add x y) (pow z w))");
    t!({(x - y) * z} "(mul (sub x y) z)");
    t!({x * (y - z)} "(mul x (sub y z))");
    t!({(x - 2) * z} "(mul (sub x i64:2) z)");
    t!({x * (y - 2.0)} "(mul x (sub y f64:2))");
    t!({(x - y) * (z + w)} "(mul (sub x y) (add z w))");
    t!({(x - y) * (z - w)} "(mul (sub x y) (sub z w))");
    t!({(x - y) * (z * w)} "(mul (sub x y) (mul z w))");
    t!({(x - y) * (z ^ w)} "(mul (sub x y) (pow z w))");
    t!({x * y * z} "(mul (mul x y) z)");
    t!({x * (y * z)} "(mul x (mul y z))");
    t!({x * 2 * z} "(mul (mul x i64:2) z)");
    t!({x * (y * 2.0)} "(mul x (mul y f64:2))");
    t!({x * y * (z + w)} "(mul (mul x y) (add z w))");
    t!({x * y * (z - w)} "(mul (mul x y) (sub z w))");
    t!({x * y * (z * w)} "(mul (mul x y) (mul z w))");
    t!({x * y * (z ^ w)} "(mul (mul x y) (pow z w))");
    t!({(x ^ y) * z} "(mul (pow x y) z)");
    t!({x * (y ^ z)} "(mul x (pow y z))");
    t!({(x ^ 2) * z} "(mul (squared x) z)");
    t!({x * (y ^ 2.0)} "(mul x (squared y))");
    t!({(x ^ y) * (z + w)} "(mul (pow x y) (add z w))");
    t!({(x ^ y) * (z - w)} "(mul (pow x y) (sub z w))");
    t!({(x ^ y) * (z * w)} "(mul (pow x y) (mul z w))");
    t!({(x ^ y) * (z ^ w)} "(mul (pow x y) (pow z w))");
    t!({x + y ^ z} "(pow (add x y) z)");
    t!({x ^ y + z} "(pow x (add y z))");
    t!({x + 2 ^ z} "(pow (add x i64:2) z)");
    t!({x ^ y + 2.0} "(pow x (add y f64:2))");
    t!({x + y ^ z + w} "(pow (add x y) (add z w))");
    t!({x + y ^ z - w} "(pow (add x y) (sub z w))");
    t!({x + y ^ z * w} "(pow (add x y) (mul z w))");
    t!({x + y ^ (z ^ w)} "(pow (add x y) (pow z w))");
    t!({x - y ^ z} "(pow (sub x y) z)");
    t!({x ^ y - z} "(pow x (sub y z))");
    t!({x - 2 ^ z} "(pow (sub x i64:2) z)");
    t!({x ^ y - 2.0} "(pow x (sub y f64:2))");
    t!({x - y ^ z + w} "(pow (sub x y) (add z w))");
    t!({x - y ^ z - w} "(pow (sub x y) (sub z w))");
    t!({x - y ^ z * w} "(pow (sub x y) (mul z w))");
    t!({x - y ^ (z ^ w)} "(pow (sub x y) (pow z w))");
    t!({x * y ^ z} "(pow (mul x y) z)");
    t!({x ^ y * z} "(pow x (mul y z))");
    t!({x * 2 ^ z} "(pow (mul x i64:2) z)");
    t!({x ^ y * 2.0} "(pow x (mul y f64:2))");
    t!({x * y ^ z + w} "(pow (mul x y) (add z w))");
    t!({x * y ^ z - w} "(pow (mul x y) (sub z w))");
    t!({x * y ^ z * w} "(pow (mul x y) (mul z w))");
    t!({x * y ^ (z ^ w)} "(pow (mul x y) (pow z w))");
    t!({x ^ y ^ z} "(pow (pow x y) z)");
    t!({x ^ (y ^ z)} "(pow x (pow y z))");
    t!({x ^ 2 ^ z} "(pow (squared x) z)");
    t!({x ^ (y ^ 2.0)} "(pow x (squared y))");
    t!({x ^ y ^ z + w} "(pow (pow x y) (add z w))");
    t!({x ^ y ^ z - w} "(pow (pow x y) (sub z w))");
    t!({x ^ y ^ z * w} "(pow (pow x y) (mul z w))");
    t!({x ^ y ^ (z ^ w)} "(pow (pow x y) (pow z w))");
    t!({x + (y + (z + w))} "(add x (add y (add z w)))");
    t!({x - y + z + w} "(add (add (sub x y) z) w)");
    t!({x + (y + z * w)} "(add x (add y (mul z w)))");
    t!({(x ^ y) + z + w} "(add (add (pow x y) z) w)");
    t!({x + y - z + w} "(add (sub (add x y) z) w)");
    t!({x + (y - (z - w))} "(add x (sub y (sub z w)))");
    t!({x * y - z + w} "(add (sub (mul x y) z) w)");
    t!({x + (y - (z ^ w))} "(add x (sub y (pow z w)))");
    t!({x + y * (z + w)} "(add x (mul y (add z w)))");
    t!({(x - y) * z + w} "(add (mul (sub x y) z) w)");
    t!({x + y * (z * w)} "(add x (mul y (mul z w)))");
    t!({(x ^ y) * z + w} "(add (mul (pow x y) z) w)");
    t!({(x + y ^ z) + w} "(add (pow (add x y) z) w)");
    t!({x + (y ^ z - w)} "(add x (pow y (sub z w)))");
    t!({(x * y ^ z) + w} "(add (pow (mul x y) z) w)");
    t!({x + (y ^ (z ^ w))} "(add x (pow y (pow z w)))");
    t!({x + y + z - w} "(sub (add (add x y) z) w)");
    t!({x - (y + (z - w))} "(sub x (add y (sub z w)))");
    t!({x * y + z - w} "(sub (add (mul x y) z) w)");
    t!({x - (y + (z ^ w))} "(sub x (add y (pow z w)))");
    t!({x - (y - (z + w))} "(sub x (sub y (add z w)))");
    t!({x - y - z - w} "(sub (sub (sub x y) z) w)");
    t!({x - (y - z * w)} "(sub x (sub y (mul z w)))");
    t!({(x ^ y) - z - w} "(sub (sub (pow x y) z) w)");
    t!({(x + y) * z - w} "(sub (mul (add x y) z) w)");
    t!({x - y * (z - w)} "(sub x (mul y (sub z w)))");
    t!({x * y * z - w} "(sub (mul (mul x y) z) w)");
    t!({x - y * (z ^ w)} "(sub x (mul y (pow z w)))");
    t!({x - (y ^ z + w)} "(sub x (pow y (add z w)))");
    t!({(x - y ^ z) - w} "(sub (pow (sub x y) z) w)");
    t!({x - (y ^ z * w)} "(sub x (pow y (mul z w)))");
    t!({(x ^ y ^ z) - w} "(sub (pow (pow x y) z) w)");
    t!({x * (y + (z + w))} "(mul x (add y (add z w)))");
    t!({(x - y + z) * w} "(mul (add (sub x y) z) w)");
    t!({x * (y + z * w)} "(mul x (add y (mul z w)))");
    t!({((x ^ y) + z) * w} "(mul (add (pow x y) z) w)");
    t!({(x + y - z) * w} "(mul (sub (add x y) z) w)");
    t!({x * (y - (z - w))} "(mul x (sub y (sub z w)))");
    t!({(x * y - z) * w} "(mul (sub (mul x y) z) w)");
    t!({x * (y - (z ^ w))} "(mul x (sub y (pow z w)))");
    t!({x * (y * (z + w))} "(mul x (mul y (add z w)))");
    t!({(x - y) * z * w} "(mul (mul (sub x y) z) w)");
    t!({x * (y * (z * w))} "(mul x (mul y (mul z w)))");
    t!({(x ^ y) * z * w} "(mul (mul (pow x y) z) w)");
    t!({(x + y ^ z) * w} "(mul (pow (add x y) z) w)");
    t!({x * (y ^ z - w)} "(mul x (pow y (sub z w)))");
    t!({(x * y ^ z) * w} "(mul (pow (mul x y) z) w)");
    t!({x * (y ^ (z ^ w))} "(mul x (pow y (pow z w)))");
    t!({x + y + z ^ w} "(pow (add (add x y) z) w)");
    t!({x ^ y + (z - w)} "(pow x (add y (sub z w)))");
    t!({x * y + z ^ w} "(pow (add (mul x y) z) w)");
    t!({x ^ y + (z ^ w)} "(pow x (add y (pow z w)))");
    t!({x ^ y - (z + w)} "(pow x (sub y (add z w)))");
    t!({x - y - z ^ w} "(pow (sub (sub x y) z) w)");
    t!({x ^ y - z * w} "(pow x (sub y (mul z w)))");
    t!({(x ^ y) - z ^ w} "(pow (sub (pow x y) z) w)");
    t!({(x + y) * z ^ w} "(pow (mul (add x y) z) w)");
    t!({x ^ y * (z - w)} "(pow x (mul y (sub z w)))");
    t!({x * y * z ^ w} "(pow (mul (mul x y) z) w)");
    t!({x ^ y * (z ^ w)} "(pow x (mul y (pow z w)))");
    t!({x ^ (y ^ z + w)} "(pow x (pow y (add z w)))");
    t!({x - y ^ z ^ w} "(pow (pow (sub x y) z) w)");
    t!({x ^ (y ^ z * w)} "(pow x (pow y (mul z w)))");
    t!({x ^ y ^ z ^ w} "(pow (pow (pow x y) z) w)");
    // a formula handed on by another macro keeps its grouping
    e!(x + y * z, "(add x (mul y z))");
    e!(x - y - z, "(sub (sub x y) z)");
    case(&mut o, "(x + y) * (z - w), through a macro", prod!(x + y, z - w), "(mul (add x y) (sub z w))");
    // operands that are no operators
    t!({id(x) + y} "(add x y)");
    t!({id(x + y) * z} "(mul (add x y) z)");
    t!({first(x - y, z) ^ w} "(pow (sub x y) w)");
    t!({pair.0 - pair.1} "(sub x y)");
    t!({z * { x + y }} "(mul z (add x y))");
    t!({z ^ { let k = x * y; k }} "(pow z (mul x y))");
    t!({y + x.sub(z)} "(add y (sub x z))");
    t!({x.sub(z) * y} "(mul (sub x z) y)");
    t!({x.squared() + y ^ 2} "(squared (add (squared x) y))");
    t!({*&x + y} "(add x y)");
    t!({z - if true { x } else { x }} "(sub z x)");
    let k = 1;
    t!({y * v[k]} "(mul y x)");
    t!({v[k] ^ y} "(pow x y)");
    let f = aegir!(|a: Variable<IdX>| a + y);
    case(&mut o, "|a| a + y", f(x).tree(), "(add x y)");
    let (p, q) = aegir!((x + y, z * w));
    case(&mut o, "(x + y, z * w)", format!("{} {}", p.tree(), q.tree()), "(add x y) (mul z w)");
    println!("TOTAL\t{}\t{}\t{}\t{}", o.0, o.1, o.0 - o.1, o.2.len());
}

const WHAT: u8 = 3;
include!("elem.rs");

// The operators built on the standard library's functions, at machine double precision: the proofs
// above treat numbers as reals, where a rewrite that overflows or divides infinity by infinity is
// still the same function.  Bounded: the magnitudes listed.
const AT: [f64; 24] = [0.0, 1e-300, 1e-150, 1e-20, 1e-9, 1e-3, 0.1, 0.5, 0.9, 1.0, 1.5, 2.0, 5.0, 20.0, 40.0, 170.0, 355.0, 400.0, 709.0, 720.0, 1e5, 1e10, 1e160, 1e300];
fn agree(got: f64, want: f64) -> bool {
    if want.is_nan() { return got.is_nan(); }
    if want.is_infinite() { return got == want; }
    (got - want).abs() <= 1e-9 * want.abs().max(1.0)
}
type K = aegir::meta::Constant<f64>;
fn at1<O: Function<Nc, Value = f64>>(name: &str, op: &dyn Fn(K) -> O, dom: &dyn Fn(f64) -> bool, want: &dyn Fn(f64) -> f64) {
    for m in AT {
        for x in [m, -m] {
            if !dom(x) { continue; }
            let o = op(aegir::meta::Constant(x));
            fun(&format!("{}::evaluate (double precision)", name));
            let v = real(|| o.evaluate(Nc)).ok();
            check("value", v.map(|v| agree(v, want(x))) == Some(true), || format!("at {:e}: {:?}, the function's value is {:e}", x, v, want(x)));
            fun(&format!("{}::evaluate_spec (double precision)", name));
            let v = real(|| o.evaluate_spec(Nc)).ok().map(|s| s.unwrap());
            check("lifted value", v.map(|v| agree(v, want(x))) == Some(true), || format!("at {:e}: {:?}, the function's value is {:e}", x, v, want(x)));
        }
    }
}
fn at2<O: Function<Nc, Value = f64>>(name: &str, op: &dyn Fn(K, K) -> O, dom: &dyn Fn(f64, f64) -> bool, want: &dyn Fn(f64, f64) -> f64) {
    for m in AT { for n in AT { for x in [m, -m] { for y in [n, -n] {
        if !dom(x, y) { continue; }
        let o = op(aegir::meta::Constant(x), aegir::meta::Constant(y));
        fun(&format!("{}::evaluate (double precision)", name));
        let v = real(|| o.evaluate(Nc)).ok();
        check("value", v.map(|v| agree(v, want(x, y))) == Some(true), || format!("at {:e}, {:e}: {:?}, the function's value is {:e}", x, y, v, want(x, y)));
        fun(&format!("{}::evaluate_spec (double precision)", name));
        let v = real(|| o.evaluate_spec(Nc)).ok().map(|s| s.unwrap());
        check("lifted value", v.map(|v| agree(v, want(x, y))) == Some(true), || format!("at {:e}, {:e}: {:?}, the function's value is {:e}", x, y, v, want(x, y)));
    }}}}
}
fn machine_elementary() {
    let any = |_: f64| true;
    at1("Negate", &|j| ops::Negate(j), &any, &|x| -x);
    at1("Double", &|j| ops::Double(j), &any, &|x| 2.0 * x);
    at1("Square", &|j| ops::Square(j), &any, &|x| x * x);
    at1("AddOne", &|j| ops::AddOne(j), &any, &|x| x + 1.0);
    at1("SubOne", &|j| ops::SubOne(j), &any, &|x| x - 1.0);
    at1("OneSub", &|j| ops::OneSub(j), &any, &|x| 1.0 - x);
    at1("Abs", &|j| ops::Abs(j), &any, &|x| x.abs());
    at1("Exp", &|j| ops::Exp(j), &any, &|x| x.exp());
    at1("Ln", &|j| ops::Ln(j), &|x| x > 0.0, &|x| x.ln());
    at1("XLnX", &|j| ops::XLnX(j), &any, &|x| if x > 0.0 { x * x.ln() } else { 0.0 });
    at1("Sigmoid", &|j| ops::Sigmoid(j), &any, &|x| 1.0 / (1.0 + (-x).exp()));
    at1("Sum", &|j| ops::Sum(j), &any, &|x| x);
}
fn machine_trig() {
    let any = |_: f64| true;
    let small = |x: f64| x.abs() <= 1e5;
    at1("Sin", &|j| ops::trig::Sin(j), &small, &|x| x.sin());
    at1("Cos", &|j| ops::trig::Cos(j), &small, &|x| x.cos());
    at1("Tan", &|j| ops::trig::Tan(j), &small, &|x| x.tan());
    at1("Sinh", &|j| ops::trig::Sinh(j), &any, &|x| x.sinh());
    at1("Cosh", &|j| ops::trig::Cosh(j), &any, &|x| x.cosh());
    at1("Tanh", &|j| ops::trig::Tanh(j), &any, &|x| x.tanh());
    at1("ArcSin", &|j| ops::trig::ArcSin(j), &|x| x.abs() <= 1.0, &|x| x.asin());
    at1("ArcCos", &|j| ops::trig::ArcCos(j), &|x| x.abs() <= 1.0, &|x| x.acos());
    at1("ArcTan", &|j| ops::trig::ArcTan(j), &any, &|x| x.atan());
    at1("ArcSinh", &|j| ops::trig::ArcSinh(j), &any, &|x| x.asinh());
    at1("ArcCosh", &|j| ops::trig::ArcCosh(j), &|x| x >= 1.0, &|x| x.acosh());
    at1("ArcTanh", &|j| ops::trig::ArcTanh(j), &|x| x.abs() < 1.0, &|x| x.atanh());
}
fn machine_special() {
    use special_fun::FloatSpecial;
    let pos = |x: f64| x > 0.0;
    at1("Gamma", &|j| ops::special::Gamma(j), &|x| x >= 1e-300 && x < 172.0, &|x| FloatSpecial::gamma(x));
    at1("DiGamma", &|j| ops::special::DiGamma(j), &|x| x >= 1e-20, &|x| FloatSpecial::digamma(x));
    at1("LogGamma", &|j| ops::special::LogGamma(j), &pos, &|x| FloatSpecial::loggamma(x));
    at1("Factorial", &|j| ops::special::Factorial::factorial(j), &|x| x >= 0.0 && x < 171.0, &|x| FloatSpecial::gamma(x + 1.0));
    at1("Erf", &|j| ops::special::Erf(j), &|_| true, &|x| FloatSpecial::erf(x));
    at1("Erfc", &|j| ops::special::Erfc::erfc(j), &|_| true, &|x| 1.0 - FloatSpecial::erf(x));
}
fn machine_binary() {
    at2("Add", &|l, r| ops::Add(l, r), &|_, _| true, &|x, y| x + y);
    at2("Sub", &|l, r| ops::Sub(l, r), &|_, _| true, &|x, y| x - y);
    at2("Mul", &|l, r| ops::Mul(l, r), &|_, _| true, &|x, y| x * y);
    at2("Div", &|l, r| ops::Div(l, r), &|_, y| y != 0.0, &|x, y| x / y);
    at2("Power", &|l, r| ops::Power(l, r), &|x, y| x > 0.0 || (y.fract() == 0.0 && y.abs() < 1e3 && x != 0.0) || (x == 0.0 && y >= 0.0), &|x, y| x.powf(y));
}

pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    let mut v = vec![];
    elem(&mut v);
    const B: &str = "the 48 magnitudes and signs listed, against the standard library's and special-fun's functions";
    v.push(("machine_elementary", Mode::Real, machine_elementary as fn(), B));
    v.push(("machine_trig", Mode::Real, machine_trig as fn(), B));
    v.push(("machine_special", Mode::Real, machine_special as fn(), B));
    v.push(("machine_binary", Mode::Real, machine_binary as fn(), B));
    v
}

// Generated from the alphabets by name: every ordered pair of identifiers, and their printed symbols.
#[allow(unused_imports)]
use crate::engine::{self, *};
use crate::stub::*;
use crate::sym::Val;
use aegir::{ids, meta::Variable, Function, Identifier};

mod own {
    aegir::ids!(Foo::f, Bar, Baz::"\u{03B2}\u{2080}", LongName, Reward::r, Other::"r", X::x, Bar2, Tick::"x'");
}
mod odd { aegir::ids!(Set::"{{x}}", Close::"a }} b", Blank::"", Quote::"\"q\" \\ %s", Self_::self_); }
mod single { aegir::ids!(Only); }
mod single_sym { aegir::ids!(Only::o); }

macro_rules! row { ($i:expr; $($j:expr),*) => {{ let a = $i; let mut v = vec![]; $( v.push(real(|| (a == $j, a != $j))); )* v }} }
fn id_row(name: &str, k: usize, row: Vec<(bool, bool)>) {
    fun(&format!("PartialEq for {}", name));
    for (j, (e, n)) in row.into_iter().enumerate() {
        check("equal exactly when it is the same identifier", e == (j == k) && n == (j != k), || format!("against identifier number {}: == is {}, != is {}", j, e, n));
    }
}
fn prints<I: Identifier>(i: I, sym: &str) {
    let n = idname(&i);
    fun(&format!("Display for {}", n));
    let t = real(|| i.to_string());
    check("prints the symbol it was declared with", t == sym, || format!("prints {:?}, declared with {:?}", t, sym));
    for v in [Variable(i), i.into_var(), Variable::from(i)] {
        fun(&format!("Variable<{}>", n));
        let t = real(|| v.to_string());
        check("prints as its identifier", t == sym, || format!("prints {:?}", t));
        let t = real(|| aegir::fmt::ToExpr::to_expr(&v).to_string());
        check("prints as its identifier", t == sym, || format!("prints {:?}", t));
        let x = S::fresh("x");
        let st = Store::<S>::new().with(i, aegir::buffers::Spec::Raw(x));
        let _ = take_log();
        for w in 0..3 {
            let got = real(|| match w { 0 => v.evaluate(st.clone()).ok(), 1 => v.evaluate_spec(st.clone()).ok().map(|s| dense(&s)), _ => v.evaluate_shape(st.clone()).ok().map(|_| x) });
            match got { Some(g) => prove("reads its identifier's value", g.same(x)), None => check("reads its identifier", false, || "error".into()) }
            let l = take_log();
            check("reads its identifier and nothing else", !l.is_empty() && l.iter().all(|e| e.0 == n), || format!("{:?}", l));
        }
    }
}
fn pairs() {
    id_row("A", 0, row!(ids::A; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("B", 1, row!(ids::B; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("C", 2, row!(ids::C; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("D", 3, row!(ids::D; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("E", 4, row!(ids::E; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("F", 5, row!(ids::F; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("G", 6, row!(ids::G; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("H", 7, row!(ids::H; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("I", 8, row!(ids::I; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("J", 9, row!(ids::J; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("K", 10, row!(ids::K; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("L", 11, row!(ids::L; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("M", 12, row!(ids::M; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("N", 13, row!(ids::N; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("O", 14, row!(ids::O; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("P", 15, row!(ids::P; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Q", 16, row!(ids::Q; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("R", 17, row!(ids::R; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("S", 18, row!(ids::S; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("T", 19, row!(ids::T; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("U", 20, row!(ids::U; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("V", 21, row!(ids::V; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("W", 22, row!(ids::W; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("X", 23, row!(ids::X; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Y", 24, row!(ids::Y; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Z", 25, row!(ids::Z; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Alpha", 26, row!(ids::Alpha; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Beta", 27, row!(ids::Beta; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Gamma", 28, row!(ids::Gamma; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Delta", 29, row!(ids::Delta; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Epsilon", 30, row!(ids::Epsilon; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Zeta", 31, row!(ids::Zeta; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Eta", 32, row!(ids::Eta; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Theta", 33, row!(ids::Theta; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Iota", 34, row!(ids::Iota; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Kappa", 35, row!(ids::Kappa; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Lambda", 36, row!(ids::Lambda; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Mu", 37, row!(ids::Mu; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Nu", 38, row!(ids::Nu; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Xi", 39, row!(ids::Xi; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Omicron", 40, row!(ids::Omicron; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Pi", 41, row!(ids::Pi; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Rho", 42, row!(ids::Rho; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Sigma", 43, row!(ids::Sigma; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Tau", 44, row!(ids::Tau; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Upsilon", 45, row!(ids::Upsilon; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Phi", 46, row!(ids::Phi; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Chi", 47, row!(ids::Chi; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Psi", 48, row!(ids::Psi; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
    id_row("Omega", 49, row!(ids::Omega; ids::A, ids::B, ids::C, ids::D, ids::E, ids::F, ids::G, ids::H, ids::I, ids::J, ids::K, ids::L, ids::M, ids::N, ids::O, ids::P, ids::Q, ids::R, ids::S, ids::T, ids::U, ids::V, ids::W, ids::X, ids::Y, ids::Z, ids::Alpha, ids::Beta, ids::Gamma, ids::Delta, ids::Epsilon, ids::Zeta, ids::Eta, ids::Theta, ids::Iota, ids::Kappa, ids::Lambda, ids::Mu, ids::Nu, ids::Xi, ids::Omicron, ids::Pi, ids::Rho, ids::Sigma, ids::Tau, ids::Upsilon, ids::Phi, ids::Chi, ids::Psi, ids::Omega));
}
fn own_pairs() {
    id_row("Foo", 0, row!(own::Foo; own::Foo, own::Bar, own::Baz, own::LongName, own::Reward, own::Other, own::X, own::Bar2, own::Tick));
    id_row("Bar", 1, row!(own::Bar; own::Foo, own::Bar, own::Baz, own::LongName, own::Reward, own::Other, own::X, own::Bar2, own::Tick));
    id_row("Baz", 2, row!(own::Baz; own::Foo, own::Bar, own::Baz, own::LongName, own::Reward, own::Other, own::X, own::Bar2, own::Tick));
    id_row("LongName", 3, row!(own::LongName; own::Foo, own::Bar, own::Baz, own::LongName, own::Reward, own::Other, own::X, own::Bar2, own::Tick));
    id_row("Reward", 4, row!(own::Reward; own::Foo, own::Bar, own::Baz, own::LongName, own::Reward, own::Other, own::X, own::Bar2, own::Tick));
    id_row("Other", 5, row!(own::Other; own::Foo, own::Bar, own::Baz, own::LongName, own::Reward, own::Other, own::X, own::Bar2, own::Tick));
    id_row("X", 6, row!(own::X; own::Foo, own::Bar, own::Baz, own::LongName, own::Reward, own::Other, own::X, own::Bar2, own::Tick));
    id_row("Bar2", 7, row!(own::Bar2; own::Foo, own::Bar, own::Baz, own::LongName, own::Reward, own::Other, own::X, own::Bar2, own::Tick));
    id_row("Tick", 8, row!(own::Tick; own::Foo, own::Bar, own::Baz, own::LongName, own::Reward, own::Other, own::X, own::Bar2, own::Tick));
}
fn built_in() {
    prints(ids::A, "a");
    prints(ids::B, "b");
    prints(ids::C, "c");
    prints(ids::D, "d");
    prints(ids::E, "e");
    prints(ids::F, "f");
    prints(ids::G, "g");
    prints(ids::H, "h");
    prints(ids::I, "i");
    prints(ids::J, "j");
    prints(ids::K, "k");
    prints(ids::L, "l");
    prints(ids::M, "m");
    prints(ids::N, "n");
    prints(ids::O, "o");
    prints(ids::P, "p");
    prints(ids::Q, "q");
    prints(ids::R, "r");
    prints(ids::S, "s");
    prints(ids::T, "t");
    prints(ids::U, "u");
    prints(ids::V, "v");
    prints(ids::W, "w");
    prints(ids::X, "x");
    prints(ids::Y, "y");
    prints(ids::Z, "z");
    prints(ids::Alpha, "α");
    prints(ids::Beta, "β");
    prints(ids::Gamma, "γ");
    prints(ids::Delta, "δ");
    prints(ids::Epsilon, "ε");
    prints(ids::Zeta, "ζ");
    prints(ids::Eta, "η");
    prints(ids::Theta, "θ");
    prints(ids::Iota, "ι");
    prints(ids::Kappa, "κ");
    prints(ids::Lambda, "λ");
    prints(ids::Mu, "μ");
    prints(ids::Nu, "ν");
    prints(ids::Xi, "ξ");
    prints(ids::Omicron, "ο");
    prints(ids::Pi, "π");
    prints(ids::Rho, "ρ");
    prints(ids::Sigma, "σ");
    prints(ids::Tau, "τ");
    prints(ids::Upsilon, "υ");
    prints(ids::Phi, "φ");
    prints(ids::Chi, "χ");
    prints(ids::Psi, "ψ");
    prints(ids::Omega, "ω");
}
fn declared() {
    prints(own::Foo, "f");
    prints(own::Bar, "Bar");
    prints(own::Baz, "β₀");
    prints(own::LongName, "LongName");
    prints(own::Reward, "r");
    prints(own::Other, "r");
    prints(own::X, "x");
    prints(own::Bar2, "Bar2");
    prints(own::Tick, "x'");
    prints(odd::Set, "{{x}}");
    prints(odd::Close, "a }} b");
    prints(odd::Blank, "");
    prints(odd::Quote, "\"q\" \\ %s");
    prints(odd::Self_, "self_");
    prints(single::Only, "Only");
    prints(single_sym::Only, "o");
}
fn singles() {
    id_row("Only", 0, row!(single::Only; single::Only));
    id_row("Only", 0, row!(single_sym::Only; single_sym::Only));
}
pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![("built-in pairs", Mode::Real, pairs as fn(), ""), ("declared pairs", Mode::Real, own_pairs, "four declarations"), ("single", Mode::Real, singles, ""), ("built-in symbols", Mode::Real, built_in, ""), ("declared symbols", Mode::Real, declared, "four declarations")]
}

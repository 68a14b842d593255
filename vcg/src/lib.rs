#![recursion_limit = "512"]
#![allow(clippy::all)]
pub mod term;
pub mod track;
pub mod watch;
pub mod poly;
pub mod smt;
pub mod engine;
pub mod sym;
pub mod stub;
pub mod report;

/// One binary per property: the harness file is compiled at `Sym` and at `f64`.
#[macro_export]
macro_rules! prop {
    ($p:literal, $f:literal) => {
        #[allow(unused)]
        use vcg::{engine, stub, sym};
        #[allow(unused, non_snake_case, non_camel_case_types)]
        mod hsym {
            pub type S = vcg::sym::Sym;
            include!($f);
        }
        #[allow(unused, non_snake_case, non_camel_case_types)]
        mod hf64 {
            pub type S = f64;
            include!($f);
        }
        fn main() { vcg::report::main_for($p, vcg::report::zip(hsym::list(), hf64::list())) }
    };
}

const WHAT: u8 = 4;
include!("elem.rs");
mod spec {
    use super::S;
    include!("spec.rs");
}
mod dot {
    use super::S;
    include!("c09.rs");
}

pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    let mut v = vec![];
    elem(&mut v);
    v.extend(spec::spec_list());
    // the lifted contractions against the sums over the entries they stand for
    v.extend(dot::list().into_iter().filter(|x| !x.0.contains("non-square")));
    v
}

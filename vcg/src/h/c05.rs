const WHAT: u8 = 5;
include!("elem.rs");
include!("extra.rs");

pub fn list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    let mut v = vec![];
    elem(&mut v);
    extra(&mut v);
    v
}

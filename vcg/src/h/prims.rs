// the scalar buffer at every primitive type, on sampled values
macro_rules! prims { ($($t:ident),*) => { $( pub fn $t() {
    type S0 = aegir::buffers::shapes::S0;
    use aegir::buffers::{Scalars, shapes::Shaped, ZipFold, ZipMap};
    let vs: [$t; 7] = [0 as $t, 1 as $t, 2 as $t, 100 as $t, (0 as $t), $t::MAX, $t::MIN];
    for x in vs {
        for y in vs {
            fun(concat!(stringify!($t), " as a buffer"));
            real(|| {
                if !ZIPS { check("build", <Scalars as Class<S0>>::build::<$t>(aegir::buffers::shapes::S0, |()| x) == x, || "differs".into());
                check("full", <Scalars as Class<S0>>::full::<$t>(aegir::buffers::shapes::S0, x) == x, || "differs".into());
                check("zeroes, ones, diagonal, identity", <Scalars as Class<S0>>::zeroes::<$t>(aegir::buffers::shapes::S0) == 0 as $t && <Scalars as Class<S0>>::ones::<$t>(aegir::buffers::shapes::S0) == 1 as $t
                    && <Scalars as Class<S0>>::diagonal::<$t>(aegir::buffers::shapes::S0, x) == x && <Scalars as Class<S0>>::identity::<$t>(aegir::buffers::shapes::S0) == 1 as $t, || "differs".into());
                check("build_subset", <Scalars as Class<S0>>::build_subset::<$t>(aegir::buffers::shapes::S0, x, vec![].into_iter(), |()| y) == x && <Scalars as Class<S0>>::build_subset::<$t>(aegir::buffers::shapes::S0, x, vec![()].into_iter(), |()| y) == y, || "differs".into());
                check("get", Buffer::get(&x, ()) == Some(x) && Buffer::get_unchecked(&x, ()) == x && Shaped::shape(&x) == aegir::buffers::shapes::S0, || "differs".into());
                let f = |z: $t| if z == x { y } else { z };
                let mut m = x;
                Buffer::mutate(&mut m, f);
                check("map", Buffer::map(x, f) == y && Buffer::map_ref(&x, f) == y && m == y, || "differs".into());
                check("fold", Buffer::fold(&x, vec![y], |mut t, z| { t.push(z); t }) == vec![y, x] && Buffer::sum(&x) == x, || "differs".into()); }
                if ZIPS { check("zip", <$t as ZipMap<$t>>::zip_map(x, &y, |a, b| if a == x && b == y { 3 as $t } else { 4 as $t }) .ok() == Some(3 as $t) && <$t as ZipMap<$t>>::zip_map_id(x, &y, |a, b| if a == x && b == y { 3 as $t } else { 4 as $t }) .ok() == Some(3 as $t)
                    && <$t as ZipFold<$t>>::zip_fold(&x, &y, 5 as $t, |i, (a, b)| if i == 5 as $t && a == x && b == y { 3 as $t } else { 4 as $t }) .ok() == Some(3 as $t) && <$t as ZipMap<$t>>::zip_shape(x, aegir::buffers::shapes::S0) .ok() == Some(x), || "differs".into()) };
            });
        }
    }
} )* } }
mod prim {
    use super::*;
    prims!(f32, f64, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
}
fn prim_list() -> Vec<(&'static str, Mode, fn(), &'static str)> {
    vec![("f32", Mode::Real, prim::f32 as fn(), "7 values"), ("f64", Mode::Real, prim::f64 as fn(), "7 values"), ("u8", Mode::Real, prim::u8 as fn(), "7 values"), ("u16", Mode::Real, prim::u16 as fn(), "7 values"), ("u32", Mode::Real, prim::u32 as fn(), "7 values"), ("u64", Mode::Real, prim::u64 as fn(), "7 values"), ("usize", Mode::Real, prim::usize as fn(), "7 values"), ("i8", Mode::Real, prim::i8 as fn(), "7 values"), ("i16", Mode::Real, prim::i16 as fn(), "7 values"), ("i32", Mode::Real, prim::i32 as fn(), "7 values"), ("i64", Mode::Real, prim::i64 as fn(), "7 values"), ("isize", Mode::Real, prim::isize as fn(), "7 values")]
}

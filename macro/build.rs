// Extracts the macro's source from /repo on every build. Three things are dropped or replaced, so that it can be
// called outside a compiler: the attribute `#[proc_macro]`, the crate `proc_macro` (by `proc_macro2`), and the
// import of `parse_macro_input` (the call is bound to `syn::parse2`). Nothing else is touched.
use quote::ToTokens;
use syn::{fold::Fold, Item, UseTree};
struct X;
fn keep(t: &UseTree) -> bool {
    match t {
        UseTree::Name(n) => n.ident != "parse_macro_input",
        _ => true,
    }
}
impl Fold for X {
    fn fold_ident(&mut self, i: syn::Ident) -> syn::Ident { if i == "proc_macro" { syn::Ident::new("proc_macro2", i.span()) } else { i } }
    fn fold_item_fn(&mut self, mut f: syn::ItemFn) -> syn::ItemFn {
        f.attrs.retain(|a| !a.path.is_ident("proc_macro"));
        syn::fold::fold_item_fn(self, f)
    }
    fn fold_use_tree(&mut self, t: UseTree) -> UseTree {
        match t {
            UseTree::Group(mut g) => {
                g.items = g.items.into_iter().filter(keep).collect();
                UseTree::Group(syn::fold::fold_use_group(self, g))
            }
            t => syn::fold::fold_use_tree(self, t),
        }
    }
}
fn main() {
    let p = "/repo/aegir_compile/src/lib.rs";
    println!("cargo:rerun-if-changed={}", p);
    let src = std::fs::read_to_string(p).unwrap();
    let file = syn::parse_file(&src).unwrap();
    // the function behind the macro named `aegir`
    assert!(file.items.iter().any(|i| matches!(i, Item::Fn(f) if f.sig.ident == "aegir" && f.attrs.iter().any(|a| a.path.is_ident("proc_macro")))), "anchor lost");
    let mut out = X.fold_file(file);
    out.attrs.clear();
    out.items.retain(|i| match i {
        Item::Use(u) => match &u.tree {
            UseTree::Path(p) if p.ident == "syn" => match &*p.tree {
                UseTree::Name(n) => n.ident != "parse_macro_input",
                _ => true,
            },
            _ => true,
        },
        Item::ExternCrate(_) => false,
        _ => true,
    });
    let d = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{}/real.rs", d), out.into_token_stream().to_string()).unwrap();
}

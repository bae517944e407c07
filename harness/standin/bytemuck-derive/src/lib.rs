//! `Pod` and `Zeroable` derives of the bytemuck stand-in: `struct Name` without generics.
use proc_macro::{TokenStream, TokenTree};
fn name(input: TokenStream) -> String {
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        if matches!(&t, TokenTree::Ident(i) if i.to_string() == "struct") {
            return it.next().unwrap().to_string();
        }
    }
    panic!("not a struct")
}
#[proc_macro_derive(Pod)]
pub fn pod(input: TokenStream) -> TokenStream {
    format!("unsafe impl ::bytemuck::Pod for {} {{}}", name(input)).parse().unwrap()
}
#[proc_macro_derive(Zeroable)]
pub fn zeroable(input: TokenStream) -> TokenStream {
    format!("unsafe impl ::bytemuck::Zeroable for {} {{}}", name(input)).parse().unwrap()
}

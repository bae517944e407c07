//! `async fn` in traits is part of the language.
#[proc_macro_attribute]
pub fn async_trait(_: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream {
    item
}

//! Stand-in for `stwo_air_utils_derive`: structs whose fields are `[Vec<T>; N]`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Expr, Fields, GenericArgument, Ident, ItemStruct, PathArguments, Type};

/// Fields as (name, element type, count); count is None for a plain `Vec<T>`.
fn fields(s: &ItemStruct) -> Vec<(Ident, Type, Option<Expr>)> {
    let Fields::Named(n) = &s.fields else { panic!("named fields expected") };
    let elem = |t: &Type| -> Type {
        let Type::Path(p) = t else { panic!("Vec expected") };
        let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments else { panic!() };
        let GenericArgument::Type(t) = &a.args[0] else { panic!() };
        t.clone()
    };
    n.named
        .iter()
        .map(|f| {
            let name = f.ident.clone().unwrap();
            match &f.ty {
                Type::Array(a) => (name, elem(&a.elem), Some(a.len.clone())),
                t => (name, elem(t), None),
            }
        })
        .collect()
}
#[proc_macro_derive(Uninitialized)]
pub fn uninitialized(input: TokenStream) -> TokenStream {
    let s = parse_macro_input!(input as ItemStruct);
    let name = &s.ident;
    let init = fields(&s).into_iter().map(|(f, t, n)| {
        let one = quote! { { let mut v: Vec<#t> = Vec::with_capacity(len); unsafe {
            std::ptr::write_bytes(v.as_mut_ptr() as *mut u8, 0x49, len * std::mem::size_of::<#t>());
            v.set_len(len); } v } };
        match n {
            Some(_) => quote! { #f: std::array::from_fn(|_| #one) },
            None => quote! { #f: #one },
        }
    });
    quote! {
        impl #name {
            pub unsafe fn uninitialized(log_size: u32) -> Self {
                let len = 1usize << log_size;
                Self { #(#init),* }
            }
        }
    }
    .into()
}
#[proc_macro_derive(IterMut)]
pub fn iter_mut(input: TokenStream) -> TokenStream {
    let s = parse_macro_input!(input as ItemStruct);
    let (name, row) = (&s.ident, format_ident!("{}IterMutRow", s.ident));
    let fs = fields(&s);
    let decl = fs.iter().map(|(f, t, n)| match n {
        Some(n) => quote! { pub #f: [&'a mut #t; #n] },
        None => quote! { pub #f: &'a mut #t },
    });
    let its = fs.iter().map(|(f, _, n)| match n {
        Some(_) => quote! { let mut #f = self.#f.each_mut().map(|v| v.iter_mut()); },
        None => quote! { let mut #f = self.#f.iter_mut(); },
    });
    let next = fs.iter().map(|(f, _, n)| match n {
        Some(_) => quote! { #f: #f.each_mut().map(|i| i.next().unwrap()) },
        None => quote! { #f: #f.next().unwrap() },
    });
    let len = fs
        .iter()
        .map(|(f, _, n)| match n {
            Some(_) => quote! { self.#f.first().map(|v| v.len()) },
            None => quote! { Some(self.#f.len()) },
        });
    quote! {
        pub struct #row<'a> { #(#decl),* }
        impl #name {
            pub fn iter_mut(&mut self) -> std::vec::IntoIter<#row<'_>> {
                let len = [#(#len),*].into_iter().flatten().next().unwrap_or(0);
                #(#its)*
                let rows: Vec<_> = (0..len).map(|_| #row { #(#next),* }).collect();
                rows.into_iter()
            }
        }
    }
    .into()
}
#[proc_macro_derive(ParIterMut)]
pub fn par_iter_mut(input: TokenStream) -> TokenStream {
    let s = parse_macro_input!(input as ItemStruct);
    let (name, row) = (&s.ident, format_ident!("{}IterMutRow", s.ident));
    quote! {
        impl #name {
            pub fn par_iter_mut(&mut self) -> Vec<#row<'_>> {
                self.iter_mut().collect()
            }
        }
    }
    .into()
}

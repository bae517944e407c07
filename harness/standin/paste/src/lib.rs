//! Stand-in for the `paste!` macro: concatenation with `:snake`, `:upper`, `:lower`, `:camel`.
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

#[proc_macro]
pub fn paste(input: TokenStream) -> TokenStream {
    expand(input)
}
fn expand(ts: TokenStream) -> TokenStream {
    let mut out = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket && is_paste(&g) => out.push(join(&g)),
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => out.extend(expand(g.stream())),
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), expand(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            o => out.push(o),
        }
    }
    out.into_iter().collect()
}
fn is_paste(g: &Group) -> bool {
    let v: Vec<TokenTree> = g.stream().into_iter().collect();
    v.len() > 2
        && matches!(&v[0], TokenTree::Punct(p) if p.as_char() == '<')
        && matches!(&v[v.len()-1], TokenTree::Punct(p) if p.as_char() == '>')
}
fn flat(ts: TokenStream, out: &mut Vec<TokenTree>) {
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => flat(g.stream(), out),
            o => out.push(o),
        }
    }
}
fn join(g: &Group) -> TokenTree {
    let mut v = vec![];
    flat(g.stream(), &mut v);
    let v = &v[1..v.len() - 1];
    let mut span: Option<Span> = None;
    let mut parts: Vec<String> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == ':' => {
                i += 1;
                let m = v[i].to_string();
                let last = parts.pop().unwrap();
                parts.push(match m.as_str() {
                    "upper" => last.to_uppercase(),
                    "lower" => last.to_lowercase(),
                    "snake" => snake(&last),
                    "camel" => camel(&last),
                    o => panic!("paste stand-in: unknown modifier {o}"),
                });
            }
            t => {
                span.get_or_insert(t.span());
                parts.push(t.to_string().trim_matches('"').trim_start_matches("r#").to_string());
            }
        }
        i += 1;
    }
    TokenTree::Ident(Ident::new(&parts.concat(), span.unwrap_or_else(Span::call_site)))
}
fn snake(s: &str) -> String {
    let mut out = String::new();
    let mut prev = '_';
    for c in s.chars() {
        if c.is_uppercase() && prev != '_' {
            out.push('_');
        }
        out.push(c);
        prev = c;
    }
    out.to_lowercase()
}
fn camel(s: &str) -> String {
    let mut out = String::new();
    let mut up = true;
    for c in s.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.extend(c.to_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}

//! Stand-in for #[wasm_bindgen]: items are left as they are, imported functions do nothing.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let tokens: Vec<TokenTree> = item.clone().into_iter().collect();
    let is_extern = tokens.iter().any(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "extern"))
        && matches!(tokens.last(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace)
        && !tokens.iter().any(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "fn"));
    if !is_extern {
        return item;
    }
    let body = match tokens.last() {
        Some(TokenTree::Group(g)) => g.stream(),
        _ => unreachable!(),
    };
    let mut out = String::new();
    let mut arrow = false;
    let mut it = body.into_iter().peekable();
    while let Some(t) = it.next() {
        match &t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                it.next();
            }
            TokenTree::Punct(p) if p.as_char() == ';' => {
                out.push_str(if arrow { "{ unimplemented!() }\n" } else { "{ }\n" });
                arrow = false;
            }
            TokenTree::Punct(p) if p.as_char() == '-' => {
                arrow = true;
                out.push('-');
            }
            other => {
                out.push_str(&other.to_string());
                if !matches!(&t, TokenTree::Punct(_)) {
                    out.push(' ');
                }
            }
        }
    }
    format!("#[allow(unused_variables, dead_code)] mod __imported {{ {} }} #[allow(unused_imports)] pub use __imported::*;", out)
        .parse()
        .unwrap()
}

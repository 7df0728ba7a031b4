//! Stand-in for the attribute: items stay as they are, imported functions do nothing.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let ts: Vec<TokenTree> = item.clone().into_iter().collect();
    if !matches!(ts.first(), Some(TokenTree::Ident(i)) if i.to_string() == "extern") {
        return item;
    }
    let mut out = vec![];
    if let Some(TokenTree::Group(g)) = ts.last() {
        for t in g.stream() {
            match &t {
                TokenTree::Punct(p) if p.as_char() == ';' => out.push(TokenTree::Group(Group::new(Delimiter::Brace, TokenStream::new()))),
                _ => out.push(t),
            }
        }
    }
    out.into_iter().collect()
}

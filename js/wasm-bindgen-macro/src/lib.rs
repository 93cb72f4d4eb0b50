//! Stand-in for the attribute: items stay as they are; functions imported from
//! JavaScript get a body that does nothing.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.clone().into_iter().collect();
    let foreign = toks.iter().any(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "extern"))
        && matches!(toks.last(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace)
        && !toks.iter().any(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "fn"));
    if !foreign { return strip(item); }
    let Some(TokenTree::Group(g)) = toks.last() else { return item };
    let mut out = String::from("#[allow(unused_variables, dead_code)] ");
    let mut first = true;
    let mut hash = false;
    for t in g.stream() {
        // attributes of imported functions belong to the real macro
        match &t {
            TokenTree::Punct(p) if p.as_char() == '#' => { hash = true; continue; }
            TokenTree::Group(g) if hash && g.delimiter() == Delimiter::Bracket => { hash = false; continue; }
            TokenTree::Punct(p) if p.as_char() == ';' => { out.push_str(" { ::wasm_bindgen::foreign() } #[allow(unused_variables, dead_code)] "); first = true; continue; }
            _ => {}
        }
        hash = false;
        let _ = first;
        first = false;
        out.push_str(&t.to_string());
        out.push(' ');
    }
    let cut = out.rfind("#[allow").unwrap();
    out.truncate(cut);
    out.parse().unwrap()
}
/// Attributes of the real macro on fields and variants.
fn strip(s: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    for t in s {
        if let TokenTree::Group(g) = &t {
            if g.delimiter() == Delimiter::Bracket && matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '#')
                && matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i.to_string() == "wasm_bindgen") { out.pop(); continue; }
            if g.delimiter() == Delimiter::Brace && !g.stream().is_empty() {
                let mut n = Group::new(Delimiter::Brace, strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
                continue;
            }
        }
        out.push(t);
    }
    out.into_iter().collect()
}

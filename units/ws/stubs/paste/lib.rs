//! Stand-in for paste: joins the identifiers and literals of each `[< … >]`.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, Ident, TokenStream, TokenTree};
fn go(ts: TokenStream) -> TokenStream {
    ts.into_iter().map(|t| match t {
        TokenTree::Group(g) => {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            let is = |t: &TokenTree, c| matches!(t, TokenTree::Punct(p) if p.as_char() == c);
            if g.delimiter() == Delimiter::Bracket && inner.len() > 2 && is(&inner[0], '<') && is(&inner[inner.len() - 1], '>') {
                let mut s = String::new(); let mut span = g.span();
                for t in &inner[1..inner.len() - 1] {
                    if s.is_empty() { span = t.span(); }
                    s.push_str(t.to_string().trim_matches('"'));
                }
                let _ = span;
                TokenTree::Ident(Ident::new(&s, first_span(&inner[1])))
            } else {
                let mut n = Group::new(g.delimiter(), go(g.stream())); n.set_span(g.span()); TokenTree::Group(n)
            }
        }
        t => t,
    }).collect()
}
fn first_span(t: &TokenTree) -> proc_macro::Span {
    match t { TokenTree::Group(g) => g.stream().into_iter().next().map(|t| first_span(&t)).unwrap_or(g.span()), t => t.span() }
}
#[proc_macro]
pub fn paste(ts: TokenStream) -> TokenStream { go(ts) }

//! Stand-in for clap's derive: the binding macros only need `T::parse()`; the declaration is kept as text for analysis.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(Clap, attributes(clap))]
pub fn clap(input: TokenStream) -> TokenStream {
    let text = input.to_string();
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            let s = i.to_string();
            if s == "struct" || s == "enum" {
                let n = it.next().unwrap();
                return format!("impl {} {{ fn parse() -> Self {{ loop {{}} }} fn declared() -> &'static str {{ {:?} }} }}", n, text).parse().unwrap();
            }
        }
    }
    TokenStream::new()
}

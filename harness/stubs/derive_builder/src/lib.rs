//! Stands in for derive_builder: `#[derive(Builder)] struct X` gives an empty `XBuilder` (the
//! builder's methods are not used by the code under test).
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(item: TokenStream) -> TokenStream {
    let mut next = false;
    for t in item {
        if let TokenTree::Ident(i) = t {
            if next {
                return format!("#[derive(Default)] pub struct {}Builder {{}}", i).parse().unwrap();
            }
            next = i.to_string() == "struct";
        }
    }
    TokenStream::new()
}

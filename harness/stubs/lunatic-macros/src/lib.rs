use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn test(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut out: TokenStream = "#[test]".parse().unwrap();
    out.extend(item);
    out
}
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

//! A default value that nothing is known about.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(SmartDefault, attributes(default))]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut name = None;
    let mut next = false;
    for t in input {
        if let TokenTree::Ident(i) = &t {
            let s = i.to_string();
            if next {
                name = Some(s);
                break;
            }
            next = s == "struct" || s == "enum";
        }
    }
    format!(
        "impl Default for {} {{ fn default() -> Self {{ unimplemented!() }} }}",
        name.expect("type name")
    )
    .parse()
    .unwrap()
}

//! FromStr by the names of the variants.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(EnumString, attributes(strum))]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut next = false;
    let mut arms = String::new();
    for t in input {
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if next {
                    name = s;
                    next = false;
                } else {
                    next = s == "enum";
                }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                for t in g.stream() {
                    if let TokenTree::Ident(i) = t {
                        arms += &format!("\"{0}\" => Ok({1}::{0}),", i, name);
                    }
                }
            }
            _ => {}
        }
    }
    format!(
        "impl std::str::FromStr for {} {{ type Err = strum::ParseError; fn from_str(s: &str) -> Result<Self, strum::ParseError> {{ match s {{ {} _ => Err(strum::ParseError::VariantNotFound) }} }} }}",
        name, arms
    )
    .parse()
    .unwrap()
}

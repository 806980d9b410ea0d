//! Stand-in for the documentation-only proc macro crate of the same name: the
//! library uses it in `#[doc = ...]` attributes only, never in code.
extern crate proc_macro;
use proc_macro::TokenStream;

#[proc_macro]
pub fn transform(_input: TokenStream) -> TokenStream {
    "\"\"".parse().unwrap()
}

#[proc_macro_attribute]
pub fn transform_mdstr(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}

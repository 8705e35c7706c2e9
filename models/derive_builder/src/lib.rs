//! Model: the builder is not generated (nothing in the repository calls it).
use proc_macro::TokenStream;
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(_i: TokenStream) -> TokenStream {
    TokenStream::new()
}

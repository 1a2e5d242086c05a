//! A derive that emits nothing: generated programs are compiled with it to tell a fault of the generator
//! from a type the code under test refuses.
use proc_macro::TokenStream;

#[proc_macro_derive(SerializeHeader)]
pub fn nothing(_: TokenStream) -> TokenStream {
    TokenStream::new()
}

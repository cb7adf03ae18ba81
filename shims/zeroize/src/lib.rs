//! Stand-in for the derive macro of `zeroize`, which is not available here.
use proc_macro::TokenStream;
#[proc_macro_derive(ZeroizeOnDrop)]
pub fn on_drop(_: TokenStream) -> TokenStream {
    TokenStream::new()
}

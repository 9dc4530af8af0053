//! Stand-in for the attribute of the same name: leaves the item as it is
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

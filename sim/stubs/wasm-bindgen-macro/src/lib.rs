//! #[wasm_bindgen] leaves the item as it is.
#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream {
    item
}

//! Leaves items as they are. Like the real one, makes enums `Clone` and `Copy`.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn napi(_: TokenStream, item: TokenStream) -> TokenStream {
    let is_enum = item.clone().into_iter().any(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "enum"));
    if !is_enum {
        return item;
    }
    let mut out: TokenStream = "#[derive(Clone, Copy)]".parse().unwrap();
    out.extend(item);
    out
}

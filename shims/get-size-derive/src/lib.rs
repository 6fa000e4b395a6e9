use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(GetSize)]
pub fn get_size(input: TokenStream) -> TokenStream {
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            if matches!(i.to_string().as_str(), "enum" | "struct") {
                let name = it.next().unwrap().to_string();
                return format!("impl ::get_size::GetSize for {name} {{}}").parse().unwrap();
            }
        }
    }
    TokenStream::new()
}

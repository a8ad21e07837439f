//! Stands in for the num_enum crate (not available offline): derives TryFrom<u32> for a fieldless enum.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(TryFromPrimitive)]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut variants = Vec::new();
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => name = it.next().unwrap().to_string(),
            TokenTree::Group(g) if !name.is_empty() && g.delimiter() == Delimiter::Brace => {
                let mut expect = true;
                let mut body = g.stream().into_iter();
                while let Some(t) = body.next() {
                    match t {
                        TokenTree::Punct(p) if p.as_char() == '#' => {
                            body.next();
                        }
                        TokenTree::Punct(p) if p.as_char() == ',' => expect = true,
                        TokenTree::Ident(i) if expect => {
                            variants.push(i.to_string());
                            expect = false;
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let mut s = format!("impl std::convert::TryFrom<u32> for {name} {{ type Error = u32; fn try_from(n: u32) -> std::result::Result<Self, u32> {{\n");
    for v in variants {
        s.push_str(&format!("if n == {name}::{v} as u32 {{ return std::result::Result::Ok({name}::{v}); }}\n"));
    }
    s.push_str("std::result::Result::Err(n) } }");
    s.parse().unwrap()
}

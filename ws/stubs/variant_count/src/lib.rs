//! Stand-in for variant_count: an inherent VARIANT_COUNT constant.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(VariantCount)]
pub fn derive(input: TokenStream) -> TokenStream {
	let toks: Vec<TokenTree> = input.into_iter().collect();
	let i = toks.iter().position(|t| t.to_string() == "enum").expect("an enum");
	let name = toks[i + 1].to_string();
	let body = toks
		.iter()
		.find_map(|t| match t {
			TokenTree::Group(g) if g.delimiter() == proc_macro::Delimiter::Brace => Some(g.stream()),
			_ => None,
		})
		.expect("a body");
	let (mut n, mut pending) = (0usize, false);
	for t in body {
		match t {
			TokenTree::Punct(p) if p.as_char() == ',' => pending = false,
			TokenTree::Ident(_) if !pending => {
				n += 1;
				pending = true;
			},
			_ => {},
		}
	}
	format!("impl {name} {{ pub const VARIANT_COUNT: usize = {n}; }}").parse().unwrap()
}

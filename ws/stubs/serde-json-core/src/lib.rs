//! Stand-in for serde-json-core: the whole text is one value; also reports how much was read.
pub mod de {
	pub type Error = serde_json::Error;
	pub type Result<T> = std::result::Result<T, Error>;
	pub fn from_str<'a, T: serde::Deserialize<'a>>(s: &'a str) -> Result<(T, usize)> {
		serde_json::from_str(s).map(|x| (x, s.len()))
	}
	pub fn from_slice<'a, T: serde::Deserialize<'a>>(s: &'a [u8]) -> Result<(T, usize)> {
		serde_json::from_slice(s).map(|x| (x, s.len()))
	}
}
pub use de::{from_slice, from_str};

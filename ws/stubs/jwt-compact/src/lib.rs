//! Stand-in for the jwt-compact fork polimec-node uses (a git dependency this sandbox cannot fetch). A token is
//! valid under a verifying key when it carries that key; everything else of the interface is kept.
use chrono::{DateTime, Utc};
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
use serde::de::DeserializeOwned;

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct UntrustedToken {
	pub key: [u8; 32],
	pub expiration: Option<i64>,
	pub custom: Vec<u8>,
}

#[derive(Debug)]
pub enum ValidationError {
	InvalidSignature,
	MalformedClaims,
}

pub struct Claims<T> {
	pub expiration: Option<DateTime<Utc>>,
	pub custom: T,
}
pub struct Token<T> {
	claims: Claims<T>,
}
impl<T> Token<T> {
	pub fn claims(&self) -> &Claims<T> {
		&self.claims
	}
}

pub trait Algorithm {
	type VerifyingKey;
}

pub mod alg {
	#[derive(Debug, Clone, Copy)]
	pub struct Ed25519;
	pub trait VerifyingKey<T>: Sized {
		fn from_slice(raw: &[u8]) -> Result<Self, &'static str>;
	}
	pub struct Key(pub [u8; 32]);
	impl VerifyingKey<Ed25519> for Key {
		fn from_slice(raw: &[u8]) -> Result<Self, &'static str> {
			raw.try_into().map(Key).map_err(|_| "bad key")
		}
	}
	impl super::Algorithm for Ed25519 {
		type VerifyingKey = Key;
	}
}

pub struct Validator<'a, T> {
	key: &'a alg::Key,
	_t: std::marker::PhantomData<T>,
}
impl alg::Ed25519 {
	pub fn validator<'a, T>(&self, key: &'a alg::Key) -> Validator<'a, T> {
		Validator { key, _t: Default::default() }
	}
}
impl<T: DeserializeOwned> Validator<'_, T> {
	pub fn validate(&self, token: &UntrustedToken) -> Result<Token<T>, ValidationError> {
		if token.key != self.key.0 {
			return Err(ValidationError::InvalidSignature);
		}
		let custom = serde_json::from_slice(&token.custom).map_err(|_| ValidationError::MalformedClaims)?;
		let expiration = token.expiration.and_then(DateTime::<Utc>::from_timestamp_millis);
		Ok(Token { claims: Claims { expiration, custom } })
	}
}

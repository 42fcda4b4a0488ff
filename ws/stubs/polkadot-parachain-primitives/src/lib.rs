//! Stand-in for polkadot-parachain-primitives: parachain ids and the sibling sovereign account type.
pub mod primitives {
	use frame_support::pallet_prelude::*;
	use parity_scale_codec::CompactAs;
	use serde::{Deserialize, Serialize};

	#[derive(
		Clone, CompactAs, Copy, Decode, Default, Encode, Eq, Hash, MaxEncodedLen, Ord, PartialEq, PartialOrd, RuntimeDebug, TypeInfo,
		Serialize, Deserialize,
	)]
	pub struct Id(u32);
	impl Id {
		pub const fn new(id: u32) -> Self {
			Id(id)
		}
	}
	impl From<u32> for Id {
		fn from(x: u32) -> Self {
			Id(x)
		}
	}
	impl From<Id> for u32 {
		fn from(x: Id) -> Self {
			x.0
		}
	}
	#[derive(Clone, Copy, Decode, Default, Encode, Eq, PartialEq, PartialOrd, Ord, RuntimeDebug)]
	pub struct Sibling(pub Id);
	impl From<Id> for Sibling {
		fn from(i: Id) -> Self {
			Sibling(i)
		}
	}
	impl frame_support::sp_runtime::TypeId for Sibling {
		const TYPE_ID: [u8; 4] = *b"sibl";
	}
}

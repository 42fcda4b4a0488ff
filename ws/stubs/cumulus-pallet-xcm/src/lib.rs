//! Stand-in for cumulus-pallet-xcm: the sibling-parachain origin.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use polkadot_parachain_primitives::primitives::Id as ParaId;
	use sp_runtime::traits::BadOrigin;

	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::origin]
	#[derive(PartialEq, Eq, Clone, Encode, Decode, TypeInfo, RuntimeDebug, MaxEncodedLen)]
	pub enum Origin {
		Relay,
		SiblingParachain(ParaId),
	}
	pub fn ensure_sibling_para<OuterOrigin>(o: OuterOrigin) -> Result<ParaId, BadOrigin>
	where
		OuterOrigin: Into<Result<Origin, OuterOrigin>>,
	{
		match o.into() {
			Ok(Origin::SiblingParachain(id)) => Ok(id),
			_ => Err(BadOrigin),
		}
	}
}

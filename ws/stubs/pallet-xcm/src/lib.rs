//! Stand-in for pallet-xcm: query ids, the response origin and sending. The driver answers queries itself, with the
//! responder's location, as the real pallet's `on_response` does for a query that is open and addressed to that responder.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::{pallet_prelude::*, traits::OriginTrait};
	use frame_system::pallet_prelude::*;
	use xcm::v4::{Junctions, Location, QueryId, SendError, SendXcm, Xcm, XcmHash};

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeOrigin: From<Origin> + From<<Self as frame_system::Config>::RuntimeOrigin> + OriginTrait;
		type RuntimeCall: Parameter;
		type XcmRouter: SendXcm;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::origin]
	#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum Origin {
		Xcm(Location),
		Response(Location),
	}

	#[pallet::storage]
	pub type QueryCounter<T: Config> = StorageValue<_, QueryId, ValueQuery>;
	/// Open queries: who may answer, and until which block.
	#[pallet::storage]
	pub type Queries<T: Config> = StorageMap<_, Blake2_128Concat, QueryId, (Location, BlockNumberFor<T>)>;

	impl<T: Config> Pallet<T> {
		pub fn new_notify_query(
			responder: impl Into<Location>,
			_notify: impl Into<<T as Config>::RuntimeCall>,
			timeout: BlockNumberFor<T>,
			_match_querier: impl Into<Location>,
		) -> QueryId {
			let id = QueryCounter::<T>::get();
			QueryCounter::<T>::put(id + 1);
			Queries::<T>::insert(id, (responder.into(), timeout));
			id
		}

		pub fn send_xcm(_interior: impl Into<Junctions>, dest: impl Into<Location>, message: Xcm<()>) -> Result<XcmHash, SendError> {
			let (ticket, _) = T::XcmRouter::validate(&mut Some(dest.into()), &mut Some(message))?;
			T::XcmRouter::deliver(ticket)
		}
	}

	pub fn ensure_response<OuterOrigin>(o: OuterOrigin) -> Result<Location, DispatchError>
	where
		OuterOrigin: Into<Result<Origin, OuterOrigin>>,
	{
		match o.into() {
			Ok(Origin::Response(location)) => Ok(location),
			_ => Err(DispatchError::BadOrigin),
		}
	}
}

//! Stand-in for pallet-timestamp: the current moment and the call that sets it.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::{AtLeast32Bit, Scale};

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter
			+ Default
			+ AtLeast32Bit
			+ Scale<BlockNumberFor<Self>, Output = Self::Moment>
			+ Copy
			+ MaxEncodedLen
			+ scale_info::StaticTypeInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn set(origin: OriginFor<T>, now: T::Moment) -> DispatchResult {
			ensure_none(origin)?;
			Now::<T>::put(now);
			Ok(())
		}
	}
}

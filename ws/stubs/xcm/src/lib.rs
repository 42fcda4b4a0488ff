//! Stand-in for staging-xcm: the v4 types polimec-node names, without the version conversions.
pub mod v4 {
	use frame_support::{weights::Weight, BoundedVec};
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;

	pub type QueryId = u64;
	pub type XcmHash = [u8; 32];
	pub type PalletIndex = u8;
	pub type MaxPalletNameLen = frame_support::traits::ConstU32<48>;
	pub type MaxPalletsInfo = frame_support::traits::ConstU32<64>;
	pub type InteriorLocation = Junctions;

	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub enum NetworkId {
		ByGenesis([u8; 32]),
		Polkadot,
		Kusama,
		Westend,
		Rococo,
	}

	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Junction {
		Parachain(#[codec(compact)] u32),
		AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
		AccountIndex64 { network: Option<NetworkId>, #[codec(compact)] index: u64 },
		PalletInstance(u8),
		GeneralIndex(#[codec(compact)] u128),
		GlobalConsensus(NetworkId),
	}

	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Junctions {
		Here,
		X1([Junction; 1]),
		X2([Junction; 2]),
		X3([Junction; 3]),
	}
	impl Junctions {
		pub fn as_slice(&self) -> &[Junction] {
			match self {
				Junctions::Here => &[],
				Junctions::X1(a) => a,
				Junctions::X2(a) => a,
				Junctions::X3(a) => a,
			}
		}
	}
	impl From<Junction> for Junctions {
		fn from(j: Junction) -> Self {
			Junctions::X1([j])
		}
	}
	impl From<[Junction; 1]> for Junctions {
		fn from(j: [Junction; 1]) -> Self {
			Junctions::X1(j)
		}
	}
	impl From<[Junction; 2]> for Junctions {
		fn from(j: [Junction; 2]) -> Self {
			Junctions::X2(j)
		}
	}
	impl From<[Junction; 3]> for Junctions {
		fn from(j: [Junction; 3]) -> Self {
			Junctions::X3(j)
		}
	}

	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub struct Location {
		pub parents: u8,
		pub interior: Junctions,
	}
	impl Location {
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
			Location { parents, interior: interior.into() }
		}
		pub const fn here() -> Self {
			Location { parents: 0, interior: Junctions::Here }
		}
		pub const fn parent() -> Self {
			Location { parents: 1, interior: Junctions::Here }
		}
		pub fn unpack(&self) -> (u8, &[Junction]) {
			(self.parents, self.interior.as_slice())
		}
		pub fn interior(&self) -> &Junctions {
			&self.interior
		}
	}
	impl From<Junctions> for Location {
		fn from(interior: Junctions) -> Self {
			Location { parents: 0, interior }
		}
	}
	impl From<Junction> for Location {
		fn from(j: Junction) -> Self {
			Location { parents: 0, interior: j.into() }
		}
	}
	pub struct Parent;
	impl From<Parent> for Location {
		fn from(_: Parent) -> Self {
			Location::parent()
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct ParentThen(pub Junctions);
	impl From<ParentThen> for Location {
		fn from(p: ParentThen) -> Self {
			Location { parents: 1, interior: p.0 }
		}
	}
	impl TryFrom<Location> for Junctions {
		type Error = Location;
		fn try_from(l: Location) -> Result<Self, Location> {
			if l.parents > 0 { Err(l) } else { Ok(l.interior) }
		}
	}

	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo)]
	pub struct AssetId(pub Location);
	impl From<Location> for AssetId {
		fn from(l: Location) -> Self {
			AssetId(l)
		}
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo)]
	pub enum Fungibility {
		Fungible(#[codec(compact)] u128),
		NonFungible(u32),
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo)]
	pub struct Asset {
		pub id: AssetId,
		pub fun: Fungibility,
	}
	impl<A: Into<AssetId>> From<(A, u128)> for Asset {
		fn from((id, amount): (A, u128)) -> Self {
			Asset { id: id.into(), fun: Fungibility::Fungible(amount) }
		}
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, Default)]
	pub struct Assets(pub(crate) Vec<Asset>);
	impl Assets {
		pub fn into_inner(self) -> Vec<Asset> {
			self.0
		}
		pub fn inner(&self) -> &Vec<Asset> {
			&self.0
		}
	}
	impl From<Vec<Asset>> for Assets {
		fn from(v: Vec<Asset>) -> Self {
			Assets(v)
		}
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo)]
	pub enum WildAsset {
		All,
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo)]
	pub enum AssetFilter {
		Definite(Assets),
		Wild(WildAsset),
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum WeightLimit {
		Unlimited,
		Limited(Weight),
	}
	#[derive(Copy, Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum OriginKind {
		Native,
		SovereignAccount,
		Superuser,
		Xcm,
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub struct QueryResponseInfo {
		pub destination: Location,
		#[codec(compact)]
		pub query_id: QueryId,
		pub max_weight: Weight,
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub struct DoubleEncoded<Call> {
		pub encoded: Vec<u8>,
		#[codec(skip)]
		decoded: std::marker::PhantomData<Call>,
	}
	impl<Call> From<Vec<u8>> for DoubleEncoded<Call> {
		fn from(encoded: Vec<u8>) -> Self {
			DoubleEncoded { encoded, decoded: Default::default() }
		}
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub struct PalletInfo {
		#[codec(compact)]
		pub index: u32,
		pub name: BoundedVec<u8, MaxPalletNameLen>,
		pub module_name: BoundedVec<u8, MaxPalletNameLen>,
		#[codec(compact)]
		pub major: u32,
		#[codec(compact)]
		pub minor: u32,
		#[codec(compact)]
		pub patch: u32,
	}
	impl PalletInfo {
		pub fn new(index: u32, name: Vec<u8>, module_name: Vec<u8>, major: u32, minor: u32, patch: u32) -> Result<Self, Error> {
			let name = BoundedVec::try_from(name).map_err(|_| Error::Overflow)?;
			let module_name = BoundedVec::try_from(module_name).map_err(|_| Error::Overflow)?;
			Ok(PalletInfo { index, name, module_name, major, minor, patch })
		}
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum MaybeErrorCode {
		Success,
		Error(BoundedVec<u8, frame_support::traits::ConstU32<128>>),
		TruncatedError(BoundedVec<u8, frame_support::traits::ConstU32<128>>),
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo, Default)]
	pub enum Response {
		#[default]
		Null,
		Assets(Assets),
		ExecutionResult(Option<(u32, Error)>),
		Version(u32),
		PalletsInfo(BoundedVec<PalletInfo, MaxPalletsInfo>),
		DispatchResult(MaybeErrorCode),
	}
	#[derive(Copy, Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum Error {
		Overflow,
		Unimplemented,
		BadOrigin,
		ExceedsMaxMessageSize,
		Transport(#[codec(skip)] &'static str),
		Unroutable,
	}
	impl From<SendError> for Error {
		fn from(_: SendError) -> Self {
			Error::Unroutable
		}
	}
	pub type XcmResult = Result<(), Error>;
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum Instruction<Call> {
		UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
		WithdrawAsset(Assets),
		BuyExecution { fees: Asset, weight_limit: WeightLimit },
		Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded<Call> },
		RefundSurplus,
		DepositAsset { assets: AssetFilter, beneficiary: Location },
		ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter },
		QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
		ReportTransactStatus(QueryResponseInfo),
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
	pub mod opaque {
		pub type Xcm = super::Xcm<()>;
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug)]
	pub enum SendError {
		NotApplicable,
		Transport(#[codec(skip)] &'static str),
		Unroutable,
		DestinationUnsupported,
		ExceedsMaxMessageSize,
		MissingArgument,
		Fees,
	}
	pub type SendResult<T> = Result<(T, Assets), SendError>;
	pub trait SendXcm {
		type Ticket;
		fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
		fn deliver(ticket: Self::Ticket) -> Result<XcmHash, SendError>;
	}
	pub mod prelude {
		pub use super::{
			Asset, AssetFilter::{self, *}, AssetId, Assets, Error as XcmError, Fungibility::{self, *}, Instruction::*,
			InteriorLocation, Junction::{self, *}, Junctions::{self, Here}, Location, MaybeErrorCode, NetworkId::{self, *},
			OriginKind, PalletInfo, Parent, ParentThen, QueryId, QueryResponseInfo, Response, SendError, SendResult, SendXcm,
			WeightLimit::{self, *}, WildAsset::{self, *}, Xcm, XcmHash, XcmResult,
		};
	}
}
pub mod prelude {
	pub use super::v4::prelude::*;
}

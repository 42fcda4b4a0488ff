//! Stand-in for pallet-session: the traits the staking pallet implements.
use frame_support::weights::Weight;
use sp_runtime::Permill;
pub trait Config: frame_system::Config {}
pub type SessionIndex = u32;
pub trait SessionManager<ValidatorId> {
	fn new_session(new_index: SessionIndex) -> Option<Vec<ValidatorId>>;
	fn new_session_genesis(new_index: SessionIndex) -> Option<Vec<ValidatorId>> {
		Self::new_session(new_index)
	}
	fn end_session(end_index: SessionIndex);
	fn start_session(start_index: SessionIndex);
}
pub trait ShouldEndSession<BlockNumber> {
	fn should_end_session(now: BlockNumber) -> bool;
}
pub trait EstimateNextSessionRotation<BlockNumber> {
	fn average_session_length() -> BlockNumber;
	fn estimate_current_session_progress(now: BlockNumber) -> (Option<Permill>, Weight);
	fn estimate_next_session_rotation(now: BlockNumber) -> (Option<BlockNumber>, Weight);
}

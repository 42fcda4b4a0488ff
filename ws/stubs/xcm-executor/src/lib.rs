//! Stand-in for staging-xcm-executor: the two handler traits pallet-funding implements.
pub mod traits {
	use xcm::v4::XcmResult;
	pub trait HandleHrmpNewChannelOpenRequest {
		fn handle(sender: u32, max_message_size: u32, max_capacity: u32) -> XcmResult;
	}
	pub trait HandleHrmpChannelAccepted {
		fn handle(recipient: u32) -> XcmResult;
	}
}

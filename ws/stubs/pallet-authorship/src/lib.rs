//! Stand-in for pallet-authorship: the trait the staking pallet implements.
pub trait Config: frame_system::Config {}
pub trait EventHandler<Author, BlockNumber> {
	fn note_author(author: Author);
}

//! Stand-in for parachains-common: the number of (12 s) blocks in a day.
pub const DAYS: u32 = 24 * 60 * 60 / 12;

//! Stand-in for a crate this sandbox cannot fetch: nothing of it is used.

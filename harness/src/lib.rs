//! What every recorder shares: JSON, randomness, the counting allocator,
//! block types, user-defined stores, operation records, the command line.
pub mod alloc;
pub mod blk;
pub mod json;
pub mod op;
pub mod rng;
pub mod run;
pub mod ublk;
pub mod users;

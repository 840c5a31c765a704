//! Stand-in for the `num` facade crate (unit tests only).
pub use num_bigint as bigint;
pub use num_bigint::{BigInt, BigUint};
pub use num_integer as integer;
pub use num_traits as traits;
pub use num_traits::*;

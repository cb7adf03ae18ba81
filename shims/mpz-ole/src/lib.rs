//! Stand-in, see `shims/mpz`.
pub use mpz_ideal::convert::ole::*;

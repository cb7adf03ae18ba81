//! Stand-in for `aes`.
pub use mpz_ideal::circuits::aes::{encrypt, schedule};
pub struct Aes128;

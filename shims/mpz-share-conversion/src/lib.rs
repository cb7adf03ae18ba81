//! Stand-in, see `shims/mpz`.
pub use mpz_ideal::convert::{ideal, AdditiveToMultiplicative, MultiplicativeToAdditive, ShareConvert, ShareConversionReceiver, ShareConversionSender};

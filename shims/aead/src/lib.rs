//! The part of `aead` 0.4 that is used.
pub use generic_array;
#[derive(Debug, Clone, Copy)]
pub struct Error;
pub struct Payload<'m, 'a> {
    pub msg: &'m [u8],
    pub aad: &'a [u8],
}
impl<'m> From<&'m [u8]> for Payload<'m, 'static> {
    fn from(msg: &'m [u8]) -> Self {
        Self { msg, aad: b"" }
    }
}
pub trait NewAead {
    fn new(key: &generic_array::GenericArray<u8, generic_array::typenum::U16>) -> Self;
    fn new_from_slice(key: &[u8]) -> Result<Self, Error> where Self: Sized {
        let k: [u8; 16] = key.try_into().map_err(|_| Error)?;
        Ok(Self::new(&k.into()))
    }
}
pub trait Aead {
    fn encrypt<'m, 'a>(&self, nonce: &generic_array::GenericArray<u8, generic_array::typenum::U12>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error>;
    fn decrypt<'m, 'a>(&self, nonce: &generic_array::GenericArray<u8, generic_array::typenum::U12>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error>;
}
type Ga<N> = generic_array::GenericArray<u8, N>;
pub trait AeadMutInPlace {
    fn encrypt_in_place_detached(&mut self, nonce: &Ga<generic_array::typenum::U12>, aad: &[u8], buf: &mut [u8]) -> Result<Ga<generic_array::typenum::U16>, Error>;
    fn decrypt_in_place_detached(&mut self, nonce: &Ga<generic_array::typenum::U12>, aad: &[u8], buf: &mut [u8], tag: &Ga<generic_array::typenum::U16>) -> Result<(), Error>;
}

//! AES-128-GCM of ring with the interface of `aes-gcm` 0.9.
pub use aead::{self, Aead, Error, NewAead};
use aead::Payload;
use generic_array::{GenericArray, typenum::{U12, U16}};
use ring::aead::{AES_128_GCM, Aad, LessSafeKey, Nonce, UnboundKey};
pub struct Aes128Gcm(LessSafeKey);
impl NewAead for Aes128Gcm {
    fn new(key: &GenericArray<u8, U16>) -> Self {
        Self(LessSafeKey::new(UnboundKey::new(&AES_128_GCM, key).unwrap()))
    }
}
impl Aead for Aes128Gcm {
    fn encrypt<'m, 'a>(&self, nonce: &GenericArray<u8, U12>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error> {
        let p = p.into();
        let mut b = p.msg.to_vec();
        self.0.seal_in_place_append_tag(Nonce::assume_unique_for_key((*nonce).into()), Aad::from(p.aad), &mut b).map_err(|_| Error)?;
        Ok(b)
    }
    fn decrypt<'m, 'a>(&self, nonce: &GenericArray<u8, U12>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error> {
        let p = p.into();
        let mut b = p.msg.to_vec();
        let n = self.0.open_in_place(Nonce::assume_unique_for_key((*nonce).into()), Aad::from(p.aad), &mut b).map_err(|_| Error)?.len();
        b.truncate(n);
        Ok(b)
    }
}
impl aead::AeadMutInPlace for Aes128Gcm {
    fn encrypt_in_place_detached(&mut self, nonce: &GenericArray<u8, U12>, aad: &[u8], buf: &mut [u8]) -> Result<GenericArray<u8, U16>, Error> {
        let t = self.0.seal_in_place_separate_tag(Nonce::assume_unique_for_key((*nonce).into()), Aad::from(aad), buf).map_err(|_| Error)?;
        Ok(*GenericArray::from_slice(t.as_ref()))
    }
    fn decrypt_in_place_detached(&mut self, nonce: &GenericArray<u8, U12>, aad: &[u8], buf: &mut [u8], tag: &GenericArray<u8, U16>) -> Result<(), Error> {
        let mut b = [&*buf, tag.as_slice()].concat();
        let p = self.0.open_in_place(Nonce::assume_unique_for_key((*nonce).into()), Aad::from(aad), &mut b).map_err(|_| Error)?;
        buf.copy_from_slice(p);
        Ok(())
    }
}

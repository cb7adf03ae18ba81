//! Stand-in for `ctr`: AES-128 in counter mode with a 32-bit big-endian counter.
pub struct Ctr32BE<C> {
    ks: Vec<u8>,
    iv: [u8; 16],
    pos: u64,
    cipher: std::marker::PhantomData<C>,
}
pub mod cipher {
    #[derive(Debug)]
    pub struct StreamCipherError;
    pub trait KeyIvInit {
        fn new(key: &[u8; 16], iv: &[u8; 16]) -> Self;
    }
    pub trait StreamCipher {
        fn apply_keystream(&mut self, buf: &mut [u8]);
    }
    pub trait StreamCipherSeek {
        fn try_seek(&mut self, pos: u32) -> Result<(), StreamCipherError>;
    }
}
impl cipher::KeyIvInit for Ctr32BE<aes::Aes128> {
    fn new(key: &[u8; 16], iv: &[u8; 16]) -> Self {
        Ctr32BE { ks: aes::schedule(key), iv: *iv, pos: 0, cipher: Default::default() }
    }
}
impl cipher::StreamCipherSeek for Ctr32BE<aes::Aes128> {
    fn try_seek(&mut self, pos: u32) -> Result<(), cipher::StreamCipherError> {
        self.pos = pos as u64;
        Ok(())
    }
}
impl cipher::StreamCipher for Ctr32BE<aes::Aes128> {
    fn apply_keystream(&mut self, buf: &mut [u8]) {
        let mut cache = (u64::MAX, vec![]);
        for b in buf {
            let n = self.pos / 16;
            if cache.0 != n {
                let mut iv = self.iv;
                let c = u32::from_be_bytes(iv[12..].try_into().unwrap()).wrapping_add(n as u32);
                iv[12..].copy_from_slice(&c.to_be_bytes());
                cache = (n, aes::encrypt(&self.ks, &iv));
            }
            *b ^= cache.1[(self.pos % 16) as usize];
            self.pos += 1;
        }
    }
}

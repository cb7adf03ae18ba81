//! Stand-in for `ghash`.
pub struct GHash {
    h: u128,
    y: u128,
}
pub mod universal_hash {
    pub trait KeyInit {
        fn new(key: &[u8; 16]) -> Self;
    }
    pub trait UniversalHash {
        fn update_padded(&mut self, data: &[u8]);
        fn finalize(self) -> [u8; 16];
    }
}
impl universal_hash::KeyInit for GHash {
    fn new(key: &[u8; 16]) -> Self {
        GHash { h: u128::from_be_bytes(*key), y: 0 }
    }
}
impl universal_hash::UniversalHash for GHash {
    fn update_padded(&mut self, data: &[u8]) {
        for c in data.chunks(16) {
            let mut b = [0; 16];
            b[..c.len()].copy_from_slice(c);
            let x = self.y ^ u128::from_be_bytes(b);
            let (mut z, mut v) = (0, self.h);
            for i in 0..128 {
                if x >> (127 - i) & 1 == 1 {
                    z ^= v;
                }
                v = if v & 1 == 1 { v >> 1 ^ 0xe1 << 120 } else { v >> 1 };
            }
            self.y = z;
        }
    }
    fn finalize(self) -> [u8; 16] {
        self.y.to_be_bytes()
    }
}

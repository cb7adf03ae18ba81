//! mpz-core
use rand::{Rng, RngCore};
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Block(pub [u8; 16]);
impl Block {
    pub const ZERO: Block = Block([0; 16]);
    pub const LEN: usize = 16;
    pub fn random<R: RngCore + ?Sized>(rng: &mut R) -> Self {
        Block(rng.random())
    }
    pub fn to_bytes(self) -> [u8; 16] {
        self.0
    }
    pub fn reverse_bits(self) -> Self {
        Block(self.0.map(u8::reverse_bits))
    }
}
impl From<[u8; 16]> for Block {
    fn from(b: [u8; 16]) -> Self {
        Block(b)
    }
}
pub mod bitvec {
    /// Bits, least significant bit of every byte first.
    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct BitVec(pub Vec<bool>);
}

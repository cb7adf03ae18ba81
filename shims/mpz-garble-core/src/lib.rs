//! Stand-in, see `shims/mpz`.
use mpz_ideal::core::Block;
#[derive(Debug, Clone, Copy)]
pub struct Delta(Block);
impl Delta {
    pub fn new(b: Block) -> Self {
        Delta(b)
    }
    pub fn random<R: rand::RngCore + ?Sized>(r: &mut R) -> Self {
        Delta(Block::random(r))
    }
    pub fn into_inner(self) -> Block {
        self.0
    }
}

//! Keccak-256 with the interface of `tiny-keccak`.
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
    0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
    0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
fn f(a: &mut [[u64; 5]; 5]) {
    for rc in RC {
        let c: [u64; 5] = std::array::from_fn(|x| a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]);
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        // rho and pi
        let mut b = [[0u64; 5]; 5];
        let (mut x, mut y) = (1, 0);
        b[0][0] = a[0][0];
        for t in 0..24u32 {
            let r = ((t + 1) * (t + 2) / 2) % 64;
            b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(r);
            (x, y) = (y, (2 * x + 3 * y) % 5);
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        a[0][0] ^= rc;
    }
}
pub trait Hasher {
    fn update(&mut self, d: &[u8]);
    fn finalize(self, out: &mut [u8]);
}
#[derive(Clone, Default)]
pub struct Keccak(Vec<u8>);
impl Keccak {
    pub fn v256() -> Self {
        Self::default()
    }
}
impl Hasher for Keccak {
    fn update(&mut self, d: &[u8]) {
        self.0.extend_from_slice(d);
    }
    fn finalize(mut self, out: &mut [u8]) {
        const R: usize = 136;
        self.0.push(1);
        while self.0.len() % R != 0 {
            self.0.push(0);
        }
        *self.0.last_mut().unwrap() |= 0x80;
        let mut a = [[0u64; 5]; 5];
        for blk in self.0.chunks(R) {
            for i in 0..R / 8 {
                a[i % 5][i / 5] ^= u64::from_le_bytes(blk[8 * i..8 * i + 8].try_into().unwrap());
            }
            f(&mut a);
        }
        for (i, o) in out.iter_mut().enumerate() {
            let w = i / 8;
            *o = a[w % 5][w / 5].to_le_bytes()[i % 8];
        }
    }
}
#[test]
fn vector() {
    let mut o = [0; 32];
    Keccak::v256().finalize(&mut o);
    assert_eq!(o[..4], [0xc5, 0xd2, 0x46, 0x01]);
    let mut k = Keccak::v256();
    k.update(b"abc");
    k.finalize(&mut o);
    assert_eq!(o[..4], [0x4e, 0x03, 0x65, 0x7a]);
}

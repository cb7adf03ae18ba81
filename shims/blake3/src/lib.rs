//! BLAKE3 (hash mode only), written from the specification.
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
const START: u32 = 1;
const END: u32 = 2;
const PARENT: u32 = 4;
const ROOT: u32 = 8;

fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(x);
    s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(y);
    s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(7);
}

fn compress(cv: &[u32; 8], block: &[u8], counter: u64, flags: u32) -> [u32; 8] {
    let mut m = [0u32; 16];
    let mut b = [0u8; 64];
    b[..block.len()].copy_from_slice(block);
    for i in 0..16 {
        m[i] = u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut s = [0u32; 16];
    s[..8].copy_from_slice(cv);
    s[8..12].copy_from_slice(&IV[..4]);
    s[12] = counter as u32;
    s[13] = (counter >> 32) as u32;
    s[14] = block.len() as u32;
    s[15] = flags;
    for r in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]);
        g(&mut s, 1, 5, 9, 13, m[2], m[3]);
        g(&mut s, 2, 6, 10, 14, m[4], m[5]);
        g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]);
        g(&mut s, 1, 6, 11, 12, m[10], m[11]);
        g(&mut s, 2, 7, 8, 13, m[12], m[13]);
        g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if r < 6 {
            let o = m;
            for i in 0..16 {
                m[i] = o[PERM[i]];
            }
        }
    }
    std::array::from_fn(|i| s[i] ^ s[i + 8])
}

fn node(data: &[u8], counter: u64, root: bool) -> [u32; 8] {
    let r = if root { ROOT } else { 0 };
    if data.len() <= 1024 {
        let mut cv = IV;
        let n = data.len().div_ceil(64).max(1);
        for i in 0..n {
            let b = &data[64 * i..(64 * i + 64).min(data.len())];
            let last = i + 1 == n;
            let f = if i == 0 { START } else { 0 } | if last { END | r } else { 0 };
            cv = compress(&cv, b, counter, f);
        }
        return cv;
    }
    // left subtree: the largest power of two chunks that leaves something to the right
    let chunks = data.len().div_ceil(1024);
    let left = 1 << (usize::BITS - 1 - (chunks - 1).leading_zeros());
    let (a, b) = data.split_at(left * 1024);
    let mut block = [0u8; 64];
    for (i, w) in node(a, counter, false).iter().chain(&node(b, counter + left as u64, false)).enumerate() {
        block[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes());
    }
    compress(&IV, &block, 0, PARENT | r)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hash([u8; 32]);
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> Self {
        h.0
    }
}
pub fn hash(data: &[u8]) -> Hash {
    let mut o = [0; 32];
    for (i, w) in node(data, 0, true).iter().enumerate() {
        o[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes());
    }
    Hash(o)
}
#[derive(Default, Clone)]
pub struct Hasher(Vec<u8>);
impl Hasher {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn update(&mut self, d: &[u8]) -> &mut Self {
        self.0.extend_from_slice(d);
        self
    }
    pub fn finalize(&self) -> Hash {
        hash(&self.0)
    }
}

#[test]
fn vectors() {
    let hex = |h: Hash| h.0.iter().map(|b| format!("{b:02x}")).collect::<String>();
    assert_eq!(hex(hash(b"")), "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262");
    assert_eq!(hex(hash(b"abc")), "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85");
    let v = |n: usize| (0..n).map(|i| (i % 251) as u8).collect::<Vec<_>>();
    assert_eq!(hex(hash(&v(1025))), "d00278ae47eb27b34faecf67b4fe263f82d5412916c1ffd97c8cb7fb814b8444");
}

//! mpz-circuits
use std::sync::{Arc, LazyLock};

#[derive(Debug, Clone, Copy)]
pub struct Feed;
#[derive(Debug, Clone, Copy)]
pub struct Node<T>(u32, std::marker::PhantomData<T>);

enum Gate {
    Input,
    Id(u32),
    Xor(u32, u32),
    And(u32, u32),
    Inv(u32),
    AddMod(Arc<(Vec<u32>, Vec<u32>, Vec<u32>)>, u32),
}
enum Kind {
    Gates(Vec<Gate>, Vec<u32>),
    /// Bytes in, bytes out.
    Fun(Box<dyn Fn(&[u8]) -> Vec<u8> + Send + Sync>),
}
pub struct Circuit {
    ins: usize,
    outs: usize,
    kind: Kind,
}
impl std::fmt::Debug for Circuit {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Circuit({} -> {})", self.ins, self.outs)
    }
}
pub fn bytes(bits: &[bool]) -> Vec<u8> {
    bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u8) << i)).collect()
}
pub fn bits(bytes: &[u8]) -> Vec<bool> {
    bytes.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}
impl Circuit {
    /// A circuit over bytes given by what it computes.
    pub fn of(ins: usize, outs: usize, f: impl Fn(&[u8]) -> Vec<u8> + Send + Sync + 'static) -> Self {
        Circuit { ins: ins * 8, outs: outs * 8, kind: Kind::Fun(Box::new(f)) }
    }
    pub fn inputs(&self) -> usize {
        self.ins
    }
    pub fn outputs(&self) -> usize {
        self.outs
    }
    pub fn eval(&self, x: &[bool]) -> Vec<bool> {
        match &self.kind {
            Kind::Fun(f) => bits(&f(&bytes(x))),
            Kind::Gates(g, out) => {
                let mut v = Vec::with_capacity(g.len());
                let mut x = x.iter();
                for g in g {
                    let b = match g {
                        Gate::Input => *x.next().unwrap(),
                        Gate::Id(a) => v[*a as usize],
                        Gate::Xor(a, b) => v[*a as usize] ^ v[*b as usize],
                        Gate::And(a, b) => v[*a as usize] & v[*b as usize],
                        Gate::Inv(a) => !v[*a as usize],
                        Gate::AddMod(s, 0) => {
                            let n = |w: &[u32]| ec::BigUint::from_bytes_le(&bytes(&w.iter().map(|i| v[*i as usize]).collect::<Vec<_>>()));
                            let r = (n(&s.0) + n(&s.1)) % n(&s.2);
                            let mut r = bits(&r.to_bytes_le());
                            r.resize(s.0.len(), false);
                            v.extend_from_slice(&r);
                            continue;
                        }
                        Gate::AddMod(..) => continue,
                    };
                    v.push(b);
                }
                out.iter().map(|o| v[*o as usize]).collect()
            }
        }
    }
}
#[derive(Debug, thiserror::Error)]
#[error("invalid circuit")]
pub struct BuilderError;
#[derive(Default)]
pub struct CircuitBuilder {
    gates: Vec<Gate>,
    ins: usize,
    outs: Vec<u32>,
}
impl CircuitBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    fn push(&mut self, g: Gate) -> Node<Feed> {
        self.gates.push(g);
        Node(self.gates.len() as u32 - 1, Default::default())
    }
    pub fn add_input(&mut self) -> Node<Feed> {
        self.ins += 1;
        self.push(Gate::Input)
    }
    pub fn add_id_gate(&mut self, a: Node<Feed>) -> Node<Feed> {
        self.push(Gate::Id(a.0))
    }
    pub fn add_xor_gate(&mut self, a: Node<Feed>, b: Node<Feed>) -> Node<Feed> {
        self.push(Gate::Xor(a.0, b.0))
    }
    pub fn add_and_gate(&mut self, a: Node<Feed>, b: Node<Feed>) -> Node<Feed> {
        self.push(Gate::And(a.0, b.0))
    }
    pub fn add_inv_gate(&mut self, a: Node<Feed>) -> Node<Feed> {
        self.push(Gate::Inv(a.0))
    }
    pub fn add_output(&mut self, a: Node<Feed>) {
        self.outs.push(a.0);
    }
    pub fn build(self) -> Result<Circuit, BuilderError> {
        Ok(Circuit { ins: self.ins, outs: self.outs.len(), kind: Kind::Gates(self.gates, self.outs) })
    }
}
pub mod ops {
    use super::*;
    /// (a + b) mod m, least significant bit first; a and b are below m.
    pub fn add_mod(c: &mut CircuitBuilder, a: &[Node<Feed>], b: &[Node<Feed>], m: &[Node<Feed>]) -> Vec<Node<Feed>> {
        let w = |x: &[Node<Feed>]| x.iter().map(|n| n.0).collect::<Vec<_>>();
        let s = Arc::new((w(a), w(b), w(m)));
        (0..a.len()).map(|i| c.push(Gate::AddMod(s.clone(), i as u32))).collect()
    }
}
pub mod circuits {
    use super::*;
    /// Bitwise xor of two inputs of `n` bits.
    pub fn xor(n: usize) -> Circuit {
        assert!(n % 8 == 0);
        Circuit::of(n / 4, n / 8, |x| {
            let (a, b) = x.split_at(x.len() / 2);
            a.iter().zip(b).map(|(a, b)| a ^ b).collect()
        })
    }
}
pub mod aes {
    use std::sync::LazyLock;
    static SBOX: LazyLock<[u8; 256]> = LazyLock::new(|| {
        let mut s = [0u8; 256];
        let (mut p, mut q) = (1u8, 1u8);
        loop {
            p ^= (p << 1) ^ if p & 0x80 != 0 { 0x1b } else { 0 };
            q ^= q << 1;
            q ^= q << 2;
            q ^= q << 4;
            if q & 0x80 != 0 {
                q ^= 0x09;
            }
            s[p as usize] = q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4) ^ 0x63;
            if p == 1 {
                break;
            }
        }
        s[0] = 0x63;
        s
    });
    pub fn schedule(key: &[u8]) -> Vec<u8> {
        let mut w = key.to_vec();
        let mut rc = 1u8;
        while w.len() < 176 {
            let n = w.len();
            let mut t: [u8; 4] = w[n - 4..].try_into().unwrap();
            if n % 16 == 0 {
                t.rotate_left(1);
                t = t.map(|b| SBOX[b as usize]);
                t[0] ^= rc;
                rc = (rc << 1) ^ if rc & 0x80 != 0 { 0x1b } else { 0 };
            }
            for i in 0..4 {
                w.push(w[n - 16 + i] ^ t[i]);
            }
        }
        w
    }
    pub fn encrypt(ks: &[u8], block: &[u8]) -> Vec<u8> {
        let x2 = |b: u8| (b << 1) ^ if b & 0x80 != 0 { 0x1b } else { 0 };
        let mut s: Vec<u8> = block.iter().zip(ks).map(|(a, b)| a ^ b).collect();
        for r in 1..=10 {
            let t: Vec<u8> = (0..16).map(|i| SBOX[s[(i + 4 * (i % 4)) % 16] as usize]).collect();
            s = if r == 10 {
                t
            } else {
                (0..16)
                    .map(|i| {
                        let c = i / 4 * 4;
                        let a = |k: usize| t[c + (i + k) % 4];
                        x2(a(0)) ^ x2(a(1)) ^ a(1) ^ a(2) ^ a(3)
                    })
                    .collect()
            };
            for i in 0..16 {
                s[i] ^= ks[16 * r + i];
            }
        }
        s
    }
}
pub static AES128_KS: LazyLock<Arc<Circuit>> = LazyLock::new(|| Arc::new(Circuit::of(16, 176, aes::schedule)));
pub static AES128_POST_KS: LazyLock<Arc<Circuit>> =
    LazyLock::new(|| Arc::new(Circuit::of(192, 16, |x| aes::encrypt(&x[..176], &x[176..]))));
pub static AES128: LazyLock<Arc<Circuit>> =
    LazyLock::new(|| Arc::new(Circuit::of(32, 16, |x| aes::encrypt(&aes::schedule(&x[..16]), &x[16..]))));

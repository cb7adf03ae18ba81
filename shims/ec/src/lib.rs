//! ECDSA over short Weierstrass curves, for the stand-ins of `k256` and `p256`.
pub use num_bigint::BigUint;
pub use sha2;
use sha2::{Digest, Sha256};

pub struct Curve {
    pub p: BigUint,
    pub n: BigUint,
    pub a: BigUint,
    pub b: BigUint,
    pub g: (BigUint, BigUint),
}
fn h(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub fn k256() -> Curve {
    Curve {
        p: h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
        n: h("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
        a: h("0"),
        b: h("7"),
        g: (h("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), h("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")),
    }
}
pub fn p256() -> Curve {
    Curve {
        p: h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        n: h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        a: h("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
        b: h("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
        g: (h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")),
    }
}
pub type Pt = Option<(BigUint, BigUint)>;
type J = (BigUint, BigUint, BigUint); // Jacobian, z = 0 at infinity

impl Curve {
    fn inv(&self, x: &BigUint, m: &BigUint) -> BigUint {
        x.modpow(&(m - 2u32), m)
    }
    fn dbl(&self, (x, y, z): &J) -> J {
        let p = &self.p;
        let zero = BigUint::from(0u32);
        if *z == zero || *y == zero {
            return (1u32.into(), 1u32.into(), zero);
        }
        let y2 = y * y % p;
        let s = 4u32 * x * &y2 % p;
        let z2 = z * z % p;
        let m = (3u32 * x * x + &self.a * &z2 * &z2) % p;
        let nx = (&m * &m + 2u32 * (p - &s)) % p;
        let ny = (&m * (&s + (p - &nx)) + (p - 8u32 * &y2 * &y2 % p)) % p;
        (nx, ny, 2u32 * y * z % p)
    }
    fn add(&self, a: &J, b: &J) -> J {
        let p = &self.p;
        let zero = BigUint::from(0u32);
        if a.2 == zero {
            return b.clone();
        }
        if b.2 == zero {
            return a.clone();
        }
        let (za, zb) = (&a.2 * &a.2 % p, &b.2 * &b.2 % p);
        let (u1, u2) = (&a.0 * &zb % p, &b.0 * &za % p);
        let (s1, s2) = (&a.1 * &zb * &b.2 % p, &b.1 * &za * &a.2 % p);
        if u1 == u2 {
            return if s1 == s2 { self.dbl(a) } else { (1u32.into(), 1u32.into(), zero) };
        }
        let h = (&u2 + (p - &u1)) % p;
        let r = (&s2 + (p - &s1)) % p;
        let h2 = &h * &h % p;
        let h3 = &h2 * &h % p;
        let v = &u1 * &h2 % p;
        let x = (&r * &r + (p - &h3) + 2u32 * (p - &v)) % p;
        let y = (&r * (&v + (p - &x)) + (p - &s1 * &h3 % p)) % p;
        (x, y, h * &a.2 * &b.2 % p)
    }
    fn affine(&self, (x, y, z): &J) -> Pt {
        if *z == BigUint::from(0u32) {
            return None;
        }
        let i = self.inv(z, &self.p);
        let i2 = &i * &i % &self.p;
        Some((x * &i2 % &self.p, y * &i2 * &i % &self.p))
    }
    fn mulj(&self, k: &BigUint, pt: &(BigUint, BigUint)) -> J {
        let q = (pt.0.clone(), pt.1.clone(), BigUint::from(1u32));
        let mut r: J = (1u32.into(), 1u32.into(), 0u32.into());
        for i in (0..k.bits()).rev() {
            r = self.dbl(&r);
            if k.bit(i) {
                r = self.add(&r, &q);
            }
        }
        r
    }
    pub fn mul(&self, k: &BigUint, pt: &(BigUint, BigUint)) -> Pt {
        self.affine(&self.mulj(k, pt))
    }
    pub fn sub(&self, a: &(BigUint, BigUint), b: &(BigUint, BigUint)) -> Pt {
        let j = |x: &BigUint, y: BigUint| (x.clone(), y, BigUint::from(1u32));
        self.affine(&self.add(&j(&a.0, a.1.clone()), &j(&b.0, &self.p - &b.1)))
    }
    pub fn public(&self, d: &BigUint) -> (BigUint, BigUint) {
        self.mul(d, &self.g).unwrap()
    }
    /// r, s, recovery id; s is the smaller one when `low`.
    pub fn sign(&self, d: &BigUint, digest: &[u8], low: bool) -> (BigUint, BigUint, u8) {
        let z = BigUint::from_bytes_be(digest) % &self.n;
        let zero = BigUint::from(0u32);
        for ctr in 0u8.. {
            let mut x = Sha256::new();
            x.update(d.to_bytes_be());
            x.update(digest);
            x.update([ctr]);
            let k = BigUint::from_bytes_be(&x.finalize()) % &self.n;
            if k == zero {
                continue;
            }
            let (rx, ry) = self.mul(&k, &self.g).unwrap();
            let r = &rx % &self.n;
            let s = self.inv(&k, &self.n) * (&z + &r * d) % &self.n;
            if r == zero || s == zero {
                continue;
            }
            let mut id = ry.bit(0) as u8 | ((rx >= self.n) as u8) << 1;
            let mut s = s;
            if low && &s * 2u32 > self.n {
                s = &self.n - s;
                id ^= 1;
            }
            return (r, s, id);
        }
        unreachable!()
    }
    pub fn verify(&self, q: &(BigUint, BigUint), digest: &[u8], r: &BigUint, s: &BigUint, low: bool) -> bool {
        if low && s * 2u32 > self.n {
            return false;
        }
        let z = BigUint::from_bytes_be(digest) % &self.n;
        let w = self.inv(s, &self.n);
        let u1 = z * &w % &self.n;
        let u2 = r * &w % &self.n;
        match self.affine(&self.add(&self.mulj(&u1, &self.g), &self.mulj(&u2, q))) {
            Some((x, _)) => x % &self.n == *r,
            None => false,
        }
    }
    pub fn on(&self, (x, y): &(BigUint, BigUint)) -> bool {
        *x < self.p && *y < self.p && y * y % &self.p == (x * x * x + &self.a * x + &self.b) % &self.p
    }
    pub fn decode(&self, b: &[u8]) -> Pt {
        let n = |b: &[u8]| BigUint::from_bytes_be(b);
        let q = match (b.first()?, b.len()) {
            (4, 65) => (n(&b[1..33]), n(&b[33..])),
            (t @ (2 | 3), 33) => {
                let x = n(&b[1..]);
                let y = (&x * &x * &x + &self.a * &x + &self.b).modpow(&((&self.p + 1u32) >> 2), &self.p);
                let y = if y.bit(0) == (*t == 3) { y } else { &self.p - y };
                (x, y)
            }
            _ => return None,
        };
        self.on(&q).then_some(q)
    }
    pub fn encode(&self, q: &(BigUint, BigUint), compress: bool) -> Vec<u8> {
        let mut v;
        if compress {
            v = vec![2 + q.1.bit(0) as u8];
            v.extend(be(&q.0));
        } else {
            v = vec![4];
            v.extend(be(&q.0));
            v.extend(be(&q.1));
        }
        v
    }
}
pub fn be(x: &BigUint) -> [u8; 32] {
    let b = x.to_bytes_be();
    let mut o = [0; 32];
    o[32 - b.len()..].copy_from_slice(&b);
    o
}

#[macro_export]
macro_rules! ecdsa {
    ($curve:ident, $compress:expr, $low:expr) => {
        pub mod ecdsa {
            use ::ec::{be, sha2::{Digest, Sha256}, BigUint, Curve};
            use std::sync::LazyLock;
            static C: LazyLock<Curve> = LazyLock::new(::ec::$curve);

            #[derive(Debug, Clone, Copy)]
            pub struct Error;
            impl std::fmt::Display for Error {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("signature error")
                }
            }
            impl std::error::Error for Error {}

            #[derive(Clone, Debug, PartialEq)]
            pub struct Signature {
                r: BigUint,
                s: BigUint,
            }
            impl Signature {
                pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
                    if b.len() != 64 {
                        return Err(Error);
                    }
                    let (r, s) = (BigUint::from_bytes_be(&b[..32]), BigUint::from_bytes_be(&b[32..]));
                    let zero = BigUint::from(0u32);
                    if r == zero || s == zero || r >= C.n || s >= C.n {
                        return Err(Error);
                    }
                    Ok(Self { r, s })
                }
                pub fn to_vec(&self) -> Vec<u8> {
                    [be(&self.r), be(&self.s)].concat()
                }
            }
            #[derive(Clone, Copy, Debug)]
            pub struct RecoveryId(u8);
            impl RecoveryId {
                pub fn to_byte(self) -> u8 {
                    self.0
                }
            }
            #[derive(Clone, Debug, PartialEq)]
            pub struct VerifyingKey((BigUint, BigUint));
            impl VerifyingKey {
                pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> {
                    C.decode(b).map(Self).ok_or(Error)
                }
                pub fn to_sec1_bytes(&self) -> Box<[u8]> {
                    C.encode(&self.0, $compress).into()
                }
            }
            #[derive(Clone, Debug)]
            pub struct SigningKey {
                d: BigUint,
                v: VerifyingKey,
            }
            impl SigningKey {
                pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
                    if b.len() != 32 {
                        return Err(Error);
                    }
                    let d = BigUint::from_bytes_be(b);
                    if d == BigUint::from(0u32) || d >= C.n {
                        return Err(Error);
                    }
                    let v = VerifyingKey(C.public(&d));
                    Ok(Self { d, v })
                }
                pub fn verifying_key(&self) -> &VerifyingKey {
                    &self.v
                }
                pub fn sign_prehash_recoverable(&self, h: &[u8]) -> Result<(Signature, RecoveryId), Error> {
                    let (r, s, id) = C.sign(&self.d, h, $low);
                    Ok((Signature { r, s }, RecoveryId(id)))
                }
            }
            pub mod signature {
                use super::*;
                pub trait SignerMut<S> {
                    fn sign(&mut self, msg: &[u8]) -> S;
                }
                pub trait Verifier<S> {
                    fn verify(&self, msg: &[u8], sig: &S) -> Result<(), Error>;
                }
                pub mod hazmat {
                    pub trait PrehashVerifier<S> {
                        fn verify_prehash(&self, h: &[u8], sig: &S) -> Result<(), super::Error>;
                    }
                }
                impl SignerMut<Signature> for SigningKey {
                    fn sign(&mut self, msg: &[u8]) -> Signature {
                        self.sign_prehash_recoverable(&Sha256::digest(msg)).unwrap().0
                    }
                }
                impl hazmat::PrehashVerifier<Signature> for VerifyingKey {
                    fn verify_prehash(&self, h: &[u8], sig: &Signature) -> Result<(), Error> {
                        if C.verify(&self.0, h, &sig.r, &sig.s, $low) { Ok(()) } else { Err(Error) }
                    }
                }
                impl Verifier<Signature> for VerifyingKey {
                    fn verify(&self, msg: &[u8], sig: &Signature) -> Result<(), Error> {
                        hazmat::PrehashVerifier::verify_prehash(self, &Sha256::digest(msg), sig)
                    }
                }
            }
        }
    };
}

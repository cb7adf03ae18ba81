//! Stand-in for `p256`.
::ec::ecdsa!(p256, false, false);

use ::ec::{be, BigUint, Curve, Pt};
use std::sync::LazyLock;
static C: LazyLock<Curve> = LazyLock::new(::ec::p256);

pub mod elliptic_curve {
    #[derive(Debug, Clone, Copy)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("crypto error")
        }
    }
    impl std::error::Error for Error {}
}
use elliptic_curve::Error;

fn big(q: &([u8; 32], [u8; 32])) -> (BigUint, BigUint) {
    (BigUint::from_bytes_be(&q.0), BigUint::from_bytes_be(&q.1))
}
fn small(q: Pt) -> Option<([u8; 32], [u8; 32])> {
    q.map(|(x, y)| (be(&x), be(&y)))
}
/// A point, affine, `None` at infinity.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct AffinePoint(Option<([u8; 32], [u8; 32])>);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ProjectivePoint(Option<([u8; 32], [u8; 32])>);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Scalar([u8; 32]);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct NonZeroScalar(Scalar);
impl NonZeroScalar {
    pub fn from_be(b: [u8; 32]) -> Option<Self> {
        let d = BigUint::from_bytes_be(&b);
        (d != BigUint::from(0u32) && d < C.n).then_some(Self(Scalar(b)))
    }
    pub fn random<R: rand::RngCore>(rng: &mut R) -> Self {
        loop {
            let mut b = [0; 32];
            rng.fill_bytes(&mut b);
            if let Some(s) = Self::from_be(b) {
                return s;
            }
        }
    }
}
impl AsRef<Scalar> for NonZeroScalar {
    fn as_ref(&self) -> &Scalar {
        &self.0
    }
}
impl ProjectivePoint {
    pub fn to_affine(&self) -> AffinePoint {
        AffinePoint(self.0)
    }
}
impl std::ops::Add for ProjectivePoint {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let (Some(a), Some(b)) = (self.0, o.0) else { return Self(self.0.or(o.0)) };
        let (x, y) = big(&b);
        Self(small(C.sub(&big(&a), &(x, &C.p - y))))
    }
}
impl std::ops::Mul<&Scalar> for ProjectivePoint {
    type Output = Self;
    fn mul(self, k: &Scalar) -> Self {
        Self(self.0.and_then(|q| small(C.mul(&BigUint::from_bytes_be(&k.0), &big(&q)))))
    }
}
#[derive(Clone, Debug)]
pub struct SecretKey(NonZeroScalar);
impl SecretKey {
    pub fn random<R: rand::RngCore>(rng: &mut R) -> Self {
        Self(NonZeroScalar::random(rng))
    }
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
        NonZeroScalar::from_be(b.try_into().map_err(|_| Error)?).map(Self).ok_or(Error)
    }
    pub fn to_nonzero_scalar(&self) -> NonZeroScalar {
        self.0
    }
    pub fn public_key(&self) -> PublicKey {
        PublicKey(small(Some(C.public(&BigUint::from_bytes_be(&self.0 .0 .0)))).unwrap())
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PublicKey(([u8; 32], [u8; 32]));
impl PublicKey {
    pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> {
        small(C.decode(b)).map(Self).ok_or(Error)
    }
    pub fn from_affine(p: AffinePoint) -> Result<Self, Error> {
        p.0.map(Self).ok_or(Error)
    }
    pub fn as_affine(&self) -> AffinePoint {
        AffinePoint(Some(self.0))
    }
    pub fn to_projective(&self) -> ProjectivePoint {
        ProjectivePoint(Some(self.0))
    }
}
impl serde::Serialize for PublicKey {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        C.encode(&big(&self.0), true).serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for PublicKey {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let b = Vec::<u8>::deserialize(d)?;
        Self::from_sec1_bytes(&b).map_err(serde::de::Error::custom)
    }
}
/// A SEC1 uncompressed point.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EncodedPoint(([u8; 32], [u8; 32]));
impl From<PublicKey> for EncodedPoint {
    fn from(p: PublicKey) -> Self {
        Self(p.0)
    }
}
impl EncodedPoint {
    pub fn x(&self) -> Option<&[u8; 32]> {
        Some(&self.0 .0)
    }
    pub fn y(&self) -> Option<&[u8; 32]> {
        Some(&self.0 .1)
    }
    pub fn to_bytes(&self) -> Box<[u8]> {
        C.encode(&big(&self.0), false).into()
    }
}

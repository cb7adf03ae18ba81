//! mpz-fields
use ec::BigUint;
use rand::RngCore;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::ops::{Add, Mul, Neg, Sub};

pub trait UniformRand: Sized {
    fn rand<R: RngCore + ?Sized>(rng: &mut R) -> Self;
}
pub trait Field:
    Copy + Clone + std::fmt::Debug + PartialEq + UniformRand + Serialize + DeserializeOwned + Send + Sync + 'static
    + Add<Output = Self> + Mul<Output = Self> + Neg<Output = Self> + Sub<Output = Self>
{
    fn zero() -> Self;
    fn one() -> Self;
    fn inverse(self) -> Option<Self>;
    fn to_le_bytes(&self) -> Vec<u8>;
    fn to_be_bytes(&self) -> Vec<u8> {
        let mut b = self.to_le_bytes();
        b.reverse();
        b
    }
}
pub mod p256 {
    use super::*;
    use std::sync::LazyLock;
    static P: LazyLock<BigUint> = LazyLock::new(|| ec::p256().p);
    /// Element of the base field of P-256, little endian.
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct P256(pub [u8; 32]);
    impl P256 {
        fn n(&self) -> BigUint {
            BigUint::from_bytes_le(&self.0)
        }
        fn of(n: BigUint) -> Self {
            let mut b = (n % &*P).to_bytes_le();
            b.resize(32, 0);
            P256(b.try_into().unwrap())
        }
    }
    impl TryFrom<[u8; 32]> for P256 {
        type Error = &'static str;
        fn try_from(b: [u8; 32]) -> Result<Self, Self::Error> {
            if BigUint::from_bytes_le(&b) >= *P {
                return Err("not a field element");
            }
            Ok(P256(b))
        }
    }
    impl Add for P256 {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            Self::of(self.n() + o.n())
        }
    }
    impl Sub for P256 {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            self + -o
        }
    }
    impl Mul for P256 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            Self::of(self.n() * o.n())
        }
    }
    impl Neg for P256 {
        type Output = Self;
        fn neg(self) -> Self {
            Self::of(&*P - self.n())
        }
    }
    impl UniformRand for P256 {
        fn rand<R: RngCore + ?Sized>(rng: &mut R) -> Self {
            let mut b = [0u8; 48];
            rng.fill_bytes(&mut b);
            Self::of(BigUint::from_bytes_le(&b))
        }
    }
    impl Field for P256 {
        fn zero() -> Self {
            P256([0; 32])
        }
        fn one() -> Self {
            Self::of(1u32.into())
        }
        fn inverse(self) -> Option<Self> {
            (self != Self::zero()).then(|| Self::of(self.n().modpow(&(&*P - 2u32), &P)))
        }
        fn to_le_bytes(&self) -> Vec<u8> {
            self.0.to_vec()
        }
    }
}
pub mod gf2_128 {
    use super::*;
    use crate::core::Block;
    /// Element of GF(2^128): bit i is the coefficient of x^i, modulo x^128 + x^7 + x^2 + x + 1.
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Gf2_128(u128);
    impl Gf2_128 {
        pub fn new(v: u128) -> Self {
            Gf2_128(v)
        }
        pub fn to_inner(self) -> u128 {
            self.0
        }
    }
    impl From<Block> for Gf2_128 {
        fn from(b: Block) -> Self {
            Gf2_128(u128::from_le_bytes(b.0))
        }
    }
    impl From<Gf2_128> for Block {
        fn from(g: Gf2_128) -> Self {
            Block(g.0.to_le_bytes())
        }
    }
    impl Add for Gf2_128 {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            Gf2_128(self.0 ^ o.0)
        }
    }
    impl Sub for Gf2_128 {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            Gf2_128(self.0 ^ o.0)
        }
    }
    impl Neg for Gf2_128 {
        type Output = Self;
        fn neg(self) -> Self {
            self
        }
    }
    impl Mul for Gf2_128 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            let (mut a, b) = (self.0, o.0);
            let mut r = 0u128;
            for i in 0..128 {
                if b >> i & 1 == 1 {
                    r ^= a;
                }
                let c = a >> 127;
                a <<= 1;
                if c == 1 {
                    a ^= 0x87;
                }
            }
            Gf2_128(r)
        }
    }
    impl UniformRand for Gf2_128 {
        fn rand<R: RngCore + ?Sized>(rng: &mut R) -> Self {
            let mut b = [0u8; 16];
            rng.fill_bytes(&mut b);
            Gf2_128(u128::from_le_bytes(b))
        }
    }
    impl Field for Gf2_128 {
        fn zero() -> Self {
            Gf2_128(0)
        }
        fn one() -> Self {
            Gf2_128(1)
        }
        fn inverse(self) -> Option<Self> {
            if self.0 == 0 {
                return None;
            }
            // x^(2^128 - 2)
            let mut r = Self::one();
            let mut s = self;
            for _ in 1..128 {
                s = s * s;
                r = r * s;
            }
            Some(r)
        }
        fn to_le_bytes(&self) -> Vec<u8> {
            self.0.to_le_bytes().to_vec()
        }
    }
}

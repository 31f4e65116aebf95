//! 256 bit integers and the traits of field elements; arithmetic is opaque.
use num::BigUint;
use std::io::{Read, Result as IoResult};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct BigInteger256(pub [u64; 4]);

extern "Rust" {
    fn opaque_shl(v: [u64; 4], n: u32) -> [u64; 4];
    fn opaque_from_biguint(v: BigUint) -> Result<[u64; 4], String>;
    fn opaque_to_biguint(v: [u64; 4]) -> BigUint;
    fn opaque_limbs(v: [u8; 32]) -> [u64; 4];
}

impl BigInteger256 {
    pub const fn new(v: [u64; 4]) -> Self {
        Self(v)
    }
}
pub trait BigInteger {
    fn muln(&mut self, n: u32);
}
impl BigInteger for BigInteger256 {
    fn muln(&mut self, n: u32) {
        self.0 = unsafe { opaque_shl(self.0, n) };
    }
}
impl TryFrom<BigUint> for BigInteger256 {
    type Error = String;
    fn try_from(v: BigUint) -> Result<Self, String> {
        Ok(Self(unsafe { opaque_from_biguint(v) }?))
    }
}
impl From<BigInteger256> for BigUint {
    fn from(v: BigInteger256) -> BigUint {
        unsafe { opaque_to_biguint(v.0) }
    }
}
pub mod bytes {
    use super::*;
    pub trait FromBytes: Sized {
        fn read<R: Read>(r: R) -> IoResult<Self>;
    }
    impl FromBytes for BigInteger256 {
        fn read<R: Read>(mut r: R) -> IoResult<Self> {
            let mut b = [0u8; 32];
            r.read_exact(&mut b)?;
            Ok(Self(unsafe { opaque_limbs(b) }))
        }
    }
}
pub use bytes::FromBytes;
pub trait Zero: Sized {
    fn zero() -> Self;
}
pub trait One: Sized {
    fn one() -> Self;
}
pub mod fields {
    pub trait PrimeField: Sized {
        type BigInt;
        fn into_repr(&self) -> Self::BigInt;
    }
}
pub use fields::PrimeField;

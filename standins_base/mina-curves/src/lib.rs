//! The two fields, an element being its 32 canonical bytes.
pub mod pasta {
    use ark_ff::*;
    use std::io::{Read, Result as IoResult};
    extern "Rust" {
        fn opaque_add(a: [u8; 32], b: [u8; 32]) -> [u8; 32];
        fn opaque_le_bytes(v: [u64; 4]) -> [u8; 32];
        fn opaque_le_limbs(v: [u8; 32]) -> [u64; 4];
        fn opaque_read_field(v: &[u8]) -> IoResult<[u8; 32]>;
        fn opaque_of_u64(v: u64) -> [u8; 32];
    }
    macro_rules! field { ($t:ident) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
        pub struct $t(pub [u8; 32]);
        impl Zero for $t {
            fn zero() -> Self {
                $t([0; 32])
            }
        }
        impl One for $t {
            fn one() -> Self {
                $t([1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0])
            }
        }
        impl From<u64> for $t {
            fn from(v: u64) -> Self {
                $t(unsafe { opaque_of_u64(v) })
            }
        }
        impl From<u32> for $t {
            fn from(v: u32) -> Self {
                $t(unsafe { opaque_of_u64(v as u64) })
            }
        }
        impl From<bool> for $t {
            fn from(v: bool) -> Self {
                $t(unsafe { opaque_of_u64(v as u64) })
            }
        }
        impl From<BigInteger256> for $t {
            fn from(v: BigInteger256) -> Self {
                $t(unsafe { opaque_le_bytes(v.0) })
            }
        }
        impl From<$t> for BigInteger256 {
            fn from(v: $t) -> Self {
                BigInteger256(unsafe { opaque_le_limbs(v.0) })
            }
        }
        impl std::ops::Add for $t {
            type Output = $t;
            fn add(self, o: $t) -> $t {
                $t(unsafe { opaque_add(self.0, o.0) })
            }
        }
        impl std::ops::AddAssign for $t {
            fn add_assign(&mut self, o: $t) {
                *self = *self + o;
            }
        }
        impl FromBytes for $t {
            fn read<R: Read>(mut r: R) -> IoResult<Self> {
                let mut b = [0u8; 32];
                r.read_exact(&mut b)?;
                Ok($t(unsafe { opaque_read_field(&b) }?))
            }
        }
        impl PrimeField for $t {
            type BigInt = BigInteger256;
            fn into_repr(&self) -> BigInteger256 {
                (*self).into()
            }
        }
    } }
    field!(Fp);
    field!(Fq);
}

//! Field elements from and to bytes.
pub mod field_helpers {
    use mina_curves::pasta::{Fp, Fq};
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum FieldHelpersError {
        DeserializeBytes,
    }
    impl std::fmt::Display for FieldHelpersError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("field")
        }
    }
    impl std::error::Error for FieldHelpersError {}
    extern "Rust" {
        fn opaque_field_bytes(v: &[u8]) -> Result<[u8; 32], FieldHelpersError>;
    }
    pub trait FieldHelpers: Sized {
        fn from_bytes(bytes: &[u8]) -> Result<Self, FieldHelpersError>;
        fn to_bytes(&self) -> Vec<u8>;
        fn size_in_bits() -> usize {
            255
        }
    }
    impl FieldHelpers for Fp {
        fn from_bytes(bytes: &[u8]) -> Result<Self, FieldHelpersError> {
            Ok(Fp(unsafe { opaque_field_bytes(bytes) }?))
        }
        fn to_bytes(&self) -> Vec<u8> {
            self.0.to_vec()
        }
    }
    impl FieldHelpers for Fq {
        fn from_bytes(bytes: &[u8]) -> Result<Self, FieldHelpersError> {
            Ok(Fq(unsafe { opaque_field_bytes(bytes) }?))
        }
        fn to_bytes(&self) -> Vec<u8> {
            self.0.to_vec()
        }
    }
}
pub use field_helpers::{FieldHelpers, FieldHelpersError};

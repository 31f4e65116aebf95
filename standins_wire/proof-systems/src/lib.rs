//! Field elements as their 32 bytes.
pub mod mina_signer {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct BaseField(pub [u8; 32]);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ScalarField(pub [u8; 32]);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct CompressedPubKey {
        pub x: BaseField,
        pub is_odd: bool,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Signature {
        pub rx: BaseField,
        pub s: ScalarField,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PubKeyError;
    impl std::fmt::Display for PubKeyError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("public key")
        }
    }
    extern "Rust" {
        fn opaque_address_encode(x: [u8; 32], is_odd: bool) -> String;
        fn opaque_address_decode(s: &str) -> Result<([u8; 32], bool), PubKeyError>;
    }
    impl CompressedPubKey {
        pub fn into_address(&self) -> String {
            unsafe { opaque_address_encode(self.x.0, self.is_odd) }
        }
        pub fn from_address(s: &str) -> Result<Self, PubKeyError> {
            let (x, is_odd) = unsafe { opaque_address_decode(s) }?;
            Ok(CompressedPubKey { x: BaseField(x), is_odd })
        }
    }
}
pub mod o1_utils {
    pub mod field_helpers {
        use crate::mina_signer::*;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum FieldHelpersError {
            DeserializeBytes,
        }
        extern "Rust" {
            fn opaque_field_bytes(v: &[u8]) -> Result<[u8; 32], FieldHelpersError>;
        }
        pub trait FieldHelpers: Sized {
            fn from_bytes(bytes: &[u8]) -> Result<Self, FieldHelpersError>;
            fn to_bytes(&self) -> Vec<u8>;
        }
        impl FieldHelpers for BaseField {
            fn from_bytes(bytes: &[u8]) -> Result<Self, FieldHelpersError> {
                Ok(BaseField(unsafe { opaque_field_bytes(bytes) }?))
            }
            fn to_bytes(&self) -> Vec<u8> {
                self.0.to_vec()
            }
        }
        impl FieldHelpers for ScalarField {
            fn from_bytes(bytes: &[u8]) -> Result<Self, FieldHelpersError> {
                Ok(ScalarField(unsafe { opaque_field_bytes(bytes) }?))
            }
            fn to_bytes(&self) -> Vec<u8> {
                self.0.to_vec()
            }
        }
    }
}

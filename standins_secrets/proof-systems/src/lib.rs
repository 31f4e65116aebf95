//! The parts of proof-systems that mina-secrets uses.
pub mod mina_signer {
    extern "Rust" {
        fn opaque_keypair(hex: &str) -> Result<[u8; 32], keypair::KeypairError>;
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Keypair {
        pub secret: [u8; 32],
    }
    pub mod keypair {
        #[derive(Debug)]
        pub struct KeypairError;
        impl std::fmt::Display for KeypairError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("keypair")
            }
        }
    }
    impl Keypair {
        pub fn from_hex(hex: &str) -> Result<Self, keypair::KeypairError> {
            unsafe { opaque_keypair(hex) }.map(|secret| Self { secret })
        }
    }
}

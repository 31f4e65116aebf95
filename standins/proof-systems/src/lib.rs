//! Signatures of the parts of proof-systems that mina-merkle and mina-consensus use.
use serde::{Deserialize, Serialize};

pub mod mina_hasher {
    use ark_ff::BigInteger256;
    use serde::{Deserialize, Serialize};

    /// A field element; its value is opaque.
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Serialize, Deserialize)]
    pub struct Fp(pub u64);

    extern "Rust" {
        fn opaque_field(v: [u64; 4]) -> Fp;
        fn opaque_poseidon(variant: u8, domain: Option<String>, input: ROInput) -> Fp;
    }

    impl From<BigInteger256> for Fp {
        fn from(v: BigInteger256) -> Fp {
            unsafe { opaque_field(v.0) }
        }
    }

    #[derive(Clone, Default, Debug)]
    pub struct ROInput {
        pub fields: Vec<Fp>,
    }

    impl ROInput {
        pub fn new() -> Self {
            Self { fields: Vec::new() }
        }
        pub fn append_field(mut self, f: Fp) -> Self {
            self.fields.push(f);
            self
        }
    }

    pub trait DomainParameter: Clone {
        fn into_bytes(self) -> Vec<u8>;
    }
    impl DomainParameter for () {
        fn into_bytes(self) -> Vec<u8> {
            vec![]
        }
    }
    impl DomainParameter for u32 {
        fn into_bytes(self) -> Vec<u8> {
            self.to_le_bytes().to_vec()
        }
    }

    pub trait Hashable: Clone {
        type D: DomainParameter;
        fn to_roinput(&self) -> ROInput;
        fn domain_string(domain_param: Self::D) -> Option<String>;
    }

    pub trait Hasher<H: Hashable> {
        fn hash(&mut self, input: &H) -> Fp;
    }

    pub struct PoseidonHasher<H: Hashable> {
        variant: u8,
        domain: H::D,
    }

    impl<H: Hashable> Hasher<H> for PoseidonHasher<H> {
        fn hash(&mut self, input: &H) -> Fp {
            unsafe { opaque_poseidon(self.variant, H::domain_string(self.domain.clone()), input.to_roinput()) }
        }
    }

    pub fn create_legacy<H: Hashable>(domain_param: H::D) -> PoseidonHasher<H> {
        PoseidonHasher { variant: 0, domain: domain_param }
    }

    pub fn create_kimchi<H: Hashable>(domain_param: H::D) -> PoseidonHasher<H> {
        PoseidonHasher { variant: 1, domain: domain_param }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FpJson(pub mina_hasher::Fp);

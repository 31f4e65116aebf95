//! Keys and signatures; curve arithmetic is opaque.
use mina_hasher::{DomainParameter, Hashable, ROInput};
pub use mina_curves::pasta::{Fp as BaseField, Fq as ScalarField};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CompressedPubKey {
    pub x: BaseField,
    pub is_odd: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PubKey {
    pub point: [u8; 64],
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Keypair {
    pub secret: [u8; 32],
    pub public: PubKey,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Signature {
    pub rx: BaseField,
    pub s: ScalarField,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PubKeyError;
impl std::fmt::Display for PubKeyError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("public key")
    }
}
impl std::error::Error for PubKeyError {}
extern "Rust" {
    fn opaque_address_encode(x: [u8; 32], is_odd: bool) -> String;
    fn opaque_address_decode(s: &str) -> Result<([u8; 32], bool), PubKeyError>;
    fn opaque_point_of_address(s: &str) -> Result<[u8; 64], PubKeyError>;
    fn opaque_address_of_point(s: [u8; 64]) -> String;
    fn opaque_compress(p: [u8; 64]) -> ([u8; 32], bool);
    fn opaque_sign(variant: u8, network: u8, secret: [u8; 32], public: [u8; 64], domain: Option<String>, input: ROInput) -> ([u8; 32], [u8; 32]);
    fn opaque_verify(variant: u8, network: u8, rx: [u8; 32], s: [u8; 32], public: [u8; 64], domain: Option<String>, input: ROInput) -> bool;
    fn opaque_empty_key() -> ([u8; 32], bool);
}
impl CompressedPubKey {
    pub fn empty() -> Self {
        let (x, is_odd) = unsafe { opaque_empty_key() };
        CompressedPubKey { x: BaseField(x), is_odd }
    }
    pub fn into_address(&self) -> String {
        unsafe { opaque_address_encode(self.x.0, self.is_odd) }
    }
    pub fn from_address(s: &str) -> Result<Self, PubKeyError> {
        let (x, is_odd) = unsafe { opaque_address_decode(s) }?;
        Ok(CompressedPubKey { x: BaseField(x), is_odd })
    }
}
impl PubKey {
    pub fn from_address(s: &str) -> Result<Self, PubKeyError> {
        Ok(PubKey { point: unsafe { opaque_point_of_address(s) }? })
    }
    pub fn into_address(&self) -> String {
        unsafe { opaque_address_of_point(self.point) }
    }
    pub fn into_compressed(&self) -> CompressedPubKey {
        let (x, is_odd) = unsafe { opaque_compress(self.point) };
        CompressedPubKey { x: BaseField(x), is_odd }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NetworkId {
    TESTNET = 0x00,
    MAINNET = 0x01,
}
impl DomainParameter for NetworkId {
    fn into_bytes(self) -> Vec<u8> {
        vec![self as u8]
    }
}
pub trait Signer<H: Hashable> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature;
    fn verify(&mut self, sig: &Signature, public: &PubKey, input: &H) -> bool;
}
pub struct Schnorr {
    variant: u8,
    network: NetworkId,
}
impl<H: Hashable<D = NetworkId>> Signer<H> for Schnorr {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature {
        let (rx, s) = unsafe {
            opaque_sign(self.variant, self.network.clone() as u8, kp.secret, kp.public.point, H::domain_string(self.network.clone()), input.to_roinput())
        };
        Signature { rx: BaseField(rx), s: ScalarField(s) }
    }
    fn verify(&mut self, sig: &Signature, public: &PubKey, input: &H) -> bool {
        unsafe {
            opaque_verify(self.variant, self.network.clone() as u8, sig.rx.0, sig.s.0, public.point, H::domain_string(self.network.clone()), input.to_roinput())
        }
    }
}
pub fn create_legacy<H: Hashable<D = NetworkId>>(network: NetworkId) -> impl Signer<H> {
    Schnorr { variant: 0, network }
}
pub fn create_kimchi<H: Hashable<D = NetworkId>>(network: NetworkId) -> impl Signer<H> {
    Schnorr { variant: 1, network }
}

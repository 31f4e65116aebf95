//! The digest is a function of everything fed to the hasher.
extern "Rust" {
    fn opaque_sha256(v: Vec<u8>) -> [u8; 32];
}
pub trait Digest {
    fn new() -> Self;
    fn update(&mut self, v: impl AsRef<[u8]>);
    fn chain_update(self, v: impl AsRef<[u8]>) -> Self;
    fn finalize(self) -> [u8; 32];
}
#[derive(Clone)]
pub struct Sha256 {
    v: Vec<u8>,
}
impl Digest for Sha256 {
    fn new() -> Self {
        Sha256 { v: Vec::new() }
    }
    fn update(&mut self, v: impl AsRef<[u8]>) {
        self.v.extend_from_slice(v.as_ref())
    }
    fn chain_update(mut self, v: impl AsRef<[u8]>) -> Self {
        self.v.extend_from_slice(v.as_ref());
        self
    }
    fn finalize(self) -> [u8; 32] {
        unsafe { opaque_sha256(self.v) }
    }
}

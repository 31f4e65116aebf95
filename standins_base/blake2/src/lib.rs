//! The digest is a function of everything fed to the hasher.
pub mod digest {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct InvalidOutputSize;
    pub trait Update {
        fn update(&mut self, v: &[u8]);
    }
    pub trait VariableOutput: Sized {
        fn new(n: usize) -> Result<Self, InvalidOutputSize>;
        fn finalize_boxed(self) -> Box<[u8]>;
    }
}
use digest::*;
extern "Rust" {
    fn opaque_blake2b(n: usize, v: Vec<u8>) -> Box<[u8]>;
}
pub struct Blake2bVar {
    n: usize,
    v: Vec<u8>,
}
impl Update for Blake2bVar {
    fn update(&mut self, v: &[u8]) {
        self.v.extend_from_slice(v)
    }
}
impl VariableOutput for Blake2bVar {
    fn new(n: usize) -> Result<Self, InvalidOutputSize> {
        if n == 0 || n > 64 {
            return Err(InvalidOutputSize);
        }
        Ok(Blake2bVar { n, v: Vec::new() })
    }
    fn finalize_boxed(self) -> Box<[u8]> {
        unsafe { opaque_blake2b(self.n, self.v) }
    }
}

//! The cipher as a function of key, nonce and text. Conversion of slices panics on another length, as the real one does.
extern "Rust" {
    fn opaque_decrypt(key: &[u8], nonce: &[u8], text: &[u8]) -> Result<Vec<u8>, aead::Error>;
}
pub mod aead {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("aead")
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
    pub mod generic_array {
        pub struct GenericArray<const N: usize>(pub [u8]);
        impl<const N: usize> GenericArray<N> {
            pub fn from_slice(s: &[u8]) -> &Self {
                assert_eq!(s.len(), N);
                unsafe { super::super::opaque_array(s) }
            }
        }
    }
    pub trait Aead {
        fn decrypt(&self, nonce: &generic_array::GenericArray<24>, text: &[u8]) -> Result<Vec<u8>>;
        fn encrypt(&self, nonce: &generic_array::GenericArray<24>, text: &[u8]) -> Result<Vec<u8>>;
    }
}
unsafe fn opaque_array<const N: usize>(s: &[u8]) -> &aead::generic_array::GenericArray<N> {
    std::mem::transmute(s)
}
pub trait KeyInit: Sized {
    fn new(key: &aead::generic_array::GenericArray<32>) -> Self;
}
pub struct XSalsa20Poly1305 {
    pub key: Vec<u8>,
}
impl KeyInit for XSalsa20Poly1305 {
    fn new(key: &aead::generic_array::GenericArray<32>) -> Self {
        Self { key: key.0.to_vec() }
    }
}
impl aead::Aead for XSalsa20Poly1305 {
    fn decrypt(&self, nonce: &aead::generic_array::GenericArray<24>, text: &[u8]) -> aead::Result<Vec<u8>> {
        unsafe { opaque_decrypt(&self.key, &nonce.0, text) }
    }
    fn encrypt(&self, _: &aead::generic_array::GenericArray<24>, _: &[u8]) -> aead::Result<Vec<u8>> {
        Err(aead::Error)
    }
}
pub const KEY_SIZE: usize = 32;
pub const NONCE_SIZE: usize = 24;
pub const TAG_SIZE: usize = 16;

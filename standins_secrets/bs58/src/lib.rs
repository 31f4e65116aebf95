//! base58check as two functions of the bytes, the text and the version byte.
pub mod encode {
    extern "Rust" {
        fn opaque_base58_encode(v: &[u8], version: Option<u8>) -> String;
    }
    pub struct EncodeBuilder<'a, I: AsRef<[u8]>> {
        pub input: I,
        pub version: Option<u8>,
        pub alphabet: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> EncodeBuilder<'a, I> {
        pub fn with_check_version(self, v: u8) -> Self {
            EncodeBuilder { version: Some(v), ..self }
        }
        pub fn into_string(self) -> String {
            unsafe { opaque_base58_encode(self.input.as_ref(), self.version) }
        }
    }
}
pub mod decode {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("base58")
        }
    }
    impl std::error::Error for Error {}
    extern "Rust" {
        fn opaque_base58_decode(v: &[u8], check: bool, version: Option<u8>) -> Result<Vec<u8>>;
    }
    pub type Result<T> = std::result::Result<T, Error>;
    pub struct DecodeBuilder<'a, I: AsRef<[u8]>> {
        pub input: I,
        pub check: bool,
        pub version: Option<u8>,
        pub alphabet: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> DecodeBuilder<'a, I> {
        pub fn with_check(self, v: Option<u8>) -> Self {
            DecodeBuilder { check: true, version: v, ..self }
        }
        pub fn into_vec(self) -> Result<Vec<u8>> {
            unsafe { opaque_base58_decode(self.input.as_ref(), self.check, self.version) }
        }
    }
}
pub fn encode<I: AsRef<[u8]>>(input: I) -> encode::EncodeBuilder<'static, I> {
    encode::EncodeBuilder { input, version: None, alphabet: std::marker::PhantomData }
}
pub fn decode<I: AsRef<[u8]>>(input: I) -> decode::DecodeBuilder<'static, I> {
    decode::DecodeBuilder { input, check: false, version: None, alphabet: std::marker::PhantomData }
}

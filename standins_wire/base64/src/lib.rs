//! base64 as two functions of the bytes, the text and the alphabet.
#[derive(Clone, Copy, Debug)]
pub struct Config(pub u8);
pub const STANDARD: Config = Config(0);
pub const STANDARD_NO_PAD: Config = Config(1);
pub const URL_SAFE: Config = Config(2);
pub const URL_SAFE_NO_PAD: Config = Config(3);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DecodeError;
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("base64")
    }
}
impl std::error::Error for DecodeError {}

extern "Rust" {
    fn opaque_base64_encode(v: &[u8], config: u8) -> String;
    fn opaque_base64_decode(v: &[u8], config: u8) -> Result<Vec<u8>, DecodeError>;
}
pub fn encode<T: AsRef<[u8]>>(v: T) -> String {
    unsafe { opaque_base64_encode(v.as_ref(), 0) }
}
pub fn decode<T: AsRef<[u8]>>(v: T) -> Result<Vec<u8>, DecodeError> {
    unsafe { opaque_base64_decode(v.as_ref(), 0) }
}
pub fn encode_config<T: AsRef<[u8]>>(v: T, c: Config) -> String {
    unsafe { opaque_base64_encode(v.as_ref(), c.0) }
}
pub fn decode_config<T: AsRef<[u8]>>(v: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    unsafe { opaque_base64_decode(v.as_ref(), c.0) }
}

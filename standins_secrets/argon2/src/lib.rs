//! Password hashing as a function of its parameters.
extern "Rust" {
    fn opaque_argon2(algorithm: u8, version: u32, m_cost: u32, t_cost: u32, p_cost: u32, password: &[u8], salt: &[u8]) -> Result<Option<[u8; 32]>, password_hash::Error>;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Algorithm {
    Argon2d = 0,
    Argon2i = 1,
    Argon2id = 2,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Version {
    V0x10 = 0x10,
    V0x13 = 0x13,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Error(pub u8);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("argon2")
    }
}
#[derive(Clone, Debug)]
pub struct Params {
    pub m_cost: u32,
    pub t_cost: u32,
    pub p_cost: u32,
}
pub struct ParamsBuilder(Params);
impl ParamsBuilder {
    pub fn new() -> Self {
        Self(Params { m_cost: 4096, t_cost: 3, p_cost: 1 })
    }
    pub fn m_cost(&mut self, v: u32) -> Result<&mut Self, Error> {
        if v < 8 {
            return Err(Error(0));
        }
        self.0.m_cost = v;
        Ok(self)
    }
    pub fn t_cost(&mut self, v: u32) -> Result<&mut Self, Error> {
        if v < 1 {
            return Err(Error(1));
        }
        self.0.t_cost = v;
        Ok(self)
    }
    pub fn p_cost(&mut self, v: u32) -> Result<&mut Self, Error> {
        if v < 1 {
            return Err(Error(2));
        }
        self.0.p_cost = v;
        Ok(self)
    }
    pub fn params(self) -> Result<Params, Error> {
        Ok(self.0)
    }
}
pub struct Argon2 {
    algorithm: Algorithm,
    version: Version,
    params: Params,
}
impl Argon2 {
    pub fn new(algorithm: Algorithm, version: Version, params: Params) -> Self {
        Self { algorithm, version, params }
    }
}
pub struct PasswordHash {
    pub hash: Option<password_hash::Output>,
}
pub trait PasswordHasher {
    fn hash_password(&self, password: &[u8], salt: &password_hash::SaltString) -> Result<PasswordHash, password_hash::Error>;
}
impl PasswordHasher for Argon2 {
    fn hash_password(&self, password: &[u8], salt: &password_hash::SaltString) -> Result<PasswordHash, password_hash::Error> {
        let h = unsafe {
            opaque_argon2(self.algorithm as u8, self.version as u32, self.params.m_cost, self.params.t_cost, self.params.p_cost, password, &salt.0)
        }?;
        Ok(PasswordHash { hash: h.map(password_hash::Output) })
    }
}
pub mod password_hash {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error(pub u8);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("password hash")
        }
    }
    /// the bytes that the text of a salt stands for: 3 to 48 of them
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SaltString(pub Vec<u8>);
    impl SaltString {
        pub fn b64_encode(v: &[u8]) -> Result<Self, Error> {
            if v.len() < 3 || v.len() > 48 {
                return Err(Error(0));
            }
            Ok(Self(v.to_vec()))
        }
        pub fn b64_decode<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8], Error> {
            if self.0.len() > buf.len() {
                return Err(Error(1));
            }
            Ok(unsafe { opaque_filled(&self.0) })
        }
    }
    unsafe fn opaque_filled<'a>(v: &[u8]) -> &'a [u8] {
        std::mem::transmute(v)
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Output(pub [u8; 32]);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
    }
}

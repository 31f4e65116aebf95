//! Random oracle inputs as the lists of what was appended; the hash itself is opaque.
pub use mina_curves::pasta::Fp;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bits {
    Bool(bool),
    U32(u32),
    U64(u64),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ROInput {
    pub fields: Vec<Fp>,
    pub bits: Vec<Bits>,
}

impl ROInput {
    pub fn new() -> Self {
        ROInput { fields: Vec::new(), bits: Vec::new() }
    }
    pub fn append_hashable<T: Hashable>(mut self, input: &T) -> Self {
        let mut o = input.to_roinput();
        self.fields.append(&mut o.fields);
        self.bits.append(&mut o.bits);
        self
    }
    pub fn append_roinput(mut self, mut o: ROInput) -> Self {
        self.fields.append(&mut o.fields);
        self.bits.append(&mut o.bits);
        self
    }
    pub fn append_field(mut self, f: Fp) -> Self {
        self.fields.push(f);
        self
    }
    pub fn append_bool(mut self, b: bool) -> Self {
        self.bits.push(Bits::Bool(b));
        self
    }
    pub fn append_bytes(mut self, v: &[u8]) -> Self {
        self.bits.push(Bits::Bytes(v.to_vec()));
        self
    }
    pub fn append_u32(mut self, v: u32) -> Self {
        self.bits.push(Bits::U32(v));
        self
    }
    pub fn append_u64(mut self, v: u64) -> Self {
        self.bits.push(Bits::U64(v));
        self
    }
}

pub trait DomainParameter: Clone {
    fn into_bytes(self) -> Vec<u8>;
}
impl DomainParameter for () {
    fn into_bytes(self) -> Vec<u8> {
        vec![]
    }
}
impl DomainParameter for u32 {
    fn into_bytes(self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}

pub trait Hashable: Clone {
    type D: DomainParameter;
    fn to_roinput(&self) -> ROInput;
    fn domain_string(domain_param: Self::D) -> Option<String>;
}

extern "Rust" {
    fn opaque_poseidon(variant: u8, domain: Option<String>, input: ROInput) -> Fp;
}

pub trait Hasher<H: Hashable> {
    fn hash(&mut self, input: &H) -> Fp;
}

pub struct PoseidonHasher<H: Hashable> {
    variant: u8,
    domain: H::D,
}

impl<H: Hashable> Hasher<H> for PoseidonHasher<H> {
    fn hash(&mut self, input: &H) -> Fp {
        unsafe { opaque_poseidon(self.variant, H::domain_string(self.domain.clone()), input.to_roinput()) }
    }
}

pub fn create_legacy<H: Hashable>(domain_param: H::D) -> PoseidonHasher<H> {
    PoseidonHasher { variant: 0, domain: domain_param }
}

pub fn create_kimchi<H: Hashable>(domain_param: H::D) -> PoseidonHasher<H> {
    PoseidonHasher { variant: 1, domain: domain_param }
}

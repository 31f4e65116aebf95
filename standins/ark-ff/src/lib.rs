#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct BigInteger256(pub [u64; 4]);

impl BigInteger256 {
    pub const fn new(v: [u64; 4]) -> Self {
        Self(v)
    }
}

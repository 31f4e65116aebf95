//! Bit vectors as vectors of bool; packing into bytes is opaque.
pub mod prelude {
    use std::marker::PhantomData;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Lsb0;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Msb0;
    pub trait BitOrder {
        const MSB: bool;
    }
    impl BitOrder for Lsb0 {
        const MSB: bool = false;
    }
    impl BitOrder for Msb0 {
        const MSB: bool = true;
    }
    extern "Rust" {
        fn opaque_bits(v: &[u8], msb: bool) -> Vec<bool>;
        fn opaque_pack(v: Vec<bool>, msb: bool) -> Vec<u8>;
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct BitVec<T = usize, O = Lsb0> {
        pub bits: Vec<bool>,
        pub store: PhantomData<(T, O)>,
    }
    impl<T, O> BitVec<T, O> {
        pub fn new() -> Self {
            BitVec { bits: Vec::new(), store: PhantomData }
        }
        pub fn with_capacity(_: usize) -> Self {
            BitVec { bits: Vec::new(), store: PhantomData }
        }
        pub fn push(&mut self, b: bool) {
            self.bits.push(b)
        }
        pub fn len(&self) -> usize {
            self.bits.len()
        }
        pub fn is_empty(&self) -> bool {
            self.bits.is_empty()
        }
        pub fn resize(&mut self, n: usize, b: bool) {
            self.bits.resize(n, b)
        }
        pub fn extend<I: IntoIterator<Item = bool>>(&mut self, i: I) {
            self.bits.extend(i)
        }
    }
    impl<O: BitOrder> BitVec<u8, O> {
        pub fn into_vec(self) -> Vec<u8> {
            unsafe { opaque_pack(self.bits, O::MSB) }
        }
        pub fn from_slice(v: &[u8]) -> Self {
            BitVec { bits: unsafe { opaque_bits(v, O::MSB) }, store: PhantomData }
        }
    }
    impl<T, O> IntoIterator for BitVec<T, O> {
        type Item = bool;
        type IntoIter = std::vec::IntoIter<bool>;
        fn into_iter(self) -> Self::IntoIter {
            self.bits.into_iter()
        }
    }
    pub struct Bits<'a, O> {
        v: &'a [u8],
        o: PhantomData<O>,
    }
    impl<'a, O: BitOrder> Bits<'a, O> {
        pub fn to_bitvec(&self) -> BitVec<u8, O> {
            BitVec { bits: unsafe { opaque_bits(self.v, O::MSB) }, store: PhantomData }
        }
    }
    pub trait AsBits {
        fn as_bits<O>(&self) -> Bits<'_, O>;
        fn view_bits<O>(&self) -> Bits<'_, O>;
    }
    impl AsBits for [u8] {
        fn as_bits<O>(&self) -> Bits<'_, O> {
            Bits { v: self, o: PhantomData }
        }
        fn view_bits<O>(&self) -> Bits<'_, O> {
            Bits { v: self, o: PhantomData }
        }
    }
}

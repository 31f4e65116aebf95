//! Versioned wrappers.
use witness::typed::P;
use bin_prot::error::Error;
use bin_prot::{from_reader, to_writer};
use std::io::{Read, Write};
use versioned::Versioned;

pub fn new<T, const V: u16>(t: T) -> Versioned<T, V> { Versioned::new(t) }
pub fn default<T: Default, const V: u16>() -> Versioned<T, V> { Default::default() }
pub fn inner<T, const V: u16>(v: Versioned<T, V>) -> T { v.inner() }
pub fn version<T, const V: u16>(v: &Versioned<T, V>) -> u16 { v.version() }
pub fn ser<W: Write>(w: &mut W, v: &Versioned<P, 7>) -> Result<(), Error> { to_writer(w, v) }
pub fn de<R: Read>(r: R) -> Result<Versioned<P, 7>, Error> { from_reader(r) }
pub fn ser2<W: Write>(w: &mut W, v: &Versioned<Versioned<P, 7>, 9>) -> Result<(), Error> { to_writer(w, v) }

pub fn from1<T, const V: u16>(t: T) -> Versioned<T, V> { t.into() }
pub fn from2<T, const A: u16, const B: u16>(t: T) -> Versioned<Versioned<T, A>, B> { t.into() }
pub fn from3<T, const A: u16, const B: u16, const C: u16>(t: T) -> Versioned<Versioned<Versioned<T, A>, B>, C> { t.into() }
pub fn from4<T, const A: u16, const B: u16, const C: u16, const D: u16>(t: T) -> Versioned<Versioned<Versioned<Versioned<T, A>, B>, C>, D> { t.into() }
pub fn into1<T, const V: u16>(t: Versioned<T, V>) -> (T,) { t.into() }
pub fn into2<T, const A: u16, const B: u16>(t: Versioned<Versioned<T, A>, B>) -> (T,) { t.into() }
pub fn into3<T, const A: u16, const B: u16, const C: u16>(t: Versioned<Versioned<Versioned<T, A>, B>, C>) -> (T,) { t.into() }
pub fn into4<T, const A: u16, const B: u16, const C: u16, const D: u16>(t: Versioned<Versioned<Versioned<Versioned<T, A>, B>, C>, D>) -> (T,) { t.into() }

/// the declarative macros
pub mod m {
    use versioned::*;
    pub struct S(pub u8);
    impl_from_versioned!(S);
    pub fn s1<const V: u16>(t: Versioned<S, V>) -> S { t.into() }
    pub fn s2<const A: u16, const B: u16>(t: Versioned<Versioned<S, A>, B>) -> S { t.into() }

    pub struct Inner(pub u8);
    pub struct N(pub Inner);
    pub type NV = Versioned<Inner, 5>;
    impl_from_for_newtype!(N, NV);
    pub fn n_to(t: N) -> NV { t.into() }
    pub fn n_from(t: NV) -> N { t.into() }

    pub struct O(pub u8);
    pub struct J(pub u8);
    pub type OV = Versioned<u8, 3>;
    impl From<O> for OV { fn from(o: O) -> OV { OV::new(o.0) } }
    impl From<OV> for O { fn from(v: OV) -> O { O(v.t) } }
    impl From<J> for OV { fn from(o: J) -> OV { OV::new(o.0) } }
    impl From<OV> for J { fn from(v: OV) -> J { J(v.t) } }
    impl_from_with_proxy!(O, OV, J);
    pub fn j_from(o: O) -> J { o.into() }
    pub fn j_to(j: J) -> O { j.into() }

    pub struct Aa(pub u8);
    pub struct Bb(pub u8);
    impl From<Aa> for Bb { fn from(a: Aa) -> Bb { Bb(a.0) } }
    impl From<Bb> for Aa { fn from(a: Bb) -> Aa { Aa(a.0) } }
    pub type BV = Versioned<Bb, 4>;
    impl_from_for_versioned_with_proxy!(Aa, Bb, BV);
    pub fn a_to(a: Aa) -> BV { a.into() }
    pub fn a_from(b: BV) -> Aa { b.into() }

    pub struct A2(pub u8);
    pub struct B2(pub u8);
    impl From<A2> for B2 { fn from(a: A2) -> B2 { B2(a.0) } }
    impl From<B2> for A2 { fn from(a: B2) -> A2 { A2(a.0) } }
    pub type BV2 = Versioned<B2, 6>;
    impl_from_for_generic_with_proxy!(A2, B2, BV2);
    pub fn g_to(a: A2) -> BV2 { a.into() }
    pub fn g_from(b: BV2) -> A2 { b.into() }
}

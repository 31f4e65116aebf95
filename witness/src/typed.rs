//! Strongly typed serialization and deserialization of every shape of the serde data model.
use bin_prot::error::Error;
use bin_prot::{from_reader, from_reader_strict, to_writer};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use crate::wide::{Wide, WidePv};
use std::io::{Read, Write};

/// An arbitrary nested value: its own encoding is left abstract (see `probe_ser`, `probe_de`).
pub struct P(u8);
pub fn probe_ser<S: Serializer>(_p: &P, _s: S) -> Result<S::Ok, S::Error> { loop {} }
pub fn probe_de<'de, D: Deserializer<'de>>(_d: D) -> Result<P, D::Error> { loop {} }
impl Serialize for P {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { probe_ser(self, s) }
}
impl<'de> Deserialize<'de> for P {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<P, D::Error> { probe_de(d) }
}

#[derive(Serialize, Deserialize)]
pub struct UnitS;
#[derive(Serialize, Deserialize)]
pub struct NewS(pub P);
#[derive(Serialize, Deserialize)]
pub struct TupS(pub P, pub P, pub P);
#[derive(Serialize, Deserialize)]
pub struct Rec { pub a: P, pub b: P, pub c: P }
#[derive(Serialize, Deserialize)]
pub enum En { A, B(P), C(P, P), D { x: P, y: P }, E }
#[derive(Serialize, Deserialize)]
#[serde(rename = "Polyvar")]
pub enum Pv { A, Bc(P), De(P, P), F { x: P, y: P } }
/// Names long enough that only the whole name tells them apart.
#[derive(Serialize, Deserialize)]
#[serde(rename = "Polyvar")]
pub enum Pvl {
    Signed_command(P),
    Signed_command_with_fee(P),
    Signed_command_with_fex(P, P),
    signed_command,
    A_variant_name_much_longer_than_sixty_four_characters_long_and_still_going_1 { x: P },
    A_variant_name_much_longer_than_sixty_four_characters_long_and_still_going_2 { x: P, y: P },
}

/// Shapes at the ends of the size range.
#[derive(Serialize, Deserialize)]
pub struct Rec0 {}
#[derive(Serialize, Deserialize)]
pub struct Tup0();
#[derive(Serialize, Deserialize)]
pub struct Rec1 { pub a: P }
#[derive(Serialize, Deserialize)]
pub struct Rec12 { pub a: P, pub b: P, pub c: P, pub d: P, pub e: P, pub f: P, pub g: P, pub h: P, pub i: P, pub j: P, pub k: P, pub l: P }
#[derive(Serialize, Deserialize)]
pub struct Tup9(pub P, pub P, pub P, pub P, pub P, pub P, pub P, pub P, pub P);
#[derive(Serialize, Deserialize)]
pub enum Ends { A(), B {}, C { x: P }, D((P, P)), E(P, P, P, P, P, P, P, P, P, P), F { a: P, b: P, c: P, d: P, e: P, f: P, g: P, h: P, i: P }, G(Rec0), H(()) }
/// Sum types whose names come close to the marker of polymorphic variants.
#[derive(Serialize, Deserialize)]
#[serde(rename = "polyvar")]
pub enum Near1 { A, B(P) }
#[derive(Serialize, Deserialize)]
#[serde(rename = "MyPolyvar")]
pub enum Near2 { A, B(P) }
#[derive(Serialize, Deserialize)]
#[serde(rename = "PolyvarX")]
pub enum Near3 { A, B(P) }
#[derive(Serialize, Deserialize)]
#[serde(rename = "")]
pub enum Near4 { Polyvar, B(P) }

macro_rules! ser { ($($f:ident $t:ty),* $(,)?) => { $(
    pub fn $f<W: Write>(w: &mut W, v: &$t) -> Result<(), Error> { to_writer(w, v) } )* } }
ser!(ser_bool bool, ser_i8 i8, ser_i16 i16, ser_i32 i32, ser_i64 i64, ser_u8 u8, ser_u16 u16, ser_u32 u32,
     ser_u64 u64, ser_usize usize, ser_isize isize, ser_f32 f32, ser_f64 f64, ser_char char, ser_unit (), ser_string String,
     ser_opt Option<P>, ser_box Box<P>, ser_vec Vec<P>, ser_arr [P; 3], ser_pair (P, P), ser_trip (P, P, P),
     ser_units UnitS, ser_news NewS, ser_tups TupS, ser_rec Rec, ser_enum En, ser_pv Pv, ser_pvl Pvl,
     ser_rec0 Rec0, ser_tup0 Tup0, ser_rec1 Rec1, ser_rec12 Rec12, ser_tup9 Tup9, ser_ends Ends, ser_one (P,), ser_tuple12 (P, P, P, P, P, P, P, P, P, P, P, P),
     ser_arr0 [P; 0], ser_arr1 [P; 1], ser_arr17 [P; 17], ser_near1 Near1, ser_near2 Near2, ser_near3 Near3, ser_near4 Near4, ser_wide Wide, ser_widepv WidePv);

macro_rules! de { ($($f:ident $t:ty),* $(,)?) => { $(
    pub fn $f<R: Read>(r: R) -> Result<$t, Error> { from_reader(r) } )* } }
de!(de_bool bool, de_i8 i8, de_i16 i16, de_i32 i32, de_i64 i64, de_u8 u8, de_u16 u16, de_u32 u32,
    de_u64 u64, de_usize usize, de_isize isize, de_f32 f32, de_f64 f64, de_char char, de_unit (), de_string String,
    de_opt Option<P>, de_box Box<P>, de_vec Vec<P>, de_arr [P; 3], de_pair (P, P), de_trip (P, P, P),
    de_units UnitS, de_news NewS, de_tups TupS, de_rec Rec, de_enum En, de_pv Pv, de_pvl Pvl,
    de_rec0 Rec0, de_tup0 Tup0, de_rec1 Rec1, de_rec12 Rec12, de_tup9 Tup9, de_ends Ends, de_one (P,), de_tuple12 (P, P, P, P, P, P, P, P, P, P, P, P),
    de_arr0 [P; 0], de_arr1 [P; 1], de_arr17 [P; 17], de_near1 Near1, de_near2 Near2, de_near3 Near3, de_near4 Near4, de_wide Wide, de_widepv WidePv);
pub fn de_strict<R: Read>(r: R) -> Result<P, Error> { from_reader_strict(r) }

/// Formats that ask the deserializer for things only a self-describing format can answer.
pub struct Loose(u8);
impl<'de> Deserialize<'de> for Loose {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Loose, D::Error> {
        d.deserialize_any(Nope)
    }
}
struct Nope;
impl<'de> serde::de::Visitor<'de> for Nope {
    type Value = Loose;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("nothing") }
}
pub fn de_any<R: Read>(r: R) -> Result<Loose, Error> { from_reader(r) }

macro_rules! visit { ($($f:ident $m:ident $t:ident),*) => { $(
    pub struct $t(u8);
    impl<'de> Deserialize<'de> for $t {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<$t, D::Error> { d.$m(AcceptAny).map(|_| $t(0)) }
    }
    pub fn $f<R: Read>(r: R) -> Result<$t, Error> { from_reader(r) } )* } }
visit!(de_bytes deserialize_bytes VBytes, de_byte_buf deserialize_byte_buf VByteBuf,
       de_ident deserialize_identifier VIdent, de_ignored deserialize_ignored_any VIgn,
       de_str deserialize_str VStr, de_map deserialize_map VMap, de_i128 deserialize_i128 VI128, de_u128 deserialize_u128 VU128);
struct AcceptAny;
impl<'de> serde::de::Visitor<'de> for AcceptAny {
    type Value = Any;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("anything") }
    fn visit_string<E>(self, v: String) -> Result<Any, E> { Ok(Any::Str(v)) }
    fn visit_str<E>(self, v: &str) -> Result<Any, E> { Ok(Any::Str(v.to_string())) }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        while let Some((_k, _v)) = a.next_entry::<String, P>()? {}
        Ok(Any::Nothing)
    }
}
pub enum Any { Nothing, Str(String) }

/// `serde(with)` modules for integers.
pub fn with_integer_ser<S: Serializer>(n: &i64, s: S) -> Result<S::Ok, S::Error> { bin_prot::integers::integer::serialize(n, s) }
pub fn with_nat0_ser<S: Serializer>(n: &u64, s: S) -> Result<S::Ok, S::Error> { bin_prot::integers::nat0::serialize(n, s) }
pub struct WInt(pub i64);
impl Serialize for WInt { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { with_integer_ser(&self.0, s) } }
pub struct WNat(pub u64);
impl Serialize for WNat { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { with_nat0_ser(&self.0, s) } }
ser!(ser_with_int WInt, ser_with_nat WNat);
/// A format that hands the raw bytes to the visitor.
pub struct BytesDe<'a>(pub &'a [u8]);
impl<'de> Deserializer<'de> for BytesDe<'de> {
    type Error = Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_bytes(self.0) }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
macro_rules! wd { ($($f:ident $m:ident $t:ty),*) => { $(
    pub fn $f(b: &[u8]) -> Result<$t, Error> { bin_prot::integers::$m::deserialize(BytesDe(b)) } )* } }
wd!(with_int_i32 integer i32, with_int_i64 integer i64, with_int_u64 integer u64, with_nat_u8 nat0 u8, with_nat_u32 nat0 u32, with_nat_u64 nat0 u64);

/// Variants with an arbitrary index: what a derived `Serialize` of an enum with any number of variants calls.
pub struct VUnit(pub u32);
impl Serialize for VUnit {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit_variant("Sum", self.0, "Name") }
}
pub struct VNew(pub u32, pub P);
impl Serialize for VNew {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_newtype_variant("Sum", self.0, "Name", &self.1) }
}
pub struct VTup(pub u32, pub P, pub P);
impl Serialize for VTup {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTupleVariant;
        let mut t = s.serialize_tuple_variant("Sum", self.0, "Name", 2)?;
        t.serialize_field(&self.1)?;
        t.serialize_field(&self.2)?;
        t.end()
    }
}
pub struct VRec(pub u32, pub P, pub P);
impl Serialize for VRec {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStructVariant;
        let mut t = s.serialize_struct_variant("Sum", self.0, "Name", 2)?;
        t.serialize_field("x", &self.1)?;
        t.serialize_field("y", &self.2)?;
        t.end()
    }
}
ser!(ser_vunit VUnit, ser_vnew VNew, ser_vtup VTup, ser_vrec VRec);
/// Map, sequence of unknown length, bytes.
pub struct MapV(pub Vec<P>);
impl Serialize for MapV {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut t = s.serialize_map(Some(1))?;
        t.serialize_entry("k", &self.0[0])?;
        t.end()
    }
}
pub struct BytesV(pub Vec<u8>);
impl Serialize for BytesV {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) }
}
ser!(ser_map MapV, ser_bytes BytesV);

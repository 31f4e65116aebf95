//! Primitive readers and writers of the extension traits.
use bin_prot::error::Result as BR;
use bin_prot::{caml_hash_variant, ReadBinProtExt, WriteBinProtExt};
use std::io::{Error, Read, Write};

macro_rules! wi { ($($f:ident $t:ty),*) => { $(
    pub fn $f<W: Write>(w: &mut W, n: $t) -> Result<usize, Error> { w.bin_write_integer(n) } )* } }
wi!(w_int_i8 i8, w_int_i16 i16, w_int_i32 i32, w_int_i64 i64, w_int_u8 u8, w_int_u16 u16, w_int_u32 u32);
macro_rules! wn { ($($f:ident $t:ty),*) => { $(
    pub fn $f<W: Write>(w: &mut W, n: $t) -> Result<usize, Error> { w.bin_write_nat0(n) } )* } }
wn!(w_nat_u8 u8, w_nat_u16 u16, w_nat_u32 u32, w_nat_u64 u64);
macro_rules! ri { ($($f:ident $t:ty),*) => { $(
    pub fn $f<R: Read>(r: &mut R) -> BR<$t> { r.bin_read_integer() } )* } }
ri!(r_int_i8 i8, r_int_i16 i16, r_int_i32 i32, r_int_i64 i64, r_int_isize isize,
    r_int_u8 u8, r_int_u16 u16, r_int_u32 u32, r_int_u64 u64, r_int_usize usize);
macro_rules! rn { ($($f:ident $t:ty),*) => { $(
    pub fn $f<R: Read>(r: &mut R) -> BR<$t> { r.bin_read_nat0() } )* } }
rn!(r_nat_u8 u8, r_nat_u16 u16, r_nat_u32 u32, r_nat_u64 u64, r_nat_usize usize);

pub fn w_unit<W: Write>(w: &mut W) -> Result<(), Error> { w.bin_write_unit() }
pub fn w_bool<W: Write>(w: &mut W, b: bool) -> Result<(), Error> { w.bin_write_bool(b) }
pub fn w_char<W: Write>(w: &mut W, c: char) -> Result<usize, Error> { w.bin_write_char(c) }
pub fn w_f32<W: Write>(w: &mut W, f: &f32) -> Result<usize, Error> { w.bin_write_float32(f) }
pub fn w_f64<W: Write>(w: &mut W, f: &f64) -> Result<usize, Error> { w.bin_write_float64(f) }
pub fn w_vidx<W: Write>(w: &mut W, i: u8) -> Result<usize, Error> { w.bin_write_variant_index(i) }
pub fn w_ptag<W: Write>(w: &mut W, i: u32) -> Result<usize, Error> { w.bin_write_polyvar_tag(i) }

pub fn r_unit<R: Read>(r: &mut R) -> BR<()> { r.bin_read_unit() }
pub fn r_bool<R: Read>(r: &mut R) -> BR<bool> { r.bin_read_bool() }
pub fn r_char<R: Read>(r: &mut R) -> BR<char> { r.bin_read_char() }
pub fn r_vidx<R: Read>(r: &mut R) -> BR<u8> { r.bin_read_variant_index() }
pub fn r_ptag<R: Read>(r: &mut R) -> BR<u32> { r.bin_read_polyvar_tag() }
pub fn r_string<R: Read>(r: &mut R) -> BR<String> { r.bin_read_string() }
pub fn r_bytes<R: Read>(r: &mut R) -> BR<Vec<u8>> { r.bin_read_bytes() }

pub fn hash(label: &str) -> u32 { caml_hash_variant(label) }

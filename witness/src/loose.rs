//! Loosely typed values: layout driven deserialization, serialization and indexing.
use bin_prot::error::Error;
use bin_prot::value::layout::*;
use bin_prot::value::Index;
use bin_prot::{to_writer, Deserializer, Value};
use serde::Deserialize;
use std::io::{Read, Write};

pub fn decode<R: Read>(r: R, rule: &BinProtRule) -> Result<Value, Error> {
    let mut de = Deserializer::from_reader(r).with_layout(rule);
    Value::deserialize(&mut de)
}
/// a second value from a deserializer whose layout is used up
pub fn decode_more<R: Read>(r: R, rule: &BinProtRule) -> Result<Value, Error> {
    let mut de = Deserializer::from_reader(r).with_layout(rule);
    let _ = Value::deserialize(&mut de);
    Value::deserialize(&mut de)
}
pub fn encode<W: Write>(w: &mut W, v: &Value) -> Result<(), Error> { to_writer(w, v) }
/// without a layout
pub fn decode_bare<R: Read>(r: R) -> Result<Value, Error> { bin_prot::from_reader(r) }

pub fn get_usize(v: &Value, i: usize) -> Option<&Value> { i.index_into(v) }
pub fn get_str<'a>(v: &'a Value, k: &str) -> Option<&'a Value> { k.index_into(v) }
pub fn get_string<'a>(v: &'a Value, k: &String) -> Option<&'a Value> { k.index_into(v) }
pub fn idx_usize(v: &Value, i: usize) -> &Value { &v[i] }
pub fn idx_str<'a>(v: &'a Value, k: &'static str) -> &'a Value { &v[k] }
pub fn inner(v: &Value) -> Option<Value> { v.inner() }
pub fn default() -> Value { Value::default() }

pub fn iter_all(rule: BinProtRule) -> Option<BinProtRule> { rule.into_iter().next() }

//! JSON objects with a given list of keys, read as the parts of a layout. Written by tools/gen_layout.py.
use bin_prot::value::layout::*;
use serde::de::*;
use serde::{forward_to_deserialize_any, Deserialize};

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl serde::de::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }

pub struct Object(&'static [&'static str]);
pub struct Entries(&'static [&'static str], usize);
pub struct Key(&'static str);
/// the value under a key, or the reason why it is not of that type
#[inline(never)]
pub fn value<T>(_key: &'static str) -> Result<T, E> { Err(E) }

impl<'de> Deserializer<'de> for Key {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_str(self.0) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> MapAccess<'de> for Entries {
    type Error = E;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        if self.1 == self.0.len() { return Ok(None); }
        self.1 += 1;
        match s.deserialize(Key(self.0[self.1 - 1])) { Ok(k) => Ok(Some(k)), Err(e) => Err(e) }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, _: S) -> Result<S::Value, E> { value::<S::Value>(self.0[self.1 - 1]) }
}
impl<'de> Deserializer<'de> for Object {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_map(Entries(self.0, 0)) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

pub fn layout_1() -> Result<Layout, E> { Layout::deserialize(Object(&["layout_loc", "version_opt", "type_decl", "bin_io_derived", "bin_prot_rule"])) }
pub fn layout_2() -> Result<Layout, E> { Layout::deserialize(Object(&["bin_prot_rule", "bin_io_derived", "type_decl", "version_opt", "layout_loc"])) }
pub fn layout_3() -> Result<Layout, E> { Layout::deserialize(Object(&["version_opt", "type_decl", "bin_io_derived", "bin_prot_rule", "layout_loc"])) }
pub fn layout_4() -> Result<Layout, E> { Layout::deserialize(Object(&["layout_loc", "version_opt", "type_decl", "bin_io_derived", "bin_prot_rule", "other"])) }
pub fn layout_5() -> Result<Layout, E> { Layout::deserialize(Object(&["other", "layout_loc", "version_opt", "type_decl", "bin_io_derived", "bin_prot_rule"])) }
pub fn layout_6() -> Result<Layout, E> { Layout::deserialize(Object(&["layout_loc", "other", "Other_key", "version_opt", "type_decl", "bin_io_derived", "bin_prot_rule"])) }
pub fn layout_7() -> Result<Layout, E> { Layout::deserialize(Object(&["version_opt", "type_decl", "bin_io_derived", "bin_prot_rule"])) }
pub fn layout_8() -> Result<Layout, E> { Layout::deserialize(Object(&["layout_loc", "type_decl", "bin_io_derived", "bin_prot_rule"])) }
pub fn layout_9() -> Result<Layout, E> { Layout::deserialize(Object(&["layout_loc", "version_opt", "bin_io_derived", "bin_prot_rule"])) }
pub fn layout_10() -> Result<Layout, E> { Layout::deserialize(Object(&["layout_loc", "version_opt", "type_decl", "bin_prot_rule"])) }
pub fn layout_11() -> Result<Layout, E> { Layout::deserialize(Object(&["layout_loc", "version_opt", "type_decl", "bin_io_derived"])) }
pub fn layout_12() -> Result<Layout, E> { Layout::deserialize(Object(&["bin_prot_rule", "bin_io_derived", "type_decl", "version_opt"])) }
pub fn layout_13() -> Result<Layout, E> { Layout::deserialize(Object(&["bin_prot_rule", "bin_io_derived", "type_decl", "layout_loc"])) }
pub fn layout_14() -> Result<Layout, E> { Layout::deserialize(Object(&["bin_prot_rule", "bin_io_derived", "version_opt", "layout_loc"])) }
pub fn layout_15() -> Result<Layout, E> { Layout::deserialize(Object(&["bin_prot_rule", "type_decl", "version_opt", "layout_loc"])) }
pub fn layout_16() -> Result<Layout, E> { Layout::deserialize(Object(&["bin_io_derived", "type_decl", "version_opt", "layout_loc"])) }
pub fn recordfield_1() -> Result<RecordField, E> { RecordField::deserialize(Object(&["field_name", "field_rule"])) }
pub fn recordfield_2() -> Result<RecordField, E> { RecordField::deserialize(Object(&["field_rule", "field_name"])) }
pub fn recordfield_3() -> Result<RecordField, E> { RecordField::deserialize(Object(&["field_name", "field_rule", "other"])) }
pub fn recordfield_4() -> Result<RecordField, E> { RecordField::deserialize(Object(&["other", "field_name", "field_rule"])) }
pub fn recordfield_5() -> Result<RecordField, E> { RecordField::deserialize(Object(&["field_name", "other", "Other_key", "field_rule"])) }
pub fn recordfield_6() -> Result<RecordField, E> { RecordField::deserialize(Object(&["field_rule"])) }
pub fn recordfield_7() -> Result<RecordField, E> { RecordField::deserialize(Object(&["field_name"])) }
pub fn summand_1() -> Result<Summand, E> { Summand::deserialize(Object(&["ctor_name", "index", "ctor_args"])) }
pub fn summand_2() -> Result<Summand, E> { Summand::deserialize(Object(&["ctor_args", "index", "ctor_name"])) }
pub fn summand_3() -> Result<Summand, E> { Summand::deserialize(Object(&["index", "ctor_args", "ctor_name"])) }
pub fn summand_4() -> Result<Summand, E> { Summand::deserialize(Object(&["ctor_name", "index", "ctor_args", "other"])) }
pub fn summand_5() -> Result<Summand, E> { Summand::deserialize(Object(&["other", "ctor_name", "index", "ctor_args"])) }
pub fn summand_6() -> Result<Summand, E> { Summand::deserialize(Object(&["ctor_name", "other", "Other_key", "index", "ctor_args"])) }
pub fn summand_7() -> Result<Summand, E> { Summand::deserialize(Object(&["index", "ctor_args"])) }
pub fn summand_8() -> Result<Summand, E> { Summand::deserialize(Object(&["ctor_name", "ctor_args"])) }
pub fn summand_9() -> Result<Summand, E> { Summand::deserialize(Object(&["ctor_name", "index"])) }
pub fn summand_10() -> Result<Summand, E> { Summand::deserialize(Object(&["ctor_args", "index"])) }
pub fn summand_11() -> Result<Summand, E> { Summand::deserialize(Object(&["ctor_args", "ctor_name"])) }
pub fn summand_12() -> Result<Summand, E> { Summand::deserialize(Object(&["index", "ctor_name"])) }
pub fn hashtblentry_1() -> Result<HashTblEntry, E> { HashTblEntry::deserialize(Object(&["key_rule", "value_rule"])) }
pub fn hashtblentry_2() -> Result<HashTblEntry, E> { HashTblEntry::deserialize(Object(&["value_rule", "key_rule"])) }
pub fn hashtblentry_3() -> Result<HashTblEntry, E> { HashTblEntry::deserialize(Object(&["key_rule", "value_rule", "other"])) }
pub fn hashtblentry_4() -> Result<HashTblEntry, E> { HashTblEntry::deserialize(Object(&["other", "key_rule", "value_rule"])) }
pub fn hashtblentry_5() -> Result<HashTblEntry, E> { HashTblEntry::deserialize(Object(&["key_rule", "other", "Other_key", "value_rule"])) }
pub fn hashtblentry_6() -> Result<HashTblEntry, E> { HashTblEntry::deserialize(Object(&["value_rule"])) }
pub fn hashtblentry_7() -> Result<HashTblEntry, E> { HashTblEntry::deserialize(Object(&["key_rule"])) }
pub fn taggedpolyvar_1() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["polyvar_name", "hash", "polyvar_args"])) }
pub fn taggedpolyvar_2() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["polyvar_args", "hash", "polyvar_name"])) }
pub fn taggedpolyvar_3() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["hash", "polyvar_args", "polyvar_name"])) }
pub fn taggedpolyvar_4() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["polyvar_name", "hash", "polyvar_args", "other"])) }
pub fn taggedpolyvar_5() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["other", "polyvar_name", "hash", "polyvar_args"])) }
pub fn taggedpolyvar_6() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["polyvar_name", "other", "Other_key", "hash", "polyvar_args"])) }
pub fn taggedpolyvar_7() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["hash", "polyvar_args"])) }
pub fn taggedpolyvar_8() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["polyvar_name", "polyvar_args"])) }
pub fn taggedpolyvar_9() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["polyvar_name", "hash"])) }
pub fn taggedpolyvar_10() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["polyvar_args", "hash"])) }
pub fn taggedpolyvar_11() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["polyvar_args", "polyvar_name"])) }
pub fn taggedpolyvar_12() -> Result<TaggedPolyvar, E> { TaggedPolyvar::deserialize(Object(&["hash", "polyvar_name"])) }
pub fn unresolvedpayload_1() -> Result<UnresolvedPayload, E> { UnresolvedPayload::deserialize(Object(&["params", "layout_id"])) }
pub fn unresolvedpayload_2() -> Result<UnresolvedPayload, E> { UnresolvedPayload::deserialize(Object(&["layout_id", "params"])) }
pub fn unresolvedpayload_3() -> Result<UnresolvedPayload, E> { UnresolvedPayload::deserialize(Object(&["params", "layout_id", "other"])) }
pub fn unresolvedpayload_4() -> Result<UnresolvedPayload, E> { UnresolvedPayload::deserialize(Object(&["other", "params", "layout_id"])) }
pub fn unresolvedpayload_5() -> Result<UnresolvedPayload, E> { UnresolvedPayload::deserialize(Object(&["params", "other", "Other_key", "layout_id"])) }
pub fn unresolvedpayload_6() -> Result<UnresolvedPayload, E> { UnresolvedPayload::deserialize(Object(&["layout_id"])) }
pub fn unresolvedpayload_7() -> Result<UnresolvedPayload, E> { UnresolvedPayload::deserialize(Object(&["params"])) }
pub fn resolvedpayload_1() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["source_type_decl", "source_module_path", "bin_io_derived", "ref_rule"])) }
pub fn resolvedpayload_2() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["ref_rule", "bin_io_derived", "source_module_path", "source_type_decl"])) }
pub fn resolvedpayload_3() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["source_module_path", "bin_io_derived", "ref_rule", "source_type_decl"])) }
pub fn resolvedpayload_4() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["source_type_decl", "source_module_path", "bin_io_derived", "ref_rule", "other"])) }
pub fn resolvedpayload_5() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["other", "source_type_decl", "source_module_path", "bin_io_derived", "ref_rule"])) }
pub fn resolvedpayload_6() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["source_type_decl", "other", "Other_key", "source_module_path", "bin_io_derived", "ref_rule"])) }
pub fn resolvedpayload_7() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["source_module_path", "bin_io_derived", "ref_rule"])) }
pub fn resolvedpayload_8() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["source_type_decl", "bin_io_derived", "ref_rule"])) }
pub fn resolvedpayload_9() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["source_type_decl", "source_module_path", "ref_rule"])) }
pub fn resolvedpayload_10() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["source_type_decl", "source_module_path", "bin_io_derived"])) }
pub fn resolvedpayload_11() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["ref_rule", "bin_io_derived", "source_module_path"])) }
pub fn resolvedpayload_12() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["ref_rule", "bin_io_derived", "source_type_decl"])) }
pub fn resolvedpayload_13() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["ref_rule", "source_module_path", "source_type_decl"])) }
pub fn resolvedpayload_14() -> Result<ResolvedPayload, E> { ResolvedPayload::deserialize(Object(&["bin_io_derived", "source_module_path", "source_type_decl"])) }

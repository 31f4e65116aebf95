#!/usr/bin/env python3
"""Writes witness/src/layout.rs and analysis/layouttable.py: JSON objects (lists of keys) given to the readers of the layout types."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {'Layout': ('layout_loc', 'version_opt', 'type_decl', 'bin_io_derived', 'bin_prot_rule'), 'RecordField': ('field_name', 'field_rule'),
     'Summand': ('ctor_name', 'index', 'ctor_args'), 'HashTblEntry': ('key_rule', 'value_rule'),
     'TaggedPolyvar': ('polyvar_name', 'hash', 'polyvar_args'), 'UnresolvedPayload': ('params', 'layout_id'),
     'ResolvedPayload': ('source_type_decl', 'source_module_path', 'bin_io_derived', 'ref_rule')}
out = ['''//! JSON objects with a given list of keys, read as the parts of a layout. Written by tools/gen_layout.py.
use bin_prot::value::layout::*;
use serde::de::*;
use serde::{forward_to_deserialize_any, Deserialize};

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl serde::de::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }

pub struct Object(&'static [&'static str]);
pub struct Entries(&'static [&'static str], usize);
pub struct Key(&'static str);
/// the value under a key, or the reason why it is not of that type
#[inline(never)]
pub fn value<T>(_key: &'static str) -> Result<T, E> { Err(E) }

impl<'de> Deserializer<'de> for Key {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_str(self.0) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> MapAccess<'de> for Entries {
    type Error = E;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        if self.1 == self.0.len() { return Ok(None); }
        self.1 += 1;
        match s.deserialize(Key(self.0[self.1 - 1])) { Ok(k) => Ok(Some(k)), Err(e) => Err(e) }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, _: S) -> Result<S::Value, E> { value::<S::Value>(self.0[self.1 - 1]) }
}
impl<'de> Deserializer<'de> for Object {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_map(Entries(self.0, 0)) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
''']
tab = []
for ty, ks in T.items():
    lists = [ks, ks[::-1], ks[1:] + ks[:1], ks + ('other',), ('other',) + ks, ks[:1] + ('other', 'Other_key') + ks[1:]]
    lists += [tuple(k for k in ks if k != x) for x in ks]
    lists += [tuple(k for k in ks if k != x)[::-1] for x in ks if len(ks) > 2]
    seen = []
    for l in lists:
        if l in seen:
            continue
        seen.append(l)
        n = '%s_%d' % (ty.lower(), len(seen))
        out.append('pub fn %s() -> Result<%s, E> { %s::deserialize(Object(&[%s])) }' % (n, ty, ty, ', '.join('"%s"' % k for k in l)))
        tab.append(('layout::' + n, ty, l))
open(ROOT + '/witness/src/layout.rs', 'w').write('\n'.join(out) + '\n')
with open(ROOT + '/analysis/layouttable.py', 'w') as f:
    f.write('"""JSON objects for the layout types, written by tools/gen_layout.py: (root, type, keys)"""\nTABLE = [\n')
    for t in tab:
        f.write('    %r,\n' % (t,))
    f.write(']\n')

From 625dae7414041dec5eaa2e2e1ec82658bbf9cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 01/33] fix: from_reader_strict detects trailing bytes beyond
 the read buffer

BufReader::buffer() only shows bytes already buffered; when the value ends
exactly at a buffer refill boundary the remaining input went unnoticed.
---
 protocol/bin-prot/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 8d4e7f7..e07fb5e 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -11,7 +11,7 @@ use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
 use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
 use serde::Deserialize;
-use std::io::{BufReader, Read};
+use std::io::{BufRead, BufReader, Read};
 
 /// the modes of operation for the deserializer
 pub struct StronglyTyped;
@@ -68,7 +68,7 @@ pub fn from_reader<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
 pub fn from_reader_strict<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
     let mut de = Deserializer::from_reader(rdr);
     let value = Deserialize::deserialize(&mut de)?;
-    match de.rdr.buffer().len() {
+    match de.rdr.fill_buf()?.len() {
         0 => Ok(value),
         unconsumed => Err(Error::StreamNotFullyConsumed(unconsumed)),
     }
-- 
2.43.0


From 0524347b50938847a1332cfd196fb4aedb2aba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 02/33] fix: write floats and polyvar tags completely

io::Write::write may accept only a prefix of the buffer; the remaining bytes
were silently dropped on short writes.
---
 protocol/bin-prot/src/write_ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 737573c..671c1dc 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -98,12 +98,12 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a float
     fn bin_write_float32(&mut self, f: &f32) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 4)
+        self.write_all(&f.to_le_bytes()).map(|_| 4)
     }
 
     /// Write a 64 bit float
     fn bin_write_float64(&mut self, f: &f64) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 8)
+        self.write_all(&f.to_le_bytes()).map(|_| 8)
     }
 
     /// for enums/variants with n variants the variant index
@@ -123,7 +123,7 @@ pub trait WriteBinProtExt: io::Write {
     /// For Polyvar types write the 4 bytes of the tag/hash for a variant
     /// You can convert between ocaml native integer using (x >> 1)
     fn bin_write_polyvar_tag(&mut self, i: u32) -> Result<usize, io::Error> {
-        self.write(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
+        self.write_all(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
     }
 }
 
-- 
2.43.0


From d2b0840a0bc5cef7daa8f414222ac56484ffa386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 03/33] fix: reject integer prefix byte 0x80

Only bytes below 0x80 stand for themselves; 0x80 is not a size code and no
writer produces it.
---
 protocol/bin-prot/src/read_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 472bde9..9e4615f 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -65,7 +65,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
@@ -94,7 +94,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
-- 
2.43.0


From ff5856979db2a8fcdcd7ae6307746b33b7d0ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 04/33] fix: number polyvar variants by their position in the
 enum

Non-ascii variants were skipped before counting, so every later variant was
decoded as its predecessor.
---
 protocol/bin-prot/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index e07fb5e..a730e6b 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -396,8 +396,8 @@ macro_rules! impl_polyvar_enum_access {
                 let index = self
                     .variants
                     .into_iter()
-                    .filter(|v| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .enumerate()
+                    .filter(|(_, v)| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .find_map(|(index, value)| {
                         // Return the first polyvar variant where the hash matches
                         if caml_hash_variant(value) == self.hash {
-- 
2.43.0


From e33524cf3eb354a8bb80290fa28b5b5761c783da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 05/33] fix: do not allocate from an untrusted string length

A nine byte input could request any allocation up to 2^64 bytes, which aborts
or panics with capacity overflow before the missing data is noticed.
---
 protocol/bin-prot/src/read_ext.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 9e4615f..eb4d18f 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -5,7 +5,7 @@ use crate::consts::*;
 use crate::error::{Error, Result};
 use byteorder::{LittleEndian, ReadBytesExt};
 use num::{FromPrimitive, Unsigned};
-use std::io;
+use std::io::{self, Read};
 
 /// Extension trait for readers implementing io::Read to allow them to read a bin_prot encoded values
 pub trait ReadBinProtExt: io::Read {
@@ -118,9 +118,7 @@ pub trait ReadBinProtExt: io::Read {
 
     /// Read a string
     fn bin_read_string(&mut self) -> Result<String> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let buf = self.bin_read_bytes()?;
         let s = std::str::from_utf8(&buf)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
         Ok(s.to_string())
@@ -128,9 +126,13 @@ pub trait ReadBinProtExt: io::Read {
 
     /// read some bytes
     fn bin_read_bytes(&mut self) -> Result<Vec<u8>> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let len = self.bin_read_nat0::<u64>()?;
+        // the length is untrusted, only allocate for bytes that are actually there
+        let mut buf = Vec::new();
+        Read::take(&mut *self, len).read_to_end(&mut buf)?;
+        if buf.len() as u64 != len {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From 30997dac03e353ff8f2fc172f36729d5bcbb3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 06/33] fix: deserializing into a loose type without a layout
 is an error

The documentation of Value promises an error; it panicked.
---
 protocol/bin-prot/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index a730e6b..fda44ed 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -101,7 +101,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     where
         V: Visitor<'de>,
     {
-        unimplemented!()
+        Err(Error::DeserializingLooseTypeWithoutLayout)
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From a6dc0771b2fcd8e9aafe24df3119012fbef0dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 07/33] fix: implement deserialize_str instead of panicking

---
 protocol/bin-prot/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index fda44ed..cb6a04a 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -191,11 +191,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
         visitor.visit_char(self.rdr.bin_read_char()?)
     }
 
-    fn deserialize_str<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From d22da60b1c316c8eaafbb7e175792701639ce6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 08/33] fix: out of range sum index in the input is an error,
 not a panic

---
 protocol/bin-prot/src/loose_deserializer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 0d34eb0..b8edf31 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -46,14 +46,16 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                         // We need this to select which variant layout to use
                         // when deserializing the variants data
                         let index = self.rdr.bin_read_variant_index()?;
-                        let variant_rules = summands[index as usize].ctor_args.clone();
+                        let summand = summands
+                            .get(index as usize)
+                            .cloned()
+                            .ok_or(Error::VariantIndexTooLarge {
+                                index: index as u32,
+                            })?;
                         self.mode
                             .layout_iter
-                            .push(vec![BinProtRule::Tuple(variant_rules)]);
-                        visitor.visit_enum(ValueEnum::new(
-                            self,
-                            VariantType::Sum(summands[index as usize].clone()),
-                        ))
+                            .push(vec![BinProtRule::Tuple(summand.ctor_args.clone())]);
+                        visitor.visit_enum(ValueEnum::new(self, VariantType::Sum(summand)))
                     }
                     BinProtRule::Polyvar(summands) => {
                         let tag = self.rdr.bin_read_polyvar_tag()?;
-- 
2.43.0


From 41ebb77b374502dcf687fba50a4852f515b348a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 09/33] fix: inherited polyvars in a layout do not panic while
 matching a tag

Tags that belong to an inherited (unsupported) polyvar are now reported as
unknown.
---
 protocol/bin-prot/src/loose_deserializer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index b8edf31..c717c8f 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -72,7 +72,7 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                                             None
                                         }
                                     }
-                                    Polyvar::Inherited(_) => unimplemented!(), // don't know how to handle these yet
+                                    Polyvar::Inherited(_) => None, // don't know how to handle these yet
                                 }
                             })
                             .ok_or(Error::UnknownPolyvarTag(tag))?;
-- 
2.43.0


From efd263947aed56124351fce3e6ea8550459ea2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 10/33] fix: a vector rule without element rule is an error,
 not a panic

---
 protocol/bin-prot/src/loose_deserializer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index c717c8f..6eccf6b 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -136,7 +136,8 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                             | "Pickles_types.Vector.Vector8"
                             | "Pickles_types.Vector.Vector17"
                             | "Pickles_types.Vector.Vector18" => {
-                                let element_rule = rules.first().unwrap();
+                                let element_rule =
+                                    rules.first().ok_or(Error::LayoutIteratorError)?;
                                 let len = match path.as_str() {
                                     "Pickles_type.Vector.Vector2"
                                     | "Pickles_types.Vector.Vector2" => 2,
-- 
2.43.0


From 3f4af3beb17ebe1283639da3b4a430623b05bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 11/33] fix: a summand index outside 0..=255 in a layout is an
 error, not a panic

---
 protocol/bin-prot/src/loose_deserializer.rs | 25 ++++++++++++++-------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 6eccf6b..b63a82d 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -222,14 +222,23 @@ impl<'de, 'a, R: Read> serde::de::EnumAccess<'de> for ValueEnum<'a, R, LooselyTy
         // and then return the deserializer to be handled by visit_enum
 
         let (index, enum_data) = match self.variant {
-            VariantType::Sum(summand) => (
-                summand.index as u8,
-                EnumData::Sum {
-                    index: summand.index.try_into().unwrap(),
-                    name: summand.ctor_name,
-                    len: summand.ctor_args.len(),
-                },
-            ),
+            VariantType::Sum(summand) => {
+                let index: u8 =
+                    summand
+                        .index
+                        .try_into()
+                        .map_err(|_| Error::VariantIndexTooLarge {
+                            index: summand.index as u32,
+                        })?;
+                (
+                    index,
+                    EnumData::Sum {
+                        index,
+                        name: summand.ctor_name,
+                        len: summand.ctor_args.len(),
+                    },
+                )
+            }
             VariantType::Polyvar(index, polyvar) => (
                 index,
                 EnumData::Polyvar {
-- 
2.43.0


From b7c0d3eafdf749603b8af268361dc501ec160272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 12/33] fix: unsupported layout rules are reported by the
 deserializer

The traversal panicked on rules for which the deserializer has an
UnimplementedRule error.
---
 protocol/bin-prot/src/value/layout/traverse.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 90b856b..36ed1c2 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -55,9 +55,7 @@ impl Iterator for BinProtRuleIterator {
                         // Option is a special case of a Sum where the None variant contain nothing
                     }
                     BinProtRule::Reference(rule_ref) => match rule_ref {
-                        RuleRef::Unresolved(_payload) => {
-                            unimplemented!();
-                        }
+                        RuleRef::Unresolved(_payload) => {} // the driving code decides what to do
                         RuleRef::Resolved(payload) => {
                             self.stack.push(*payload.ref_rule);
                             self.current_module_path = Some(payload.source_module_path);
@@ -79,7 +77,7 @@ impl Iterator for BinProtRuleIterator {
                             return Some(BinProtRule::CustomForPath(path.to_string(), rules));
                         }
                     }
-                    _ => unimplemented!(),
+                    _ => {} // not supported, the driving code reports it
                 };
                 r
             }
-- 
2.43.0


From e2fb01dc062ef2c56227393fd90863b757253c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 13/33] fix: serialize Value::Nat0 in the nat0 encoding

---
 protocol/bin-prot/src/value/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/value/ser.rs b/protocol/bin-prot/src/value/ser.rs
index 828cec3..9ec5d25 100644
--- a/protocol/bin-prot/src/value/ser.rs
+++ b/protocol/bin-prot/src/value/ser.rs
@@ -16,7 +16,7 @@ impl Serialize for Value {
     {
         match *self {
             Value::Unit => serializer.serialize_unit(),
-            Value::Nat0(v) => v.serialize(serializer),
+            Value::Nat0(v) => crate::integers::nat0::serialize(&v, serializer),
             Value::Bool(b) => serializer.serialize_bool(b),
             Value::String(ref s) => s.serialize(serializer),
             Value::Char(c) => serializer.serialize_char(c as char),
-- 
2.43.0


From 366073171d50f45f5cf1d34419cf72c85ff30a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:27 +0000
Subject: [PATCH 14/33] fix: characters outside the single byte range are not
 truncated on write

---
 protocol/bin-prot/src/write_ext.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 671c1dc..c687e55 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -23,7 +23,13 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a single char character
     fn bin_write_char(&mut self, c: char) -> Result<usize, io::Error> {
-        self.write_u8(c as u8)?;
+        let byte = u8::try_from(u32::from(c)).map_err(|_| {
+            io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "bin_prot characters are a single byte",
+            )
+        })?;
+        self.write_u8(byte)?;
         Ok(1)
     }
 
-- 
2.43.0


From 0d2fbec787f996d15666d731b8fffde3b4e3b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:32 +0000
Subject: [PATCH 15/33] fix: compute the depth of a merkle tree node in
 integers

The logarithm of a power of two is not exact in floating point: the last
node of a level (index 2^29 - 2, for instance) was placed one level too deep.
---
 merkle/src/metadata.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index bf53061..3161c05 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -15,8 +15,8 @@ impl MerkleTreeNodeMetadata {
     /// the node's index in the merkle tree, index of root node is 0
     /// the tree height does not count data/leaf nodes
     pub fn new(node_index: usize, tree_height: u32) -> Self {
-        let depth = depth::<2>(node_index);
-        let height = height::<2>(node_index, tree_height);
+        let depth = depth(node_index);
+        let height = height(node_index, tree_height);
         Self { depth, height }
     }
 
@@ -31,10 +31,11 @@ impl MerkleTreeNodeMetadata {
     }
 }
 
-fn depth<const DEGREE: usize>(index: usize) -> u32 {
-    ((index + DEGREE) as f64).log(DEGREE as f64).ceil() as u32 - 1
+/// Distance of the node to the root in a binary tree, floor(log2(index + 1))
+pub(crate) fn depth(index: usize) -> u32 {
+    u128::BITS - 1 - (index as u128 + 1).leading_zeros()
 }
 
-fn height<const DEGREE: usize>(index: usize, height: u32) -> u32 {
-    height - depth::<DEGREE>(index)
+fn height(index: usize, height: u32) -> u32 {
+    height - depth(index)
 }
-- 
2.43.0


From 317af2d2bf40a62d01129634de83aba11a20fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:56 +0000
Subject: [PATCH 16/33] fix: merkle proofs hold only for the position they name

A proof with too few or too many peers, or with the peers of another
position, was accepted or ended in an arithmetic overflow: the side of a
node was taken from the claimed peer instead of its own index, and nothing
made sure that the path ends at the root.
---
 merkle/src/proof.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/merkle/src/proof.rs b/merkle/src/proof.rs
index 309a761..0cbf6b2 100644
--- a/merkle/src/proof.rs
+++ b/merkle/src/proof.rs
@@ -111,6 +111,12 @@ where
     fn root_hash(&self) -> Result<Hash, Self::Error> {
         // index of a data node should always to positive
         if self.index > 0 {
+            // there is exactly one peer on each level between the data node and the root
+            if self.peer_indices.len() != depth(self.index) as usize
+                || self.peer_hashes.len() != self.peer_indices.len()
+            {
+                return Err(MerkleProofError::InvalidProof);
+            }
             // 1. Get the index and hash of the data node
             let mut index = self.index;
             let mut hash_opt = Some(Hasher::hash(
@@ -156,9 +162,10 @@ fn get_ordered_siblings<Hash>(
     sibling_index: usize,
     sibling_hash: Option<Hash>,
 ) -> Result<[Option<Hash>; 2], MerkleProofError> {
-    if index + 1 == sibling_index {
+    // a left child has an odd index, its sibling is the next node
+    if index % 2 == 1 && index.checked_add(1) == Some(sibling_index) {
         Ok([hash, sibling_hash])
-    } else if index == sibling_index + 1 {
+    } else if index % 2 == 0 && sibling_index.checked_add(1) == Some(index) {
         Ok([sibling_hash, hash])
     } else {
         Err(MerkleProofError::InvalidProof)
-- 
2.43.0


From b62cade51efdafe22277cd50ce33c1521a38c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:56 +0000
Subject: [PATCH 17/33] fix: report merkle paths of impossible length as an
 error

An empty path and one of more nodes than an index has bits made to_proof panic.
---
 merkle/src/path.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkle/src/path.rs b/merkle/src/path.rs
index 7da57fc..8bf09aa 100644
--- a/merkle/src/path.rs
+++ b/merkle/src/path.rs
@@ -47,6 +47,9 @@ impl MerklePath {
         Hasher: MerkleHasher<Item = Item, Hash = Fp>,
         Merger: MerkleMerger<Hash = Fp>,
     {
+        if self.0.is_empty() || self.0.len() >= usize::BITS as usize {
+            return Err(anyhow::Error::msg("Invalid merkle path length"));
+        }
         let mut peer_indices = Vec::with_capacity(self.0.len());
         let mut peer_hashes = Vec::with_capacity(self.0.len());
         let mut row_index = 0;
-- 
2.43.0


From c4f4f32844711af61f5bf004133db003ea912e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:11 +0000
Subject: [PATCH 18/33] fix: chain selection does not overflow on extreme
 header values

A header with slots_per_epoch 0, a length or epoch count of u32::MAX or
oversized sub window densities made the arithmetic panic or wrap.
---
 consensus/src/common.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index b07b709..f1d9431 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -67,7 +67,7 @@ where
         match self.0.len() {
             0 => (),
             n => {
-                if new.get_height().0 != self.0[n - 1].get_height().0 + 1 {
+                if self.0[n - 1].get_height().0.checked_add(1) != Some(new.get_height().0) {
                     return Err(ConsensusError::InvalidHeight);
                 }
             }
@@ -105,7 +105,7 @@ where
     /// The output is the epoch slot number in [0, slots_per_epoch].
     pub fn epoch_slot(&self) -> Option<u32> {
         self.global_slot()
-            .map(|s| (s.slot_number.0 % s.slots_per_epoch.0))
+            .and_then(|s| s.slot_number.0.checked_rem(s.slots_per_epoch.0))
     }
 
     /// The function the length of a chain. The output is the length of the chain in blocks.
@@ -238,7 +238,7 @@ where
         let b_prev_lock_checkpoint = &b.staking_epoch_data.lock_checkpoint;
 
         let check = |s1: &ConsensusState, s2: &ConsensusState, s2_epoch_slot: Option<u32>| {
-            if s1.epoch_count.0 == s2.epoch_count.0 + 1
+            if Some(s1.epoch_count.0) == s2.epoch_count.0.checked_add(1)
                 && s2_epoch_slot >= Some(self.config().slots_per_epoch.0 * 2 / 3)
             {
                 // S1 is one epoch ahead of S2 and S2 is not in the seed update range
@@ -320,7 +320,9 @@ where
         };
 
         // compute projected window density
-        let projected_window_density = projected_window.iter().map(|s| s.0).sum();
+        let projected_window_density = projected_window
+            .iter()
+            .fold(0_u32, |sum, s| sum.saturating_add(s.0));
 
         // compute minimum window density
         Ok(min(
-- 
2.43.0


From 2c5b8dcb2dd1680df662e7813646052650ff443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:26 +0000
Subject: [PATCH 19/33] fix: AuthRequired::Both hashes as signature necessary

Proof and Both had the same hash input, so accounts that differ only in
them had the same hash.
---
 base/src/account/permissions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index a6da7e2..9366f2b 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -31,7 +31,8 @@ impl ToChunkedROInput for AuthRequired {
     fn to_chunked_roinput(&self) -> ChunkedROInput {
         let mut roi = ChunkedROInput::new();
         let constant = matches!(self, Self::Impossible | Self::None);
-        let signature_necessary = matches!(self, Self::Impossible | Self::Signature);
+        let signature_necessary =
+            matches!(self, Self::Impossible | Self::Signature | Self::Both);
         let signature_sufficient = matches!(self, Self::Either | Self::Signature | Self::None);
         for b in [constant, signature_necessary, signature_sufficient] {
             let mut bits = BitVec::with_capacity(1);
-- 
2.43.0


From b8a2c740f32124c319a2e4499bd5fe26dc6c7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:14 +0000
Subject: [PATCH 20/33] fix: read the incrementNonce permission from its own
 GraphQL field

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index 9366f2b..0f29825 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -134,7 +134,7 @@ impl FromGraphQLJson for Permissions {
                 json["setTokenSymbol"].as_str().unwrap_or_default(),
             )?,
             increment_nonce: AuthRequired::from_str(
-                json["editState"].as_str().unwrap_or_default(),
+                json["incrementNonce"].as_str().unwrap_or_default(),
             )?,
             set_voting_for: AuthRequired::from_str(
                 json["setVotingFor"].as_str().unwrap_or_default(),
-- 
2.43.0


From a7ac14cd58603b72e7455acc8d8a3a76343b0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:14 +0000
Subject: [PATCH 21/33] fix: a command whose signer is no valid public key does
 not verify instead of panicking

---
 base/src/user_commands/signed_command/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/src/user_commands/signed_command/mod.rs b/base/src/user_commands/signed_command/mod.rs
index b4712fe..7885767 100644
--- a/base/src/user_commands/signed_command/mod.rs
+++ b/base/src/user_commands/signed_command/mod.rs
@@ -54,10 +54,15 @@ where
     CTX: Signer<SignedCommandPayload>,
 {
     fn verify(&self, ctx: &mut CTX) -> bool {
-        // do a slightly sketchy conversion via address string. Safe to unwrap as we know it was valid to begin with
+        // do a slightly sketchy conversion via address string. A signer received from a peer need not be a point of the
+        // curve, in which case nothing verifies
         // TODO replace this with a proper `.into` conversion when supported in proof-systems
-        let signer_uncompressed = PubKey::from_address(&self.signer.into_address()).unwrap();
-        ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+        match PubKey::from_address(&self.signer.into_address()) {
+            Ok(signer_uncompressed) => {
+                ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+            }
+            Err(_) => false,
+        }
     }
 }
 
-- 
2.43.0


From 29d6e291e1c4a8fd66be8ef44c464d2c5d051ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:14 +0000
Subject: [PATCH 22/33] fix: the text of a malformed memo does not panic

---
 base/src/user_commands/memo.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 75dd22c..24f26d1 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -40,8 +40,10 @@ impl SignedCommandMemo {
 
     /// Convert into text
     pub fn to_text(&self) -> String {
-        let len = self.0[1] as usize;
-        String::from_utf8_lossy(&self.0[2..(2 + len)]).into()
+        // A memo received from a peer can have any length
+        let len = self.0.get(1).copied().unwrap_or_default() as usize;
+        let text = self.0.get(2..).unwrap_or_default();
+        String::from_utf8_lossy(&text[..len.min(text.len())]).into()
     }
 }
 
-- 
2.43.0


From 7fa04b38e44d93b0109c95d108641f0d02d9571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 23/33] fix: a transfer built without a memo has the memo of an
 empty text, not one of no bytes

---
 base/src/user_commands/memo.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 24f26d1..d007385 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -9,13 +9,20 @@ use mina_serialization_types_macros::AutoFrom;
 use thiserror::Error;
 
 /// A memo byte strong for a signed command
-#[derive(Clone, Default, Eq, PartialEq, Debug, derive_more::From, derive_more::Into, AutoFrom)]
+#[derive(Clone, Eq, PartialEq, Debug, derive_more::From, derive_more::Into, AutoFrom)]
 #[auto_from(mina_serialization_types::staged_ledger_diff::SignedCommandMemo)]
 #[auto_from(mina_serialization_types::staged_ledger_diff::SignedCommandMemoJson)]
 pub struct SignedCommandMemo(pub Vec<u8>);
 
 impl_strconv_via_json!(SignedCommandMemo, SignedCommandMemoJson);
 
+impl Default for SignedCommandMemo {
+    /// The memo of an empty text, which has the length of every memo
+    fn default() -> Self {
+        Self::try_from_text("").expect("An empty text fits into a memo")
+    }
+}
+
 impl SignedCommandMemo {
     /// Try build from text
     pub fn try_from_text(s: impl AsRef<[u8]>) -> Result<Self, SignedCommandMemoError> {
-- 
2.43.0


From 7af80d07ebb16649f2bd638d5c0075152265f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 24/33] fix: refuse decimal JSON numbers with more than nine
 fraction digits, other characters or too large a value

---
 protocol/serialization-types/src/common.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 37ca787..6009ae9 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -119,12 +119,23 @@ impl<'de> Deserialize<'de> for DecimalJson {
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
         let r_str = iter.next().unwrap_or("0");
+        // a fraction has at most 9 digits, and nothing but digits
+        if r_str.len() > 9 || !r_str.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(<D::Error as serde::de::Error>::custom(format!(
+                "Invalid string: {s}"
+            )));
+        }
         let r: u64 = format!("{:0<9}", r_str)
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
         if iter.next().is_none() {
             // ensure there isn't more to parse as that is undefined
-            Ok(Self(r + MINA_PRECISION * q))
+            q.checked_mul(MINA_PRECISION)
+                .and_then(|q| q.checked_add(r))
+                .map(Self)
+                .ok_or_else(|| {
+                    <D::Error as serde::de::Error>::custom(format!("Number too large: {s}"))
+                })
         } else {
             Err(<D::Error as serde::de::Error>::custom(format!(
                 "Invalid string: {s}"
-- 
2.43.0


From 3cf3ee9f1390098bc809f90b4f4bf3ece4ed8a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 25/33] fix: refuse amounts with more than nine fraction
 digits, other characters or too large a value

---
 base/src/numbers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/src/numbers.rs b/base/src/numbers.rs
index 5c77097..1fd0a40 100644
--- a/base/src/numbers.rs
+++ b/base/src/numbers.rs
@@ -143,10 +143,17 @@ impl std::str::FromStr for Amount {
             .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))?
             .parse()?;
         let r_str = iter.next().unwrap_or("0");
+        // a fraction has at most 9 digits, and nothing but digits
+        if r_str.len() > 9 || !r_str.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(Self::Err::ErrorInvalidFormat(s.to_string()));
+        }
         let r: u64 = format!("{:0<9}", r_str).parse()?;
         if iter.next().is_none() {
             // ensure there isn't more to parse as that is undefined
-            Ok(Amount(r + MINA_PRECISION * q))
+            q.checked_mul(MINA_PRECISION)
+                .and_then(|q| q.checked_add(r))
+                .map(Amount)
+                .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))
         } else {
             Err(Self::Err::ErrorInvalidFormat(s.to_string()))
         }
-- 
2.43.0


From 1a42b928dfb982ed650891dea4d96c02186c8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:49 +0000
Subject: [PATCH 26/33] fix: refuse a JSON byte that is not exactly one byte
 instead of panicking or dropping the rest

---
 protocol/serialization-types/src/common.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 6009ae9..1eb3559 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -213,7 +213,12 @@ impl<'de> Deserialize<'de> for CharJson {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        Ok(s.as_bytes()[0].into())
+        match s.as_bytes() {
+            [b] => Ok((*b).into()),
+            _ => Err(<D::Error as serde::de::Error>::custom(format!(
+                "Single byte expected: {s}"
+            ))),
+        }
     }
 }
 
-- 
2.43.0


From 9572372675b413ab500c154288ffe23ba2ef0650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:49 +0000
Subject: [PATCH 27/33] fix: refuse JSON field elements of the wrong length
 instead of panicking

---
 protocol/serialization-types/src/field_and_curve_elements.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/field_and_curve_elements.rs b/protocol/serialization-types/src/field_and_curve_elements.rs
index c034ac8..bedaddd 100644
--- a/protocol/serialization-types/src/field_and_curve_elements.rs
+++ b/protocol/serialization-types/src/field_and_curve_elements.rs
@@ -138,9 +138,8 @@ impl FieldElementJson {
     /// Convert from hex str
     pub fn try_from_hex_str(s: impl AsRef<[u8]>) -> Result<Self, hex::FromHexError> {
         let s = skip_0x_prefix_when_needed(s.as_ref());
-        let bytes = hex::decode(s)?;
         let mut b32 = [0; 32];
-        b32.copy_from_slice(&bytes);
+        hex::decode_to_slice(s, &mut b32)?;
         Ok(Self(b32))
     }
 }
-- 
2.43.0


From 27a25387309e5860fc6966e2b4d83b1cad2ef0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:49 +0000
Subject: [PATCH 28/33] fix: refuse malformed list-tagged JSON values instead
 of panicking

---
 protocol/serialization-types/src/macros.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/macros.rs b/protocol/serialization-types/src/macros.rs
index 9b987f3..acb921b 100644
--- a/protocol/serialization-types/src/macros.rs
+++ b/protocol/serialization-types/src/macros.rs
@@ -103,7 +103,11 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                 let v = ::serde_json::Value::deserialize(deserializer)?;
                 if let Some(array) = v.as_array() {
                     let e: $tp = match array.len() {
-                        0 => panic!("Non-empty array expected"),
+                        0 => {
+                            return Err(<D::Error as ::serde::de::Error>::custom(
+                                "Non-empty array expected",
+                            ))
+                        }
                         1 => ::serde_json::from_value(array[0].clone())
                             .map_err(<D::Error as ::serde::de::Error>::custom)?,
                         2 => {
@@ -121,7 +125,9 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                     };
                     Ok(e.into())
                 } else {
-                    panic!("Array expected")
+                    Err(<D::Error as ::serde::de::Error>::custom(
+                        "Array expected",
+                    ))
                 }
             }
         }
-- 
2.43.0


From 55e575fb84a6c0d3da0a2f4e776d5600114b2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:59 +0000
Subject: [PATCH 29/33] fix: clear the hashes of all ancestors of an added leaf

---
 merkle/src/tree_impl.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 9865663..3f87622 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -178,11 +178,9 @@ where
         let mut parent = leaf_index;
         while parent > 0 {
             parent = calculate_parent_index(parent);
-            if self.nodes[parent].is_some() {
-                self.nodes[parent] = None;
-            } else {
-                break;
-            }
+            // An ancestor without a cached hash does not mean that those above it have none:
+            // the merger may have no hash for a node without leaves
+            self.nodes[parent] = None;
         }
     }
 
-- 
2.43.0


From c668f6ab50a1ff1e8adda3bb05debcb8937ff576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:59 +0000
Subject: [PATCH 30/33] fix: make no proof panic for a tree with a single item

---
 merkle/src/tree_impl.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 3f87622..d625406 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -115,6 +115,10 @@ where
             } else {
                 self.variable_height
             };
+            if height_above == 0 {
+                // The only item is the root, there is nothing above it to prove
+                return None;
+            }
             let index_offset = calculate_node_count(height_above);
             let capacity = self.mode.fixed_height().unwrap_or(self.variable_height) as usize;
             let mut peer_indices = Vec::with_capacity(capacity);
@@ -133,7 +137,12 @@ where
             peer_hashes.push(peer_hash);
             // 3. Gets the index of their parent node and point the cursor to it
             // parent_index is the index of the actual tree with the variable height
-            let mut parent_index = calculate_parent_index(self.nodes.len() + index);
+            // the only item of a tree with a bigger fixed height is the root of the actual tree
+            let mut parent_index = if self.nodes.is_empty() {
+                0
+            } else {
+                calculate_parent_index(self.nodes.len() + index)
+            };
             // and parent_index_with_offset is the index of the virtual tree with possible fixed height
             // when the fixed height equals to the variable height, parent_index equals to parent_index_with_offset
             let mut parent_index_with_offset = calculate_parent_index(index_with_offset);
-- 
2.43.0


From 0c5765c930ae554d6236e65446eac79943e8582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 31/33] fix: refuse wallets with a malformed nonce or an empty
 key instead of panicking

---
 secrets/src/secret_box/constants.rs   | 2 ++
 secrets/src/secret_box/types_impls.rs | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/secrets/src/secret_box/constants.rs b/secrets/src/secret_box/constants.rs
index 5909ec2..2ccf097 100644
--- a/secrets/src/secret_box/constants.rs
+++ b/secrets/src/secret_box/constants.rs
@@ -3,3 +3,5 @@
 
 pub const SECRET_BOX_PRIMITIVE: &str = "xsalsa20poly1305";
 pub const PASSWORD_HASH_PRIMITIVE: &str = "argon2i";
+/// Number of bytes of a nonce of XSalsa20-Poly1305
+pub const NONCE_SIZE: usize = 24;
diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 7da3cef..5e4f736 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -109,6 +109,9 @@ impl SecretBox {
 
     /// Gets raw bytes(little-endian) of the private key from the wallet with a password
     pub fn get_private_key_bytes(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
+        if self.nonce.len() != NONCE_SIZE {
+            return Err(Error::AeadError("Invalid nonce length".into()));
+        }
         let secret = self.try_gen_secret(password)?;
         let key = GenericArray::from_slice(secret.as_slice());
         let cipher = XSalsa20Poly1305::new(key);
@@ -118,6 +121,10 @@ impl SecretBox {
                 self.ciphertext.as_ref(),
             )
             .map_err(|e| Error::AeadError(format!("{}", e)))?;
+        if bytes.is_empty() {
+            return Err(Error::AeadError("Empty private key".into()));
+        }
+        // Remove version byte
         bytes.remove(0);
         Ok(bytes)
     }
-- 
2.43.0


From 731548525af1721f3098e91b1d75ce572b1bc10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 32/33] fix: refuse wallets whose password costs are out of
 range instead of truncating them

---
 secrets/src/secret_box/types_impls.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 5e4f736..b91797e 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -29,7 +29,8 @@ impl TryFrom<SecretBoxJson> for SecretBox {
             nonce: base58_decode(json.nonce)?,
             pwsalt,
             pw_mem_limit_bytes: json.pwdiff[0],
-            pw_ops_limit: json.pwdiff[1] as u32,
+            pw_ops_limit: u32::try_from(json.pwdiff[1])
+                .map_err(|e| Error::Argon2Error(format!("{}", e)))?,
             ciphertext: base58_decode(json.ciphertext)?,
         })
     }
@@ -84,9 +85,11 @@ impl TryInto<serde_json::Value> for SecretBox {
 
 impl SecretBox {
     pub(super) fn try_gen_secret(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
+        let mem_cost = u32::try_from(self.pw_mem_limit_bytes / 1024)
+            .map_err(|e| Error::Argon2Error(format!("{}", e)))?;
         let hasher = (move || {
             let mut param_builder = ParamsBuilder::new();
-            param_builder.m_cost((self.pw_mem_limit_bytes / 1024) as u32)?;
+            param_builder.m_cost(mem_cost)?;
             param_builder.t_cost(self.pw_ops_limit)?;
             Ok(Argon2::new(
                 argon2::Algorithm::Argon2i,
-- 
2.43.0


From cc1db9c63d4b782b1e792424c2be85674e73b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 33/33] fix: write wallets with salts of more than 16 bytes

---
 secrets/src/secret_box/types_impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index b91797e..a8c82b4 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -48,8 +48,8 @@ impl TryFrom<SecretBox> for SecretBoxJson {
     type Error = Error;
     fn try_from(sb: SecretBox) -> Result<SecretBoxJson, Self::Error> {
         let pwsalt = {
-            // 16 is sufficient here
-            let mut buf = [0; 16];
+            // A salt that was accepted has at most 48 bytes
+            let mut buf = [0; 48];
             let bytes = sb
                 .pwsalt
                 .b64_decode(&mut buf)
-- 
2.43.0


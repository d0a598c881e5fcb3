From 4b38db8fa28a11c4f170bb4290afa967eeab9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:07 +0000
Subject: [PATCH 01/35] fix: bin-prot floats and polyvar tags are written in
 full to sinks that accept partial writes

io::Write::write may accept fewer bytes than offered; its count was discarded
and the full length reported, silently truncating the encoding.
---
 protocol/bin-prot/src/write_ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 737573c..671c1dc 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -98,12 +98,12 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a float
     fn bin_write_float32(&mut self, f: &f32) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 4)
+        self.write_all(&f.to_le_bytes()).map(|_| 4)
     }
 
     /// Write a 64 bit float
     fn bin_write_float64(&mut self, f: &f64) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 8)
+        self.write_all(&f.to_le_bytes()).map(|_| 8)
     }
 
     /// for enums/variants with n variants the variant index
@@ -123,7 +123,7 @@ pub trait WriteBinProtExt: io::Write {
     /// For Polyvar types write the 4 bytes of the tag/hash for a variant
     /// You can convert between ocaml native integer using (x >> 1)
     fn bin_write_polyvar_tag(&mut self, i: u32) -> Result<usize, io::Error> {
-        self.write(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
+        self.write_all(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
     }
 }
 
-- 
2.43.0


From 183334522a3b247373b5f12c78fcf7b4a9feb973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 02/35] fix: bin-prot integers reject the lead byte 0x80

0x80 is neither a size code nor a one-byte value (those are < 0x80, as the error
message says), yet it was decoded as 128.
---
 protocol/bin-prot/src/read_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 472bde9..9e4615f 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -65,7 +65,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
@@ -94,7 +94,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
-- 
2.43.0


From f871cef7269bd1447cccff58c38d25074fc8f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 03/35] fix: bin-prot strings with a hostile length prefix no
 longer abort the process

The length prefix was allocated before any data was read, so nine bytes of input
could panic with a capacity overflow or exhaust memory.
---
 protocol/bin-prot/src/read_ext.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 9e4615f..930c953 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -5,7 +5,7 @@ use crate::consts::*;
 use crate::error::{Error, Result};
 use byteorder::{LittleEndian, ReadBytesExt};
 use num::{FromPrimitive, Unsigned};
-use std::io;
+use std::io::{self, Read};
 
 /// Extension trait for readers implementing io::Read to allow them to read a bin_prot encoded values
 pub trait ReadBinProtExt: io::Read {
@@ -118,9 +118,7 @@ pub trait ReadBinProtExt: io::Read {
 
     /// Read a string
     fn bin_read_string(&mut self) -> Result<String> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let buf = self.bin_read_bytes()?;
         let s = std::str::from_utf8(&buf)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
         Ok(s.to_string())
@@ -128,9 +126,14 @@ pub trait ReadBinProtExt: io::Read {
 
     /// read some bytes
     fn bin_read_bytes(&mut self) -> Result<Vec<u8>> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let len = self.bin_read_nat0::<u64>()?;
+        // The length is untrusted, so let the buffer grow with the data that is actually
+        // there rather than allocating `len` bytes up front
+        let mut buf = Vec::new();
+        (&mut *self).take(len).read_to_end(&mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From ca060415836a93da638922d4ff122c4f517d2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 04/35] fix: from_reader_strict also detects trailing bytes
 that are not buffered yet

Only the bytes already in the BufReader were looked at, so a stream whose value
ends where the buffer ends was accepted with data left over.
---
 protocol/bin-prot/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 8d4e7f7..e07fb5e 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -11,7 +11,7 @@ use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
 use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
 use serde::Deserialize;
-use std::io::{BufReader, Read};
+use std::io::{BufRead, BufReader, Read};
 
 /// the modes of operation for the deserializer
 pub struct StronglyTyped;
@@ -68,7 +68,7 @@ pub fn from_reader<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
 pub fn from_reader_strict<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
     let mut de = Deserializer::from_reader(rdr);
     let value = Deserialize::deserialize(&mut de)?;
-    match de.rdr.buffer().len() {
+    match de.rdr.fill_buf()?.len() {
         0 => Ok(value),
         unconsumed => Err(Error::StreamNotFullyConsumed(unconsumed)),
     }
-- 
2.43.0


From d8c1647c7ce6ebe11a54060642a0fa106bf0688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 05/35] fix: polyvar variants after a non-ASCII label decode to
 the right variant

The index was counted after dropping non-ASCII labels, so every later tag selected
an earlier variant.
---
 protocol/bin-prot/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index e07fb5e..bf54a9e 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -396,8 +396,8 @@ macro_rules! impl_polyvar_enum_access {
                 let index = self
                     .variants
                     .into_iter()
-                    .filter(|v| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
-                    .enumerate()
+                    .enumerate() // before filtering, the index must be the position in the enum
+                    .filter(|(_, v)| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .find_map(|(index, value)| {
                         // Return the first polyvar variant where the hash matches
                         if caml_hash_variant(value) == self.hash {
-- 
2.43.0


From aaabb472b6e8b02e811f7ea482c710a51677ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 06/35] fix: u64 values of 2^63 and above survive a bin-prot
 round trip

They are written as the (negative) 64 bit integer with the same bits, as the OCaml
implementation does, but decoding such an integer into a u64 failed.
---
 protocol/bin-prot/src/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index bf54a9e..ac69aab 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -167,7 +167,8 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     where
         V: Visitor<'de>,
     {
-        visitor.visit_u64(self.rdr.bin_read_integer()?)
+        // serialize_u64 writes the two's complement of the value as a 64 bit integer
+        visitor.visit_u64(self.rdr.bin_read_integer::<i64>()? as u64)
     }
 
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From 4a607f99cad5464bca2f31024a1b28331cd384e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:25 +0000
Subject: [PATCH 07/35] fix: asking the typed deserializer for a loose value or
 a str does not panic

The error for a loose value without a layout existed but was never returned.
---
 protocol/bin-prot/src/de.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index ac69aab..3971bab 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -101,7 +101,8 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     where
         V: Visitor<'de>,
     {
-        unimplemented!()
+        // bin_prot is not self describing
+        Err(Error::DeserializingLooseTypeWithoutLayout)
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value>
@@ -192,11 +193,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
         visitor.visit_char(self.rdr.bin_read_char()?)
     }
 
-    fn deserialize_str<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From 4f43d2af11b5b9b1ee6be781b16e56cc63436132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:29 +0000
Subject: [PATCH 08/35] fix: a char that does not fit in one byte is an error
 instead of being truncated

---
 protocol/bin-prot/src/write_ext.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 671c1dc..8595fcf 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -23,7 +23,9 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a single char character
     fn bin_write_char(&mut self, c: char) -> Result<usize, io::Error> {
-        self.write_u8(c as u8)?;
+        let b = u8::try_from(u32::from(c))
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
+        self.write_u8(b)?;
         Ok(1)
     }
 
-- 
2.43.0


From 15a76f0380a43b856d69b3b30d6f426e6bf905ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:32 +0000
Subject: [PATCH 09/35] fix: a sum variant index that the layout does not have
 is an error, not a panic

---
 protocol/bin-prot/src/loose_deserializer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 0d34eb0..934e39b 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -46,14 +46,14 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                         // We need this to select which variant layout to use
                         // when deserializing the variants data
                         let index = self.rdr.bin_read_variant_index()?;
-                        let variant_rules = summands[index as usize].ctor_args.clone();
+                        let summand = summands
+                            .get(index as usize)
+                            .cloned()
+                            .ok_or(Error::LayoutIteratorError)?;
                         self.mode
                             .layout_iter
-                            .push(vec![BinProtRule::Tuple(variant_rules)]);
-                        visitor.visit_enum(ValueEnum::new(
-                            self,
-                            VariantType::Sum(summands[index as usize].clone()),
-                        ))
+                            .push(vec![BinProtRule::Tuple(summand.ctor_args.clone())]);
+                        visitor.visit_enum(ValueEnum::new(self, VariantType::Sum(summand)))
                     }
                     BinProtRule::Polyvar(summands) => {
                         let tag = self.rdr.bin_read_polyvar_tag()?;
-- 
2.43.0


From 7fd2b51093fdf76c5e84ea3be3243fbc81543d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:19 +0000
Subject: [PATCH 10/35] fix: a hostile list length no longer aborts layout
 driven decoding

The element rule was cloned once per element before any element was read, so the
length prefix alone could panic with a capacity overflow or exhaust memory.
---
 .../bin-prot/src/value/layout/traverse.rs     | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 90b856b..41b7c0d 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -23,7 +23,8 @@ use crate::value::layout::{BinProtRule, RuleRef};
 /// Implements a depth first search of the type tree
 /// defined by a BinProtRule
 pub struct BinProtRuleIterator {
-    pub(crate) stack: Vec<BinProtRule>, // regular stack to implement the DFS
+    // regular stack to implement the DFS, holds how often each rule is still to be visited
+    pub(crate) stack: Vec<(BinProtRule, usize)>,
     current_module_path: Option<String>, // holds on to most recent path encountered in traverse
 }
 
@@ -31,7 +32,12 @@ impl Iterator for BinProtRuleIterator {
     type Item = BinProtRule;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let top = self.stack.pop();
+        let top = self.stack.pop().map(|(rule, n)| {
+            if n > 1 {
+                self.stack.push((rule.clone(), n - 1));
+            }
+            rule
+        });
         let r = top.clone();
         match top {
             Some(rule) => {
@@ -42,10 +48,10 @@ impl Iterator for BinProtRuleIterator {
                     }
                     BinProtRule::Record(mut rules) => {
                         self.stack
-                            .extend(rules.drain(0..).map(|field| field.field_rule).rev());
+                            .extend(rules.drain(0..).map(|field| (field.field_rule, 1)).rev());
                     }
                     BinProtRule::Tuple(mut rules) => {
-                        self.stack.extend(rules.drain(0..).rev());
+                        self.stack.extend(rules.drain(0..).map(|rule| (rule, 1)).rev());
                     }
                     BinProtRule::Sum(_) | BinProtRule::Polyvar(_) => {
                         // don't add to the stack. Add to the branch field instead
@@ -59,7 +65,7 @@ impl Iterator for BinProtRuleIterator {
                             unimplemented!();
                         }
                         RuleRef::Resolved(payload) => {
-                            self.stack.push(*payload.ref_rule);
+                            self.stack.push((*payload.ref_rule, 1));
                             self.current_module_path = Some(payload.source_module_path);
                             return self.next();
                         }
@@ -91,12 +97,14 @@ impl Iterator for BinProtRuleIterator {
 impl BinProtRuleIterator {
     // Drop a custom rule onto the stack
     pub fn push(&mut self, rules: Vec<BinProtRule>) {
-        self.stack.extend(rules);
+        self.stack.extend(rules.into_iter().map(|rule| (rule, 1)));
     }
 
     // Drop a custom rule onto the stack n times
     pub fn push_n(&mut self, rule: BinProtRule, n: usize) {
-        self.stack.extend(std::iter::repeat(rule).take(n));
+        if n > 0 {
+            self.stack.push((rule, n));
+        }
     }
 }
 
@@ -106,7 +114,7 @@ impl IntoIterator for BinProtRule {
 
     fn into_iter(self) -> <Self as IntoIterator>::IntoIter {
         BinProtRuleIterator {
-            stack: vec![self],
+            stack: vec![(self, 1)],
             current_module_path: None,
         }
     }
-- 
2.43.0


From 14878ad608acfaa5c94c8197e5fb76d44e05097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:22 +0000
Subject: [PATCH 11/35] fix: loose Nat0 values are written in the Nat0 encoding

The signed integer encoding, which differs from 0x8000 on, was used.
---
 protocol/bin-prot/src/value/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/value/ser.rs b/protocol/bin-prot/src/value/ser.rs
index 828cec3..a6de284 100644
--- a/protocol/bin-prot/src/value/ser.rs
+++ b/protocol/bin-prot/src/value/ser.rs
@@ -16,7 +16,7 @@ impl Serialize for Value {
     {
         match *self {
             Value::Unit => serializer.serialize_unit(),
-            Value::Nat0(v) => v.serialize(serializer),
+            Value::Nat0(ref v) => crate::integers::nat0::serialize(v, serializer),
             Value::Bool(b) => serializer.serialize_bool(b),
             Value::String(ref s) => s.serialize(serializer),
             Value::Char(c) => serializer.serialize_char(c as char),
-- 
2.43.0


From 961951561bee8942499c60a491be8f5ddd2ef1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:25 +0000
Subject: [PATCH 12/35] fix: loose polyvars keep their four byte tag whatever
 its value is

A tag below 256, i.e. of any one letter label, was written as a one byte variant index,
and an enum index above 255 as a polyvar tag; neither could be read back.
---
 protocol/bin-prot/src/ser.rs       | 19 ++++++++++---------
 protocol/bin-prot/src/value/ser.rs |  3 ++-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/protocol/bin-prot/src/ser.rs b/protocol/bin-prot/src/ser.rs
index 2fabc4c..30d16d0 100644
--- a/protocol/bin-prot/src/ser.rs
+++ b/protocol/bin-prot/src/ser.rs
@@ -9,6 +9,9 @@ use crate::WriteBinProtExt;
 use serde::ser;
 use serde::Serialize;
 
+/// Enum name that marks a variant index as the tag of a loosely typed Polyvar
+pub(crate) const POLYVAR_TAG: &str = "PolyvarTag";
+
 /// Serializer for writing BinProt bytes to a writer
 pub struct Serializer<W> {
     writer: W,
@@ -35,20 +38,18 @@ where
     }
 
     // This can be called to serialize a Polyvar which has a 4 byte
-    // tag OR a variant index which is 1-2 bytes. We assume if they fit into a single byte then they
-    // are an index and if they are larger than 1 byte they are a polyvar.
-    // IMPORTANT: This could bug out in the case that a polyvar hash is zero in all places except the lowest byte.
-    // The probability of this happening is vanishingly small but something to be aware of.
+    // tag OR a variant index which is a single byte. Which one it is follows from the enum name.
     fn write_variant_index_or_tag(&mut self, name: &str, variant: &str, index: u32) -> Result<()> {
         if name == "Polyvar" {
             self.writer
                 .bin_write_polyvar_tag(caml_hash_variant(variant))?;
-        } else if let Ok(b) = check_variant_index(index) {
-            // it is a sum variant
-            self.writer.bin_write_variant_index(b)?;
-        } else {
-            // assume it is a Polyvar tagged variant
+        } else if name == POLYVAR_TAG {
+            // a loosely typed Polyvar, the index is its tag
             self.writer.bin_write_polyvar_tag(index)?;
+        } else {
+            // it is a sum variant
+            self.writer
+                .bin_write_variant_index(check_variant_index(index)?)?;
         }
         Ok(())
     }
diff --git a/protocol/bin-prot/src/value/ser.rs b/protocol/bin-prot/src/value/ser.rs
index a6de284..5fc32b5 100644
--- a/protocol/bin-prot/src/value/ser.rs
+++ b/protocol/bin-prot/src/value/ser.rs
@@ -3,6 +3,7 @@
 
 //! Serialization implementation for a BinProt loosely typed Value
 
+use crate::ser::POLYVAR_TAG;
 use crate::Value;
 
 use serde::ser::{SerializeStruct, SerializeTuple};
@@ -53,7 +54,7 @@ impl Serialize for Value {
                 name: _,
                 ref tag,
                 ref value,
-            } => serializer.serialize_newtype_variant("", *tag as u32, "", value), // sum types/enums
+            } => serializer.serialize_newtype_variant(POLYVAR_TAG, *tag, "", value),
             Value::List(ref v) => v.serialize(serializer),
         }
     }
-- 
2.43.0


From 8542d888e768a0abf58db5651615a719bf998e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:12 +0000
Subject: [PATCH 13/35] fix: from_reader_strict is not defeated by an
 interrupted read

Looking for trailing bytes with fill_buf reports ErrorKind::Interrupted to the
caller although the value was read completely; every other read retries.
---
 protocol/bin-prot/src/de.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 3971bab..b91e05f 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -11,7 +11,7 @@ use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
 use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
 use serde::Deserialize;
-use std::io::{BufRead, BufReader, Read};
+use std::io::{BufReader, Read};
 
 /// the modes of operation for the deserializer
 pub struct StronglyTyped;
@@ -68,7 +68,10 @@ pub fn from_reader<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
 pub fn from_reader_strict<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
     let mut de = Deserializer::from_reader(rdr);
     let value = Deserialize::deserialize(&mut de)?;
-    match de.rdr.fill_buf()?.len() {
+    // look for one more byte; unlike fill_buf, read_to_end carries on when it is interrupted
+    let mut rest = Vec::new();
+    (&mut de.rdr).take(1).read_to_end(&mut rest)?;
+    match rest.len() + de.rdr.buffer().len() {
         0 => Ok(value),
         unconsumed => Err(Error::StreamNotFullyConsumed(unconsumed)),
     }
-- 
2.43.0


From b7d30e5965e195df3d7a8cac0faca8cd4a421d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:55 +0000
Subject: [PATCH 14/35] fix: exact depth of a merkle tree node

The floating point logarithm is off by one for some indices, e.g. depth(2^29 - 2) was 29
instead of 28, which gives the node the wrong height and so the wrong domain prefix.
---
 merkle/src/metadata.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index bf53061..2c42cd4 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -32,7 +32,13 @@ impl MerkleTreeNodeMetadata {
 }
 
 fn depth<const DEGREE: usize>(index: usize) -> u32 {
-    ((index + DEGREE) as f64).log(DEGREE as f64).ceil() as u32 - 1
+    let mut depth = 0;
+    let mut node = index;
+    while node > 0 {
+        node = (node - 1) / DEGREE;
+        depth += 1;
+    }
+    depth
 }
 
 fn height<const DEGREE: usize>(index: usize, height: u32) -> u32 {
-- 
2.43.0


From 8a71ca690f299aecef13c13f35e66f0259930c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:58 +0000
Subject: [PATCH 15/35] fix: clear the cached hash of every ancestor of a new
 leaf

An ancestor without a cached hash ended the walk although the nodes above it can
still be cached (a subtree without leaves has no hash), so the root stayed that of the old leaves.
---
 merkle/src/tree_impl.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 9865663..8532a1e 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -178,11 +178,7 @@ where
         let mut parent = leaf_index;
         while parent > 0 {
             parent = calculate_parent_index(parent);
-            if self.nodes[parent].is_some() {
-                self.nodes[parent] = None;
-            } else {
-                break;
-            }
+            self.nodes[parent] = None;
         }
     }
 
-- 
2.43.0


From f8886f05415fc56797702a009ff2036e4530317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:00 +0000
Subject: [PATCH 16/35] fix: rehash the leaves when the height of the merkle
 tree changes

The hash of a leaf is calculated from its metadata, which changes with the height.
---
 merkle/src/tree_impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 8532a1e..afca632 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -339,6 +339,10 @@ fn add_batch<Item, Hash, Hasher, Merger, Mode>(
         let new_node_count = calculate_node_count(new_height);
         tree.variable_height = new_height;
         tree.nodes = vec![None; new_node_count];
+        // The depth of every leaf has changed
+        for (_, hash) in tree.leafs.iter_mut() {
+            *hash = None;
+        }
     } else {
         let start = tree.nodes.len() + tree.leafs.len();
         for i in start..(start + leaves.len()) {
-- 
2.43.0


From ad774d694353865888cd158ace2331f229b8894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:02 +0000
Subject: [PATCH 17/35] fix: exact height of a merkle tree

The conversion to f64 drops leaves above 2^49, e.g. 2^49 + 1 leaves were given height 49.
---
 merkle/src/tree_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index afca632..fd0cc26 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -356,7 +356,7 @@ fn calculate_height(size: usize) -> u32 {
     if size < 2 {
         0
     } else {
-        (size as f64).log2().ceil() as u32
+        usize::BITS - (size - 1).leading_zeros()
     }
 }
 
-- 
2.43.0


From 691676c3a0b2e125b7a22ace5fc8d7c393afa985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:05 +0000
Subject: [PATCH 18/35] fix: get_proof panicked for a merkle tree with a single
 leaf

calculate_parent_index was called with the index of the root.
---
 merkle/src/tree_impl.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index fd0cc26..e370540 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -121,6 +121,10 @@ where
             let mut peer_hashes = Vec::with_capacity(capacity);
             let (item, _) = &self.leafs[index];
             let index_with_offset = index_offset + index;
+            // The only leaf of a tree of height 0 is the root, it has no siblings to prove it with
+            if index_with_offset == 0 {
+                return None;
+            }
             // 2. Gets the index and hash of its sibling in the tree, and push to the proof vec
             let peer_index = if index % 2 == 0 { index + 1 } else { index - 1 };
             let peer_index_with_offset = index_offset + peer_index;
@@ -133,7 +137,13 @@ where
             peer_hashes.push(peer_hash);
             // 3. Gets the index of their parent node and point the cursor to it
             // parent_index is the index of the actual tree with the variable height
-            let mut parent_index = calculate_parent_index(self.nodes.len() + index);
+            // (a single leaf is the root of that tree and only has virtual parents)
+            let node_index = self.nodes.len() + index;
+            let mut parent_index = if node_index > 0 {
+                calculate_parent_index(node_index)
+            } else {
+                0
+            };
             // and parent_index_with_offset is the index of the virtual tree with possible fixed height
             // when the fixed height equals to the variable height, parent_index equals to parent_index_with_offset
             let mut parent_index_with_offset = calculate_parent_index(index_with_offset);
-- 
2.43.0


From 5e43f3381ebb847ac08d94652477c80960b8fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:08 +0000
Subject: [PATCH 19/35] fix: a merkle proof could be verified at the wrong
 index, or panic

Adjacent nodes that are not siblings were accepted, so the proof of the leaf at index i
also verified as one of its neighbour, and a proof with too many or too few siblings panicked
or was folded up to a node that is not the root.
---
 merkle/src/metadata.rs |  2 +-
 merkle/src/proof.rs    | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index 2c42cd4..1cfa07d 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -31,7 +31,7 @@ impl MerkleTreeNodeMetadata {
     }
 }
 
-fn depth<const DEGREE: usize>(index: usize) -> u32 {
+pub(crate) fn depth<const DEGREE: usize>(index: usize) -> u32 {
     let mut depth = 0;
     let mut node = index;
     while node > 0 {
diff --git a/merkle/src/proof.rs b/merkle/src/proof.rs
index 309a761..1cba93c 100644
--- a/merkle/src/proof.rs
+++ b/merkle/src/proof.rs
@@ -5,7 +5,7 @@
 
 use std::{error::Error, marker::PhantomData};
 
-use crate::*;
+use crate::{metadata::depth, *};
 
 /// Merkle proof trait of a single leaf node, for details refer to <https://www.webopedia.com/definitions/merkle-proof/>
 pub trait MerkleProof {
@@ -111,6 +111,12 @@ where
     fn root_hash(&self) -> Result<Hash, Self::Error> {
         // index of a data node should always to positive
         if self.index > 0 {
+            // There should be exactly one sibling on each level below the root
+            if self.peer_indices.len() != depth::<2>(self.index) as usize
+                || self.peer_hashes.len() != self.peer_indices.len()
+            {
+                return Err(MerkleProofError::InvalidProof);
+            }
             // 1. Get the index and hash of the data node
             let mut index = self.index;
             let mut hash_opt = Some(Hasher::hash(
@@ -156,9 +162,10 @@ fn get_ordered_siblings<Hash>(
     sibling_index: usize,
     sibling_hash: Option<Hash>,
 ) -> Result<[Option<Hash>; 2], MerkleProofError> {
-    if index + 1 == sibling_index {
+    // A left child has an odd index
+    if index % 2 == 1 && index.checked_add(1) == Some(sibling_index) {
         Ok([hash, sibling_hash])
-    } else if index == sibling_index + 1 {
+    } else if index % 2 == 0 && sibling_index == index - 1 {
         Ok([sibling_hash, hash])
     } else {
         Err(MerkleProofError::InvalidProof)
-- 
2.43.0


From 66785307c0d29381381ec6689cf8e51db822230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:10 +0000
Subject: [PATCH 20/35] fix: MerklePath::to_proof panicked on an empty or too
 long path

---
 merkle/src/path.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkle/src/path.rs b/merkle/src/path.rs
index 7da57fc..f441c76 100644
--- a/merkle/src/path.rs
+++ b/merkle/src/path.rs
@@ -47,6 +47,9 @@ impl MerklePath {
         Hasher: MerkleHasher<Item = Item, Hash = Fp>,
         Merger: MerkleMerger<Hash = Fp>,
     {
+        if self.0.is_empty() || self.0.len() >= usize::BITS as usize {
+            return Err(anyhow::Error::msg("Invalid path, bad number of nodes"));
+        }
         let mut peer_indices = Vec::with_capacity(self.0.len());
         let mut peer_hashes = Vec::with_capacity(self.0.len());
         let mut row_index = 0;
-- 
2.43.0


From 4cf2b6e858d869b099add05a4e2c9f81b4974816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:19 +0000
Subject: [PATCH 21/35] fix: pushing a block onto a chain of the maximum height
 panicked

---
 consensus/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index b07b709..afbc645 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -67,7 +67,7 @@ where
         match self.0.len() {
             0 => (),
             n => {
-                if new.get_height().0 != self.0[n - 1].get_height().0 + 1 {
+                if Some(new.get_height().0) != self.0[n - 1].get_height().0.checked_add(1) {
                     return Err(ConsensusError::InvalidHeight);
                 }
             }
-- 
2.43.0


From b91f12037de42a44a2acdd4e35556ec8c3933d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:22 +0000
Subject: [PATCH 22/35] fix: a block with an empty epoch no longer panics fork
 choice

---
 consensus/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index afbc645..0c8ffb7 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -105,7 +105,7 @@ where
     /// The output is the epoch slot number in [0, slots_per_epoch].
     pub fn epoch_slot(&self) -> Option<u32> {
         self.global_slot()
-            .map(|s| (s.slot_number.0 % s.slots_per_epoch.0))
+            .and_then(|s| s.slot_number.0.checked_rem(s.slots_per_epoch.0))
     }
 
     /// The function the length of a chain. The output is the length of the chain in blocks.
-- 
2.43.0


From 0dbbe5f829377ecb259ef08e72bc3f650e808640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:24 +0000
Subject: [PATCH 23/35] fix: a block with the maximum epoch count no longer
 panics fork choice

---
 consensus/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index 0c8ffb7..6376d82 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -238,7 +238,7 @@ where
         let b_prev_lock_checkpoint = &b.staking_epoch_data.lock_checkpoint;
 
         let check = |s1: &ConsensusState, s2: &ConsensusState, s2_epoch_slot: Option<u32>| {
-            if s1.epoch_count.0 == s2.epoch_count.0 + 1
+            if Some(s1.epoch_count.0) == s2.epoch_count.0.checked_add(1)
                 && s2_epoch_slot >= Some(self.config().slots_per_epoch.0 * 2 / 3)
             {
                 // S1 is one epoch ahead of S2 and S2 is not in the seed update range
-- 
2.43.0


From dd4b728d1af32c57c1e80d14bb6ab8c017abbafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:27 +0000
Subject: [PATCH 24/35] fix: the sum of sub window densities does not overflow

---
 consensus/src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index 6376d82..fc0f415 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -320,7 +320,9 @@ where
         };
 
         // compute projected window density
-        let projected_window_density = projected_window.iter().map(|s| s.0).sum();
+        let projected_window_density = projected_window
+            .iter()
+            .fold(0, |sum: u32, s| sum.saturating_add(s.0));
 
         // compute minimum window density
         Ok(min(
-- 
2.43.0


From 83df40a723fd84c3fb8b5297c7e8489b858a22df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 25/35] fix: do not allocate a field name per announced map
 entry

---
 protocol/bin-prot/src/de.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index b91e05f..ffbdfaf 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -303,10 +303,10 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
         V: Visitor<'de>,
     {
         // we can't know the field names (and don't need to) if we are deserializing in
-        // stronly typed mode. To make everything work just add some dummy field names
+        // stronly typed mode. To make everything work just use dummy field names. The length is
+        // untrusted, so they are made up one by one as the fields are read
         let len: usize = self.rdr.bin_read_nat0()?;
-        let dummy_fields = std::iter::repeat("".to_string()).take(len).collect();
-        visitor.visit_map(MapAccess::new(self, dummy_fields))
+        visitor.visit_map(MapAccess::unnamed(self, len))
     }
 
     // Structs look just like sequences
@@ -508,11 +508,25 @@ impl_variant_access!(LooselyTyped, PolyvarEnum);
 pub(crate) struct MapAccess<'a, R: Read + 'a, Mode> {
     de: &'a mut Deserializer<R, Mode>,
     field_names: Vec<String>, // field names should be stored as a stack (first element last)
+    unnamed: usize,           // number of fields without a name that follow
 }
 
 impl<'a, R: Read + 'a, Mode> MapAccess<'a, R, Mode> {
+    #[cfg(feature = "loose_deserialization")]
     pub fn new(de: &'a mut Deserializer<R, Mode>, field_names: Vec<String>) -> Self {
-        Self { de, field_names }
+        Self {
+            de,
+            field_names,
+            unnamed: 0,
+        }
+    }
+
+    pub fn unnamed(de: &'a mut Deserializer<R, Mode>, len: usize) -> Self {
+        Self {
+            de,
+            field_names: Vec::new(),
+            unnamed: len,
+        }
     }
 }
 
@@ -529,6 +543,9 @@ macro_rules! impl_map_access {
                     // create a new deserializer to read the name from memory
                     // as it isn't present in the serialized output
                     seed.deserialize(name.into_deserializer()).map(Some)
+                } else if self.unnamed > 0 {
+                    self.unnamed -= 1;
+                    seed.deserialize("".into_deserializer()).map(Some)
                 } else {
                     Ok(None)
                 }
@@ -542,7 +559,7 @@ macro_rules! impl_map_access {
             }
 
             fn size_hint(&self) -> Option<usize> {
-                Some(self.field_names.len())
+                Some(self.field_names.len().saturating_add(self.unnamed))
             }
         }
     };
-- 
2.43.0


From c3935b0017900f357456ce3e41da53db9cb6952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:21 +0000
Subject: [PATCH 26/35] fix: the hashed form of AuthRequired::Both differs from
 that of Proof

A permission that demands both a proof and a signature was encoded with
signature_necessary unset, which is the encoding of Proof, so two accounts
with different permissions had the same hash.
---
 base/src/account/permissions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index a6da7e2..9366f2b 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -31,7 +31,8 @@ impl ToChunkedROInput for AuthRequired {
     fn to_chunked_roinput(&self) -> ChunkedROInput {
         let mut roi = ChunkedROInput::new();
         let constant = matches!(self, Self::Impossible | Self::None);
-        let signature_necessary = matches!(self, Self::Impossible | Self::Signature);
+        let signature_necessary =
+            matches!(self, Self::Impossible | Self::Signature | Self::Both);
         let signature_sufficient = matches!(self, Self::Either | Self::Signature | Self::None);
         for b in [constant, signature_necessary, signature_sufficient] {
             let mut bits = BitVec::with_capacity(1);
-- 
2.43.0


From 9dfb9cf67d4c459ffa8ba5ecb31c04cb125b2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 27/35] fix: read incrementNonce from its own key of a GraphQL
 account

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index 9366f2b..0f29825 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -134,7 +134,7 @@ impl FromGraphQLJson for Permissions {
                 json["setTokenSymbol"].as_str().unwrap_or_default(),
             )?,
             increment_nonce: AuthRequired::from_str(
-                json["editState"].as_str().unwrap_or_default(),
+                json["incrementNonce"].as_str().unwrap_or_default(),
             )?,
             set_voting_for: AuthRequired::from_str(
                 json["setVotingFor"].as_str().unwrap_or_default(),
-- 
2.43.0


From 487fd371695ed32246e1e6461af540df1a701ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:37 +0000
Subject: [PATCH 28/35] fix: refuse hex field elements that are not 32 bytes
 instead of panicking

---
 protocol/serialization-types/src/field_and_curve_elements.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/field_and_curve_elements.rs b/protocol/serialization-types/src/field_and_curve_elements.rs
index c034ac8..651ee9f 100644
--- a/protocol/serialization-types/src/field_and_curve_elements.rs
+++ b/protocol/serialization-types/src/field_and_curve_elements.rs
@@ -139,8 +139,9 @@ impl FieldElementJson {
     pub fn try_from_hex_str(s: impl AsRef<[u8]>) -> Result<Self, hex::FromHexError> {
         let s = skip_0x_prefix_when_needed(s.as_ref());
         let bytes = hex::decode(s)?;
-        let mut b32 = [0; 32];
-        b32.copy_from_slice(&bytes);
+        let b32: [u8; 32] = bytes
+            .try_into()
+            .map_err(|_| hex::FromHexError::InvalidStringLength)?;
         Ok(Self(b32))
     }
 }
-- 
2.43.0


From 0c65771d7d0b92db1f802ebe7e52d7407a80d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:40 +0000
Subject: [PATCH 29/35] fix: refuse amounts with over 9 decimals, a signed
 fraction or out of range

---
 base/src/numbers.rs                        | 10 +++++++++-
 protocol/serialization-types/src/common.rs | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/base/src/numbers.rs b/base/src/numbers.rs
index 5c77097..316c652 100644
--- a/base/src/numbers.rs
+++ b/base/src/numbers.rs
@@ -143,10 +143,18 @@ impl std::str::FromStr for Amount {
             .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))?
             .parse()?;
         let r_str = iter.next().unwrap_or("0");
+        // at most 9 decimal places can be represented, and nothing else than digits is a fraction
+        if r_str.len() > 9 || !r_str.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(Self::Err::ErrorInvalidFormat(s.to_string()));
+        }
         let r: u64 = format!("{:0<9}", r_str).parse()?;
         if iter.next().is_none() {
             // ensure there isn't more to parse as that is undefined
-            Ok(Amount(r + MINA_PRECISION * q))
+            MINA_PRECISION
+                .checked_mul(q)
+                .and_then(|n| n.checked_add(r))
+                .map(Amount)
+                .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))
         } else {
             Err(Self::Err::ErrorInvalidFormat(s.to_string()))
         }
diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 37ca787..a594430 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -119,12 +119,24 @@ impl<'de> Deserialize<'de> for DecimalJson {
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
         let r_str = iter.next().unwrap_or("0");
+        // at most 9 decimal places can be represented, and nothing else than digits is a fraction
+        if r_str.len() > 9 || !r_str.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(<D::Error as serde::de::Error>::custom(format!(
+                "Invalid string: {s}"
+            )));
+        }
         let r: u64 = format!("{:0<9}", r_str)
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
         if iter.next().is_none() {
             // ensure there isn't more to parse as that is undefined
-            Ok(Self(r + MINA_PRECISION * q))
+            MINA_PRECISION
+                .checked_mul(q)
+                .and_then(|n| n.checked_add(r))
+                .map(Self)
+                .ok_or_else(|| {
+                    <D::Error as serde::de::Error>::custom(format!("Amount out of range: {s}"))
+                })
         } else {
             Err(<D::Error as serde::de::Error>::custom(format!(
                 "Invalid string: {s}"
-- 
2.43.0


From ccc41e62ce3024f31693251e9851721e4e5ee7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:42 +0000
Subject: [PATCH 30/35] fix: write and read any byte as a JSON character,
 refuse other strings

---
 protocol/serialization-types/src/common.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index a594430..f6cf44f 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -203,8 +203,7 @@ impl Serialize for CharJson {
     where
         S: Serializer,
     {
-        let s = unsafe { String::from_utf8_unchecked(vec![self.0]) };
-        serializer.serialize_str(&s)
+        serializer.serialize_char(char::from(self.0))
     }
 }
 
@@ -214,7 +213,13 @@ impl<'de> Deserialize<'de> for CharJson {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        Ok(s.as_bytes()[0].into())
+        let mut chars = s.chars();
+        match (chars.next().map(u8::try_from), chars.next()) {
+            (Some(Ok(c)), None) => Ok(Self(c)),
+            _ => Err(<D::Error as serde::de::Error>::custom(format!(
+                "Invalid char: {s}"
+            ))),
+        }
     }
 }
 
-- 
2.43.0


From 214fa3f5955c94dd53704fb5f77ba7dac139d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 31/35] fix: refuse tagged enum documents that are no non-empty
 array instead of panicking

---
 protocol/serialization-types/src/macros.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/macros.rs b/protocol/serialization-types/src/macros.rs
index 9b987f3..58e01fb 100644
--- a/protocol/serialization-types/src/macros.rs
+++ b/protocol/serialization-types/src/macros.rs
@@ -103,7 +103,11 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                 let v = ::serde_json::Value::deserialize(deserializer)?;
                 if let Some(array) = v.as_array() {
                     let e: $tp = match array.len() {
-                        0 => panic!("Non-empty array expected"),
+                        0 => {
+                            return Err(<D::Error as ::serde::de::Error>::custom(
+                                "Non-empty array expected",
+                            ))
+                        }
                         1 => ::serde_json::from_value(array[0].clone())
                             .map_err(<D::Error as ::serde::de::Error>::custom)?,
                         2 => {
@@ -121,7 +125,7 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                     };
                     Ok(e.into())
                 } else {
-                    panic!("Array expected")
+                    Err(<D::Error as ::serde::de::Error>::custom("Array expected"))
                 }
             }
         }
-- 
2.43.0


From c2521ed474e437ec84fa48f8f31f81f0db74799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 32/35] fix: take the text of a short memo without panicking

---
 base/src/user_commands/memo.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 75dd22c..111353a 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -40,8 +40,9 @@ impl SignedCommandMemo {
 
     /// Convert into text
     pub fn to_text(&self) -> String {
-        let len = self.0[1] as usize;
-        String::from_utf8_lossy(&self.0[2..(2 + len)]).into()
+        let len = self.0.get(1).copied().unwrap_or_default() as usize;
+        let text: Vec<u8> = self.0.iter().skip(2).take(len).copied().collect();
+        String::from_utf8_lossy(&text).into()
     }
 }
 
-- 
2.43.0


From 191f8dbe554e340b3741f8785110c96c9663926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 33/35] fix: decoding with a layout that has unsupported rules
 returns an error instead of panicking

---
 protocol/bin-prot/src/loose_deserializer.rs    | 8 ++++----
 protocol/bin-prot/src/value/layout/traverse.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 934e39b..448e114 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -65,15 +65,15 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                                     Polyvar::Tagged(t) => {
                                         // return the first tagged variant where the tag matches
                                         if t.hash == tag {
-                                            Some((i, t))
+                                            Some(Ok((i, t)))
                                         } else {
                                             None
                                         }
                                     }
-                                    Polyvar::Inherited(_) => unimplemented!(), // don't know how to handle these yet
+                                    Polyvar::Inherited(_) => Some(Err(Error::UnimplementedRule)), // don't know how to handle these yet
                                 }
                             })
-                            .ok_or(Error::UnknownPolyvarTag(tag))?;
+                            .ok_or(Error::UnknownPolyvarTag(tag))??;
                         self.mode
                             .layout_iter
                             .push(vec![BinProtRule::Tuple(variant.clone().polyvar_args)]);
@@ -134,7 +134,7 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                             | "Pickles_types.Vector.Vector8"
                             | "Pickles_types.Vector.Vector17"
                             | "Pickles_types.Vector.Vector18" => {
-                                let element_rule = rules.first().unwrap();
+                                let element_rule = rules.first().ok_or(Error::LayoutIteratorError)?;
                                 let len = match path.as_str() {
                                     "Pickles_type.Vector.Vector2"
                                     | "Pickles_types.Vector.Vector2" => 2,
diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 41b7c0d..abd4819 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -62,7 +62,7 @@ impl Iterator for BinProtRuleIterator {
                     }
                     BinProtRule::Reference(rule_ref) => match rule_ref {
                         RuleRef::Unresolved(_payload) => {
-                            unimplemented!();
+                            // handed out as it is, the code driving the iterator must refuse it
                         }
                         RuleRef::Resolved(payload) => {
                             self.stack.push((*payload.ref_rule, 1));
@@ -85,7 +85,7 @@ impl Iterator for BinProtRuleIterator {
                             return Some(BinProtRule::CustomForPath(path.to_string(), rules));
                         }
                     }
-                    _ => unimplemented!(),
+                    _ => {} // not implemented, the code driving the iterator must refuse these
                 };
                 r
             }
-- 
2.43.0


From 83c5cae2333d44c187d19fde4f81dd1c228701d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 34/35] fix: the layout's constructor is chosen by its index,
 not by its place in the list

---
 protocol/bin-prot/src/loose_deserializer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 448e114..5516917 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -47,9 +47,10 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                         // when deserializing the variants data
                         let index = self.rdr.bin_read_variant_index()?;
                         let summand = summands
-                            .get(index as usize)
-                            .cloned()
-                            .ok_or(Error::LayoutIteratorError)?;
+                            .iter()
+                            .find(|s| s.index == index as i32)
+                            .ok_or(Error::LayoutIteratorError)?
+                            .clone();
                         self.mode
                             .layout_iter
                             .push(vec![BinProtRule::Tuple(summand.ctor_args.clone())]);
-- 
2.43.0


From eb49052d43f4517362f4fa56e828ae1ca8e03616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:31 +0000
Subject: [PATCH 35/35] fix: a polymorphic variant past the 256th decoded to
 another variant

---
 protocol/bin-prot/src/de.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index ffbdfaf..681e100 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -9,7 +9,11 @@ use crate::value::layout::*;
 use crate::ReadBinProtExt;
 use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
-use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
+use serde::de::{
+    self,
+    value::{U64Deserializer, U8Deserializer},
+    EnumAccess, IntoDeserializer, Visitor,
+};
 use serde::Deserialize;
 use std::io::{BufReader, Read};
 
@@ -392,7 +396,7 @@ macro_rules! impl_polyvar_enum_access {
     ($ty: ty) => {
         impl<'de, 'a, R: Read> EnumAccess<'de> for PolyvarEnum<'a, R, $ty> {
             type Error = Error;
-            type Variant = Enum<'a, R, StronglyTyped>;
+            type Variant = Self;
 
             fn variant_seed<V>(self, seed: V) -> Result<(V::Value, Self::Variant)>
             where
@@ -412,9 +416,9 @@ macro_rules! impl_polyvar_enum_access {
                         }
                     })
                     .ok_or(Error::UnknownPolyvarTag(self.hash))?;
-                let de: U8Deserializer<Self::Error> = (index as u8).into_deserializer();
+                let de: U64Deserializer<Self::Error> = (index as u64).into_deserializer();
                 let v = seed.deserialize(de)?;
-                Ok((v, Enum::new(self.de, index as u8)))
+                Ok((v, self))
             }
         }
     };
-- 
2.43.0


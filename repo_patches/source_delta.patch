From aafdcf26f9e5a3e30e25dcb2509cc49129706dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 01/38] fix: encode and decode the minimum varint value

---
 crates/zserio/src/ztype/varint_bitsize.rs | 7 ++++++-
 crates/zserio/src/ztype/varint_decode.rs  | 4 ++++
 crates/zserio/src/ztype/varint_encode.rs  | 4 ++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/varint_bitsize.rs b/crates/zserio/src/ztype/varint_bitsize.rs
index bafd68f..9517319 100644
--- a/crates/zserio/src/ztype/varint_bitsize.rs
+++ b/crates/zserio/src/ztype/varint_bitsize.rs
@@ -17,8 +17,13 @@ pub fn varint_bitsize(v: i64) -> Result<u8> {
 }
 
 pub fn signed_bitsize(mut v: i64, max_bytes: u8) -> Result<u8> {
+    if v == i64::MIN && max_bytes == 9 {
+        // the minimum varint value has a dedicated single byte encoding (0x80)
+        return Ok(8);
+    }
     if v < 0 {
-        v = -v
+        // i64::MIN has no absolute value, it is too large for all types but varint
+        v = v.saturating_neg()
     }
 
     let mut max: i64 = (1 << 6) - 1;
diff --git a/crates/zserio/src/ztype/varint_decode.rs b/crates/zserio/src/ztype/varint_decode.rs
index 3dbd4fb..80cf389 100644
--- a/crates/zserio/src/ztype/varint_decode.rs
+++ b/crates/zserio/src/ztype/varint_decode.rs
@@ -19,6 +19,10 @@ pub fn read_varint(reader: &mut BitReader) -> Result<i64> {
 
 fn read_sized_int(reader: &mut BitReader, bit_length: u8) -> Result<i64> {
     let mut b = reader.read_u8(8)?;
+    if b == 0x80 && bit_length == 9 {
+        // "negative zero" is the encoding of the minimum varint value
+        return Ok(i64::MIN);
+    }
     let is_negative = (b & 0x80) != 0;
     let mut has_next_byte = (b & 0x40) != 0;
     let mut value = (b & (0x3f)) as i64;
diff --git a/crates/zserio/src/ztype/varint_encode.rs b/crates/zserio/src/ztype/varint_encode.rs
index 8f590de..308eca9 100644
--- a/crates/zserio/src/ztype/varint_encode.rs
+++ b/crates/zserio/src/ztype/varint_encode.rs
@@ -19,9 +19,9 @@ pub fn write_varint(writer: &mut BitWriter, v: i64) -> Result<()> {
 }
 
 pub fn write_varint_type(writer: &mut BitWriter, v: i64, max_bytes: u8) -> Result<()> {
-    let abs_value = if v < 0 { -v as u64 } else { v as u64 };
-
     let needed_bytes = signed_bitsize(v, max_bytes)? / 8;
+    // the minimum value of varint is encoded as "negative zero"
+    let abs_value = if v == i64::MIN { 0 } else { v.unsigned_abs() };
 
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
-- 
2.43.0


From 21905468d88d09daca909e2f6de5301bfe00e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 02/38] fix: refuse unsigned values out of range with an error
 instead of a panic

---
 crates/zserio/src/ztype/varuint_bitsize.rs |  4 ++++
 crates/zserio/src/ztype/varuint_encode.rs  | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/zserio/src/ztype/varuint_bitsize.rs b/crates/zserio/src/ztype/varuint_bitsize.rs
index 63f7455..8cdba5a 100644
--- a/crates/zserio/src/ztype/varuint_bitsize.rs
+++ b/crates/zserio/src/ztype/varuint_bitsize.rs
@@ -1,4 +1,5 @@
 use crate::error::{Result, ZserioError};
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 
 pub fn varuint16_bitsize(v: u16) -> Result<u8> {
     unsigned_bitsize(v as u64, 2)
@@ -17,6 +18,9 @@ pub fn varuint_bitsize(v: u64) -> Result<u8> {
 }
 
 pub fn varsize_bitsize(v: u32) -> Result<u8> {
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     unsigned_bitsize(v as u64, 5)
 }
 
diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index e8d422b..fedef02 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -1,8 +1,8 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::unsigned_bitsize;
 use rust_bitwriter::BitWriter;
 
-const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
+pub(crate) const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
 
 pub fn write_varuint16(writer: &mut BitWriter, v: u16) -> Result<()> {
     write_varuint_type(writer, v as u64, 2)
@@ -22,12 +22,14 @@ pub fn write_varuint(writer: &mut BitWriter, v: u64) -> Result<()> {
 
 // write_varsize writes a zserio varsize value to the bitstream.
 pub fn write_varsize(writer: &mut BitWriter, v: u32) -> Result<()> {
-    assert!(v <= MAX_VARSIZE);
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     write_varuint_type(writer, v as u64, 5)
 }
 
 pub fn write_varuint_type(writer: &mut BitWriter, v: u64, max_bytes: u8) -> Result<()> {
-    let needed_bytes = unsigned_bitsize(v, max_bytes).unwrap() / 8;
+    let needed_bytes = unsigned_bitsize(v, max_bytes)? / 8;
 
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
-- 
2.43.0


From c572215122820e65bd0160147042f9cbbc92d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 03/38] fix: refuse varsize values above the maximum when
 reading

---
 crates/zserio/src/ztype/varuint_decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/varuint_decode.rs b/crates/zserio/src/ztype/varuint_decode.rs
index e06d1c9..46ace19 100644
--- a/crates/zserio/src/ztype/varuint_decode.rs
+++ b/crates/zserio/src/ztype/varuint_decode.rs
@@ -1,8 +1,12 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 use bitreader::BitReader;
 
 pub fn read_varsize(reader: &mut BitReader) -> Result<u32> {
-    read_sized_uint(reader, 5).map(|v| v as u32)
+    match read_sized_uint(reader, 5)? {
+        v if v <= MAX_VARSIZE as u64 => Ok(v as u32),
+        _ => Err(ZserioError::DataDoesNotFit),
+    }
 }
 
 pub fn read_varuint16(reader: &mut BitReader) -> Result<u16> {
-- 
2.43.0


From dc62fb77b0a1a4a064842a1074f3682e30c9c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 04/38] fix: count string array elements in bits

---
 crates/zserio/src/ztype/array_traits/string_array_trait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index c6634a6..dd74c6b 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -1,8 +1,8 @@
 use crate::error::Result;
 use crate::ztype::array_traits::array_trait;
 use crate::ztype::array_traits::packing_context_node::PackingContextNode;
+use crate::ztype::bitsize_string;
 use crate::ztype::read_string;
-use crate::ztype::varsize_bitsize;
 use crate::ztype::write_string;
 use bitreader::BitReader;
 use rust_bitwriter::BitWriter;
@@ -19,7 +19,7 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &String) -> Result<u64> {
-        Ok(value.len() as u64 + varsize_bitsize(value.len() as u32)? as u64)
+        bitsize_string(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &String) -> Result<u64> {
-- 
2.43.0


From 6f3d763c0450c3c768b459deeb9747d3291e66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 05/38] fix: do not truncate array and string lengths above the
 varsize maximum

---
 crates/zserio/src/ztype/array.rs          | 8 ++++----
 crates/zserio/src/ztype/string_encode.rs  | 8 ++++----
 crates/zserio/src/ztype/varuint_encode.rs | 5 +++++
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/zserio/src/ztype/array.rs b/crates/zserio/src/ztype/array.rs
index f9de41c..a0661b0 100644
--- a/crates/zserio/src/ztype/array.rs
+++ b/crates/zserio/src/ztype/array.rs
@@ -2,7 +2,7 @@ use crate::error::Result;
 use crate::ztype::array_traits::array_trait::ArrayTrait;
 use crate::ztype::read_varsize;
 use crate::ztype::varsize_bitsize;
-use crate::ztype::varuint_encode::write_varsize;
+use crate::ztype::varuint_encode::{varsize_length, write_varsize};
 use bitreader::BitReader;
 use num::traits::Unsigned;
 use rust_bitwriter::BitWriter;
@@ -60,7 +60,7 @@ impl<T> Array<T> {
             assert_eq!(expected_array_len, data.len());
         } else {
             // for auto arrays, write the length of the array
-            write_varsize(writer, data.len() as u32)?;
+            write_varsize(writer, varsize_length(data.len())?)?;
         }
 
         if data.is_empty() {
@@ -171,7 +171,7 @@ impl<T> Array<T> {
     ) -> Result<u64> {
         let mut end_position = bit_position;
         if self.fixed_size.is_none() {
-            end_position += varsize_bitsize(data.len() as u32)? as u64;
+            end_position += varsize_bitsize(varsize_length(data.len())?)? as u64;
         }
         if !data.is_empty() {
             if self.is_packed {
@@ -222,7 +222,7 @@ impl<T> Array<T> {
     ) -> Result<u64> {
         let mut end_position = bit_position;
         if self.fixed_size.is_none() {
-            end_position += varsize_bitsize(data.len() as u32)? as u64;
+            end_position += varsize_bitsize(varsize_length(data.len())?)? as u64;
         }
         if !data.is_empty() {
             let mut packing_context_node = self.array_trait.create_context();
diff --git a/crates/zserio/src/ztype/string_encode.rs b/crates/zserio/src/ztype/string_encode.rs
index 65b3346..077c496 100644
--- a/crates/zserio/src/ztype/string_encode.rs
+++ b/crates/zserio/src/ztype/string_encode.rs
@@ -1,14 +1,14 @@
 use rust_bitwriter::BitWriter;
 
 use crate::error::Result;
-use crate::ztype::unsigned_bitsize;
+use crate::ztype::varsize_bitsize;
 
-use super::varuint_encode::write_varsize;
+use super::varuint_encode::{varsize_length, write_varsize};
 
 pub fn write_string(writer: &mut BitWriter, s: &str) -> Result<()> {
     let string_bytes = s.as_bytes();
 
-    write_varsize(writer, string_bytes.len() as u32)?;
+    write_varsize(writer, varsize_length(string_bytes.len())?)?;
 
     for string_byte in string_bytes {
         writer.write_u8(*string_byte, 8)?;
@@ -17,6 +17,6 @@ pub fn write_string(writer: &mut BitWriter, s: &str) -> Result<()> {
 }
 
 pub fn bitsize_string(s: &str) -> Result<u64> {
-    let header_size = unsigned_bitsize(s.len() as u64, 5)? as u64;
+    let header_size = varsize_bitsize(varsize_length(s.len())?)? as u64;
     Ok(header_size + (s.len() * 8) as u64)
 }
diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index fedef02..2026154 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -28,6 +28,11 @@ pub fn write_varsize(writer: &mut BitWriter, v: u32) -> Result<()> {
     write_varuint_type(writer, v as u64, 5)
 }
 
+/// Converts a length to the type of a varsize value.
+pub(crate) fn varsize_length(len: usize) -> Result<u32> {
+    len.try_into().or(Err(ZserioError::DataDoesNotFit))
+}
+
 pub fn write_varuint_type(writer: &mut BitWriter, v: u64, max_bytes: u8) -> Result<()> {
     let needed_bytes = unsigned_bitsize(v, max_bytes)? / 8;
 
-- 
2.43.0


From 0cea011ae5daeae6f240d0a6634ea907f693bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 06/38] fix: report truncated string lengths as an error

---
 crates/zserio/src/ztype/string_decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/string_decode.rs b/crates/zserio/src/ztype/string_decode.rs
index 438d3a0..e35ab45 100644
--- a/crates/zserio/src/ztype/string_decode.rs
+++ b/crates/zserio/src/ztype/string_decode.rs
@@ -7,7 +7,7 @@ use crate::ztype::varuint_decode::read_varsize;
 
 pub fn read_string(reader: &mut BitReader) -> Result<String> {
     // zserio first writes the string length as a varsize uint
-    let str_len = read_varsize(reader).map(|v| v as usize).unwrap();
+    let str_len = read_varsize(reader)? as usize;
 
     if reader.remaining() < (str_len as u64 * 8) {
         return Err(ZserioError::IoError(std::io::Error::new(
-- 
2.43.0


From 99569b0b6844d01e19a538eea60c141a07aa5295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 07/38] fix: report truncated extern values as an error

---
 crates/zserio/src/ztype/extern_type.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index d04ac91..3bc38f2 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -40,9 +40,7 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
     let mut extern_bytes = read_bytes(bit_reader, num_of_full_bytes)?;
     if remaining_bits != 0 {
-        let mut last_byte = bit_reader
-            .read_u8(remaining_bits)
-            .expect("failed to read last bits");
+        let mut last_byte = bit_reader.read_u8(remaining_bits)?;
         let bit_shift = 8 - remaining_bits;
         last_byte <<= bit_shift;
         extern_bytes.push(last_byte);
-- 
2.43.0


From 37c555129384dd8b267f3407a63d4b8728a607bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 08/38] fix: report truncated packing descriptors as an error

---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 1dfce53..ff63642 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -95,7 +95,7 @@ impl DeltaContext {
     ) -> Result<()> {
         if !self.processing_started {
             self.processing_started = true;
-            self.read_descriptor(reader);
+            self.read_descriptor(reader)?;
             return self.read_unpacked(array_traits, reader, value);
         }
         if !self.is_packed {
@@ -162,14 +162,13 @@ impl DeltaContext {
         1
     }
 
-    fn read_descriptor(&mut self, reader: &mut BitReader) {
-        self.is_packed = reader
-            .read_bool()
-            .expect("failed to read if the context is packed");
+    fn read_descriptor(&mut self, reader: &mut BitReader) -> Result<()> {
+        self.is_packed = reader.read_bool()?;
         if self.is_packed {
             // read how many bits are used for the delta encoding of each element
-            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS).unwrap() as u8;
+            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS)? as u8;
         }
+        Ok(())
     }
 
     fn read_unpacked<T>(
-- 
2.43.0


From e0ae019aefda7b54c36b9d3ad52f5dbaa8a711bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 09/38] fix: compute packed deltas without arithmetic overflow

---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index ff63642..690850f 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -103,7 +103,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let delta = read_signed_bits(reader, self.max_bit_number + 1)?;
-            self.previous_element = (self.previous_element as i64 + delta) as u64;
+            self.previous_element = (self.previous_element as i64).wrapping_add(delta) as u64;
         }
         *value = array_traits.from_u64(self.previous_element);
         Ok(())
@@ -147,7 +147,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let element_as_u64 = array_traits.to_u64(element);
-            let delta = element_as_u64 as i64 - self.previous_element as i64;
+            let delta = (element_as_u64 as i64).wrapping_sub(self.previous_element as i64);
             ztype::write_signed_bits(writer, delta, self.max_bit_number + 1)?;
             self.previous_element = element_as_u64;
         }
-- 
2.43.0


From c3c0d1150bd5f1b21dd54aa8e3efb300489c1fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 10/38] fix: align bit position zero

---
 crates/zserio/src/ztype/bit_alignment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/bit_alignment.rs b/crates/zserio/src/ztype/bit_alignment.rs
index 6ff9de4..8dfbdde 100644
--- a/crates/zserio/src/ztype/bit_alignment.rs
+++ b/crates/zserio/src/ztype/bit_alignment.rs
@@ -7,7 +7,7 @@
 /// let bitcount = align_to(8, 15); // returns 16
 /// ```
 pub fn align_to(align_to_bitcount: u8, bit_position: u64) -> u64 {
-    (((bit_position - 1) / align_to_bitcount as u64) + 1) * align_to_bitcount as u64
+    bit_position.div_ceil(align_to_bitcount as u64) * align_to_bitcount as u64
 }
 
 #[cfg(test)]
-- 
2.43.0


From be015de04f147292aa1f9ff98fa7d75d80d9b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 11/38] fix: compare signed elements as signed values when
 choosing delta packing

---
 crates/zserio/src/ztype/array_traits/array_trait.rs         | 6 ++++++
 .../zserio/src/ztype/array_traits/bit_field_array_trait.rs  | 4 ++++
 crates/zserio/src/ztype/array_traits/delta_context.rs       | 2 +-
 .../zserio/src/ztype/array_traits/varint16_array_trait.rs   | 4 ++++
 .../zserio/src/ztype/array_traits/varint32_array_trait.rs   | 4 ++++
 .../zserio/src/ztype/array_traits/varint64_array_trait.rs   | 4 ++++
 crates/zserio/src/ztype/array_traits/varint_array_trait.rs  | 4 ++++
 7 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/array_traits/array_trait.rs b/crates/zserio/src/ztype/array_traits/array_trait.rs
index 591a719..8b1a491 100644
--- a/crates/zserio/src/ztype/array_traits/array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/array_trait.rs
@@ -14,6 +14,12 @@ pub trait ArrayTrait<T> {
     #[allow(clippy::wrong_self_convention)]
     fn from_u64(&self, value: u64) -> T;
 
+    /// The distance between two elements, given by their `to_u64` images. Array traits of
+    /// signed elements must override this, since their images are sign-extended.
+    fn abs_delta(&self, lhs: u64, rhs: u64) -> u64 {
+        lhs.abs_diff(rhs)
+    }
+
     // all functions below are for using packed contexts. They provide a default implementation
     // for array traits using delta contexts.
     fn create_context(&self) -> PackingContextNode {
diff --git a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
index efd5a48..3c13381 100644
--- a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
@@ -46,6 +46,10 @@ impl array_trait::ArrayTrait<name> for BitFieldArrayTrait {
         value as name
     }
 
+    fn abs_delta(&self, lhs: u64, rhs: u64) -> u64 {
+        (lhs as i64).abs_diff(rhs as i64)
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &name) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 690850f..78afaba 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -51,7 +51,7 @@ impl DeltaContext {
             self.first_element_size = self.unpacked_size;
         } else if self.max_bit_number <= MAX_BIT_NUMBER_LIMIT {
             self.is_packed = true;
-            let delta = self.previous_element.abs_diff(array_trait.to_u64(element));
+            let delta = array_trait.abs_delta(self.previous_element, array_trait.to_u64(element));
             let max_bit_number = bit_length(delta);
             if max_bit_number > self.max_bit_number {
                 self.max_bit_number = max_bit_number;
diff --git a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
index 2e9f35f..b78be7c 100644
--- a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i16> for VarInt16ArrayTrait {
         value as i16
     }
 
+    fn abs_delta(&self, lhs: u64, rhs: u64) -> u64 {
+        (lhs as i64).abs_diff(rhs as i64)
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i16) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
index 84a9fc2..714733e 100644
--- a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i32> for VarInt32ArrayTrait {
         value as i32
     }
 
+    fn abs_delta(&self, lhs: u64, rhs: u64) -> u64 {
+        (lhs as i64).abs_diff(rhs as i64)
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i32) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
index f9b03c0..ce69450 100644
--- a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i64> for VarInt64ArrayTrait {
         value as i64
     }
 
+    fn abs_delta(&self, lhs: u64, rhs: u64) -> u64 {
+        (lhs as i64).abs_diff(rhs as i64)
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i64) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
index 9d999ba..ffc3e86 100644
--- a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i64> for VarIntArrayTrait {
         value as i64
     }
 
+    fn abs_delta(&self, lhs: u64, rhs: u64) -> u64 {
+        (lhs as i64).abs_diff(rhs as i64)
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i64) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
-- 
2.43.0


From eaae2dd2103bf3df9a7cd3da866682b287d59b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 12/38] fix: report bytes and extern lengths out of range as an
 error

---
 .../zserio/src/ztype/array_traits/bit_buffer_array_trait.rs   | 2 +-
 .../zserio/src/ztype/array_traits/byte_buffer_array_trait.rs  | 2 +-
 crates/zserio/src/ztype/bytes_type.rs                         | 4 ++--
 crates/zserio/src/ztype/extern_type.rs                        | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
index cc48a22..a878e3a 100644
--- a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
@@ -17,7 +17,7 @@ impl array_trait::ArrayTrait<ztype::ExternType> for BitBufferArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &ztype::ExternType) -> Result<u64> {
-        Ok(ztype::bitsize_of_extern(value))
+        ztype::bitsize_of_extern(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &ztype::ExternType) -> Result<u64> {
diff --git a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
index 33ed52d..4a8c2e9 100644
--- a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
@@ -17,7 +17,7 @@ impl array_trait::ArrayTrait<ztype::BytesType> for ByteBufferArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &ztype::BytesType) -> Result<u64> {
-        Ok(ztype::bitsize_of_bytes(value))
+        ztype::bitsize_of_bytes(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &ztype::BytesType) -> Result<u64> {
diff --git a/crates/zserio/src/ztype/bytes_type.rs b/crates/zserio/src/ztype/bytes_type.rs
index c7d2b85..47d56bf 100644
--- a/crates/zserio/src/ztype/bytes_type.rs
+++ b/crates/zserio/src/ztype/bytes_type.rs
@@ -27,6 +27,6 @@ pub fn write_bytes_type(bit_writer: &mut BitWriter, bytes_type: &BytesType) -> R
     Ok(())
 }
 
-pub fn bitsize_of_bytes(bytes_type: &BytesType) -> u64 {
-    varsize_bitsize(bytes_type.byte_size).unwrap() as u64 + (bytes_type.byte_size as u64) * 8
+pub fn bitsize_of_bytes(bytes_type: &BytesType) -> Result<u64> {
+    Ok(varsize_bitsize(bytes_type.byte_size)? as u64 + (bytes_type.byte_size as u64) * 8)
 }
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index 3bc38f2..a5994e5 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -72,6 +72,6 @@ pub fn write_extern_type(bit_writer: &mut BitWriter, extern_type: &ExternType) -
     Ok(())
 }
 
-pub fn bitsize_of_extern(extern_type: &ExternType) -> u64 {
-    varsize_bitsize(extern_type.bit_size).unwrap() as u64 + (extern_type.bit_size as u64)
+pub fn bitsize_of_extern(extern_type: &ExternType) -> Result<u64> {
+    Ok(varsize_bitsize(extern_type.bit_size)? as u64 + (extern_type.bit_size as u64))
 }
-- 
2.43.0


From d70925758aa05358f34d1f74151a7eca77009c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 13/38] fix: report unknown union tags as an error

---
 .../zserio-rs-build/src/internal/generator/zunion.rs  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 723482e..2d18d48 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -70,18 +70,21 @@ pub fn generate_union(
     let union_selector_impl_gen_scope = codegen_scope.new_impl(&selector_type_name);
     let union_selector_from_fn_scope = union_selector_impl_gen_scope.new_fn("from_u32");
     union_selector_from_fn_scope.arg("value", "u32");
-    union_selector_from_fn_scope.ret(&selector_type_name);
+    union_selector_from_fn_scope.ret(format!("Result<{}>", selector_type_name));
     union_selector_from_fn_scope.vis("pub");
     union_selector_from_fn_scope.line("match value {");
     for (field_index, field) in zunion.fields.iter().enumerate() {
         let selector_union_name = convert_to_union_selector_name(&field.borrow().name);
         union_selector_from_fn_scope.line(format!(
-            "{} => {}::{},",
+            "{} => Ok({}::{}),",
             field_index, selector_type_name, selector_union_name
         ));
     }
 
-    union_selector_from_fn_scope.line("_ => panic!(\"unsupported value\"),");
+    union_selector_from_fn_scope.line(format!(
+        "_ => Err(zserio::ZserioError::DataError(format!(\"unexpected union tag for {}: {{}}\", value))),",
+        rust_type_name
+    ));
     union_selector_from_fn_scope.line("}");
 
     // generate the union itself
@@ -206,7 +209,7 @@ fn generate_zserio_read(
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
     zserio_read_fn.line(format!(
-        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?);",
+        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?)?;",
         rust_type_name
     ));
 
-- 
2.43.0


From 7fa17f009fb0416573cfe311a3939487548fd353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 14/38] fix: pack the tag and the selected field of unions

---
 .../src/internal/generator/zunion.rs          | 70 +++++++++++++------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 2d18d48..221522e 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -5,7 +5,9 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
     bitsize::bitsize_field, decode::decode_field, encode::encode_field,
-    file_generator::write_to_file, function::generate_function, packed_contexts::FieldDetails,
+    file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
+    packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::convert_to_union_selector_name, types::TypeGenerator,
 };
 use codegen::{Function, Scope, Struct};
@@ -130,11 +132,30 @@ pub fn generate_union(
     // Generate the packed contexts.
     let create_packing_context_fn = union_impl.new_fn("zserio_create_packing_context");
     create_packing_context_fn.arg("context_node", "&mut PackingContextNode");
+    // The first child holds the context of the union tag, the fields follow.
+    create_packing_context_fn.line("context_node.children.push(PackingContextNode { children: vec![], context: Some(DeltaContext::new()), });");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        generate_packed_context_for_field(
+            create_packing_context_fn,
+            &FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator),
+        );
+    }
 
     let init_packing_context_fn = union_impl.new_fn("zserio_init_packing_context");
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
+    init_packing_context_fn.line("context_node.children[0].context.as_mut().unwrap().init(&ztype::array_traits::VarSizeArrayTrait {}, &(self.union_selector as u32))?;");
+    generate_union_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zunion,
+        None,
+        &|scope, type_generator, function, field, _| {
+            generate_init_packed_context_for_field(scope, type_generator, function, field)
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -162,7 +183,7 @@ pub fn generate_union_match_construct(
     type_generator: &mut TypeGenerator,
     code_gen_fn: &mut codegen::Function,
     zunion: &ZUnion,
-    packed: bool,
+    packed: Option<bool>,
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
 ) {
     let rust_type_name = TypeGenerator::to_rust_type_name(&zunion.name);
@@ -176,21 +197,24 @@ pub fn generate_union_match_construct(
             convert_to_union_selector_name(&field.borrow().name)
         ));
         let field_details =
-            FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-        instantiate_zserio_array(
-            symbol_scope,
-            type_generator,
-            code_gen_fn,
-            &field.borrow(),
-            packed,
-            field_details.is_packable,
-        );
+            FieldDetails::from_field(field, context_node_index + 1, symbol_scope, type_generator);
+        // Nothing is read or written when the packing context is initialized.
+        if let Some(packed) = packed {
+            instantiate_zserio_array(
+                symbol_scope,
+                type_generator,
+                code_gen_fn,
+                &field.borrow(),
+                packed,
+                field_details.is_packable,
+            );
+        }
         f(
             symbol_scope,
             type_generator,
             code_gen_fn,
             &field_details,
-            packed,
+            packed.unwrap_or(false),
         );
         code_gen_fn.line("},");
     }
@@ -218,7 +242,7 @@ fn generate_zserio_read(
         type_generator,
         zserio_read_fn,
         union,
-        false,
+        Some(false),
         &decode_field,
     );
     zserio_read_fn.line("Ok(())");
@@ -228,12 +252,18 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
+    zserio_read_packed_fn.line("let mut union_tag: u32 = 0;");
+    zserio_read_packed_fn.line("context_node.children[0].context.as_mut().unwrap().read(&ztype::array_traits::VarSizeArrayTrait {}, reader, &mut union_tag)?;");
+    zserio_read_packed_fn.line(format!(
+        "self.union_selector = {}Selector::from_u32(union_tag)?;",
+        rust_type_name
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
         zserio_read_packed_fn,
         union,
-        true,
+        Some(true),
         &decode_field,
     );
     zserio_read_packed_fn.line("Ok(())");
@@ -255,7 +285,7 @@ fn generate_zserio_write(
         type_generator,
         zserio_write_fn,
         union,
-        false,
+        Some(false),
         &encode_field,
     );
     zserio_write_fn.line("Ok(())");
@@ -265,14 +295,13 @@ fn generate_zserio_write(
     zserio_write_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_write_packed_fn.arg("writer", "&mut BitWriter");
     zserio_write_packed_fn.ret("Result<()>");
-    zserio_write_packed_fn
-        .line("ztype::write_varsize(writer, self.union_selector as u32)?;".to_string());
+    zserio_write_packed_fn.line("context_node.children[0].context.as_mut().unwrap().write(&ztype::array_traits::VarSizeArrayTrait {}, writer, &(self.union_selector as u32))?;");
     generate_union_match_construct(
         symbol_scope,
         type_generator,
         zserio_write_packed_fn,
         union,
-        true,
+        Some(true),
         &encode_field,
     );
     zserio_write_packed_fn.line("Ok(())");
@@ -295,7 +324,7 @@ fn generate_zserio_bitsize(
         type_generator,
         bitsize_fn,
         union,
-        false,
+        Some(false),
         &bitsize_field,
     );
     bitsize_fn.line("Ok(end_position - bit_position)");
@@ -306,12 +335,13 @@ fn generate_zserio_bitsize(
     bitsize_packed_fn.arg("context_node", "&mut PackingContextNode");
     bitsize_packed_fn.arg("bit_position", "u64");
     bitsize_packed_fn.line("let mut end_position = bit_position;");
+    bitsize_packed_fn.line("end_position += context_node.children[0].context.as_mut().unwrap().bitsize_of(&ztype::array_traits::VarSizeArrayTrait {}, end_position, &(self.union_selector as u32))?;");
     generate_union_match_construct(
         symbol_scope,
         type_generator,
         bitsize_packed_fn,
         union,
-        true,
+        Some(true),
         &bitsize_field,
     );
     bitsize_packed_fn.line("Ok(end_position - bit_position)");
-- 
2.43.0


From 5cbe7ba3651397ec1a50dcf8effafdbdcd0561b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 15/38] fix: generate a block for the default case of choices

---
 crates/zserio-rs-build/src/internal/generator/zchoice.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 826b178..66f5e1f 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -180,7 +180,7 @@ pub fn generate_choice_match_construct(
         code_gen_fn.line("},");
     }
     if let Some(default_case) = &zchoice.default_case {
-        code_gen_fn.line("_ => (");
+        code_gen_fn.line("_ => {");
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
@@ -189,7 +189,7 @@ pub fn generate_choice_match_construct(
                 type_generator,
                 code_gen_fn,
                 &field.borrow(),
-                false,
+                packed,
                 default_field.is_packable,
             );
             f(
@@ -200,7 +200,7 @@ pub fn generate_choice_match_construct(
                 packed,
             );
         }
-        code_gen_fn.line("),");
+        code_gen_fn.line("},");
     } else {
         code_gen_fn.line("_ => (),");
     }
-- 
2.43.0


From 8471e6f9277410b20f0d77898ae503d8e68badba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 16/38] fix: initialize the packing context of the selected
 choice case only

---
 .../src/internal/generator/zchoice.rs         | 74 ++++++++++---------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 66f5e1f..cabee24 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -101,14 +101,16 @@ pub fn generate_choice(
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
-    for field in &field_details {
-        generate_init_packed_context_for_field(
-            symbol_scope,
-            type_generator,
-            init_packing_context_fn,
-            field,
-        );
-    }
+    generate_choice_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zchoice,
+        None,
+        &|scope, type_generator, function, field, _| {
+            generate_init_packed_context_for_field(scope, type_generator, function, field)
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -136,7 +138,7 @@ pub fn generate_choice_match_construct(
     type_generator: &mut TypeGenerator,
     code_gen_fn: &mut Function,
     zchoice: &ZChoice,
-    packed: bool,
+    packed: Option<bool>,
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
 ) {
     let selector_name =
@@ -160,21 +162,24 @@ pub fn generate_choice_match_construct(
         if let Some(field) = &case.field {
             let field_details =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-            instantiate_zserio_array(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field.borrow(),
-                packed,
-                field_details.is_packable,
-            );
+            // Nothing is read or written when the packing context is initialized.
+            if let Some(packed) = packed {
+                instantiate_zserio_array(
+                    symbol_scope,
+                    type_generator,
+                    code_gen_fn,
+                    &field.borrow(),
+                    packed,
+                    field_details.is_packable,
+                );
+            }
             context_node_index += 1;
             f(
                 symbol_scope,
                 type_generator,
                 code_gen_fn,
                 &field_details,
-                packed,
+                packed.unwrap_or(false),
             );
         }
         code_gen_fn.line("},");
@@ -184,20 +189,23 @@ pub fn generate_choice_match_construct(
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-            instantiate_zserio_array(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field.borrow(),
-                packed,
-                default_field.is_packable,
-            );
+            // Nothing is read or written when the packing context is initialized.
+            if let Some(packed) = packed {
+                instantiate_zserio_array(
+                    symbol_scope,
+                    type_generator,
+                    code_gen_fn,
+                    &field.borrow(),
+                    packed,
+                    default_field.is_packable,
+                );
+            }
             f(
                 symbol_scope,
                 type_generator,
                 code_gen_fn,
                 &default_field,
-                packed,
+                packed.unwrap_or(false),
             );
         }
         code_gen_fn.line("},");
@@ -223,7 +231,7 @@ fn generate_zserio_read(
         type_generator,
         zserio_read_fn,
         choice,
-        false,
+        Some(false),
         &decode_field,
     );
     zserio_read_fn.line("Ok(())");
@@ -238,7 +246,7 @@ fn generate_zserio_read(
         type_generator,
         zserio_read_packed_fn,
         choice,
-        true,
+        Some(true),
         &decode_field,
     );
     zserio_read_packed_fn.line("Ok(())");
@@ -259,7 +267,7 @@ fn generate_zserio_write(
         type_generator,
         zserio_write_fn,
         choice,
-        false,
+        Some(false),
         &encode_field,
     );
     zserio_write_fn.line("Ok(())");
@@ -274,7 +282,7 @@ fn generate_zserio_write(
         type_generator,
         zserio_write_packed_fn,
         choice,
-        true,
+        Some(true),
         &encode_field,
     );
     zserio_write_packed_fn.line("Ok(())");
@@ -296,7 +304,7 @@ fn generate_zserio_bitsize(
         type_generator,
         bitsize_fn,
         choice,
-        false,
+        Some(false),
         &bitsize_field,
     );
     bitsize_fn.line("Ok(end_position - bit_position)");
@@ -312,7 +320,7 @@ fn generate_zserio_bitsize(
         type_generator,
         bitsize_packed_fn,
         choice,
-        true,
+        Some(true),
         &bitsize_field,
     );
     bitsize_packed_fn.line("Ok(end_position - bit_position)");
-- 
2.43.0


From 4a35520f97aa87c8d5289be2401851b39075af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 17/38] fix: count the length prefix of bytes and extern fields

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 7771ade..e61b6cb 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -41,10 +41,13 @@ pub fn bitsize_type_reference(
                 field_name
             ));
         } else if type_reference.name == "extern" {
-            function.line(format!("end_position += {}.bit_size as u64;", field_name));
+            function.line(format!(
+                "end_position += ztype::bitsize_of_extern(&{})?;",
+                field_name
+            ));
         } else if type_reference.name == "bytes" {
             function.line(format!(
-                "end_position += ({}.byte_size as u64) * 8;",
+                "end_position += ztype::bitsize_of_bytes(&{})?;",
                 field_name
             ));
         } else if type_reference.name == "bool" {
-- 
2.43.0


From cb63d0855840be046f2ca6ab7b72fa077c10a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 18/38] fix: borrow optional bytes and extern fields

---
 .../zserio-rs-build/src/internal/generator/encode.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 1f9775c..8511f33 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -115,11 +115,11 @@ pub fn requires_borrowing(field: &Field, native_type: &FundamentalZserioTypeRefe
     if !native_type.fundamental_type.is_builtin {
         return true;
     }
-    // for the native core types, strings make sense to pass by reference.
-    if native_type.fundamental_type.name == "string" {
-        return true;
-    }
-    false
+    // for the native core types, strings and buffers need to be passed by reference.
+    matches!(
+        native_type.fundamental_type.name.as_str(),
+        "string" | "bytes" | "extern"
+    )
 }
 
 pub fn encode_field(
-- 
2.43.0


From 878bf1db48d76761e2c25fc2394fb7c6d98221c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 19/38] fix: predict the packed size of bit fields in packed
 mode

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index e61b6cb..fc53974 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -53,8 +53,6 @@ pub fn bitsize_type_reference(
         } else if type_reference.name == "bool" {
             // boolean
             function.line("end_position += 1;");
-        } else if type_reference.bits != 0 {
-            function.line(format!("end_position += {};", type_reference.bits));
         } else if packed {
             // packed bitsize
             function.line(format!(
@@ -63,6 +61,8 @@ pub fn bitsize_type_reference(
                 initialize_array_trait(scope, type_generator, type_reference),
                 field_name,
             ));
+        } else if type_reference.bits != 0 {
+            function.line(format!("end_position += {};", type_reference.bits));
         } else {
             let bit_length = match type_reference.name.as_str() {
                 "uint8" => String::from("8"),
-- 
2.43.0


From 8c5ce1d82f2f35ff894ca95c705fb83b80e784aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 20/38] fix: count the bits of dynamic bit fields

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index fc53974..808a266 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -61,6 +61,12 @@ pub fn bitsize_type_reference(
                 initialize_array_trait(scope, type_generator, type_reference),
                 field_name,
             ));
+        } else if let Some(length_expression) = &type_reference.length_expression {
+            // bit fields of dynamic length, e.g. bit<numBits>
+            function.line(format!(
+                "end_position += ({}) as u64;",
+                generate_expression(&length_expression.borrow(), type_generator, scope)
+            ));
         } else if type_reference.bits != 0 {
             function.line(format!("end_position += {};", type_reference.bits));
         } else {
-- 
2.43.0


From 03b4d1c10dc32ae08d42c7bd245043e668a9d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 21/38] fix: report values out of range as an error in size
 prediction

---
 .../src/internal/generator/bitsize.rs         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 808a266..c829ebb 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -23,13 +23,13 @@ pub fn bitsize_type_reference(
         if packed {
             // Use packed bitsize
             function.line(format!(
-                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position).unwrap();",
+                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position)?;",
                 field_name,
                 field_index,
             ));
         } else {
             function.line(format!(
-                "end_position += {}.zserio_bitsize(end_position).unwrap();",
+                "end_position += {}.zserio_bitsize(end_position)?;",
                 field_name
             ));
         }
@@ -37,7 +37,7 @@ pub fn bitsize_type_reference(
         if type_reference.name == "string" {
             // string types
             function.line(format!(
-                "end_position += ztype::bitsize_string({}.as_str()).unwrap();",
+                "end_position += ztype::bitsize_string({}.as_str())?;",
                 field_name
             ));
         } else if type_reference.name == "extern" {
@@ -83,31 +83,31 @@ pub fn bitsize_type_reference(
                 "float32" => String::from("32"),
                 "float64" => String::from("64"),
                 "varint" => {
-                    format!("ztype::varint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint_bitsize({})? as u64", field_name)
                 }
                 "varint16" => {
-                    format!("ztype::varint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint16_bitsize({})? as u64", field_name)
                 }
                 "varint32" => {
-                    format!("ztype::varint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint32_bitsize({})? as u64", field_name)
                 }
                 "varint64" => {
-                    format!("ztype::varint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint64_bitsize({})? as u64", field_name)
                 }
                 "varuint" => {
-                    format!("ztype::varuint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint_bitsize({})? as u64", field_name)
                 }
                 "varuint16" => {
-                    format!("ztype::varuint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint16_bitsize({})? as u64", field_name)
                 }
                 "varuint32" => {
-                    format!("ztype::varuint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint32_bitsize({})? as u64", field_name)
                 }
                 "varuint64" => {
-                    format!("ztype::varuint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint64_bitsize({})? as u64", field_name)
                 }
                 "varsize" => {
-                    format!("ztype::varsize_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varsize_bitsize({})? as u64", field_name)
                 }
                 "int" | "bit" => {
                     format!("{} as u64", type_reference.bits)
-- 
2.43.0


From e5a961d2d20a2ff3201970f2c89f0551afe48913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 22/38] fix: resolve subtypes used as the type of enums and
 bitmasks

---
 .../src/internal/generator/zbitmask.rs             | 12 +++++-------
 .../src/internal/generator/zenum.rs                | 14 ++++++--------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
index f7449b2..bbb7a17 100644
--- a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
@@ -63,9 +63,9 @@ pub fn generate_bitmask(
     z_impl.impl_trait("ztype::ZserioPackableObject");
 
     // generate the functions to serialize/deserialize
-    generate_zserio_read(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_read(scope, type_generator, z_impl, &fundamental_type);
     generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -92,7 +92,6 @@ fn generate_zserio_read(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let zserio_read_fn = impl_codegen.new_fn("zserio_read");
@@ -105,7 +104,7 @@ fn generate_zserio_read(
         zserio_read_fn,
         &format!(
             "let v: {}",
-            zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+            zserio_to_rust_type(fundamental_type.fundamental_type.name.as_str()).unwrap()
         ),
         &String::from(""),
         fundamental_type,
@@ -122,7 +121,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.ret("Result<()>");
     zserio_read_packed_fn.line(format!(
         "let mut v: {} = 0;",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+        zserio_to_rust_type(fundamental_type.fundamental_type.name.as_str()).unwrap()
     ));
     decode_type(
         scope,
@@ -182,12 +181,11 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(self.bits as {})",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+        zserio_to_rust_type(fundamental_type.fundamental_type.name.as_str()).unwrap()
     );
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index 7ad0bf0..8ef9172 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -97,8 +97,8 @@ pub fn generate_enum(
 
     // generate the functions to serialize/deserialize
     generate_zserio_read(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_write(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zenum, &fundamental_type);
+    generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -142,7 +142,7 @@ fn generate_zserio_read(
         zserio_read_fn,
         &format!(
             "let v: {}",
-            zserio_to_rust_type(&zenum.enum_type.name).unwrap()
+            zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
         ),
         &String::from(""),
         fundamental_type,
@@ -159,7 +159,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.ret("Result<()>");
     zserio_read_packed_fn.line(format!(
         "let mut v: {} = 0;",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(fundamental_type.fundamental_type.name.as_str()).unwrap()
     ));
     decode_type(
         scope,
@@ -179,12 +179,11 @@ fn generate_zserio_write(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(fundamental_type.fundamental_type.name.as_str()).unwrap()
     );
 
     let zserio_write_fn = impl_codegen.new_fn("zserio_write");
@@ -223,12 +222,11 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(fundamental_type.fundamental_type.name.as_str()).unwrap()
     );
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
-- 
2.43.0


From 7082e2418ac8be1b03b9ce91c4d171843c3e94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 23/38] fix: give bitmask values without an expression the next
 unused bit

---
 .../src/internal/ast/zbitmask.rs              | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index 158afeb..108f090 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -36,31 +36,24 @@ pub struct ZBitmaskType {
 impl ZBitmaskType {
     /// Evaluates all expressions within this bitmask type.
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
-        let mut bitmask_value = 1u64;
+        // All bits used so far.
+        let mut used_bits = 0u64;
         for value in &mut self.values {
             // Check if the bitmask value has a value hard-coded.
-            // If yes, use the value from the expression.
-            if let Some(value_expression_rc) = &mut value.value_expression {
+            // If yes, use the value from the expression, otherwise the next free bit.
+            value.value = if let Some(value_expression_rc) = &mut value.value_expression {
                 let mut value_expression = value_expression_rc.as_ref().borrow_mut();
 
                 value_expression.evaluate(scope);
-                let expr_bitmask_value = match value_expression.result_type {
+                match value_expression.result_type {
                     ExpressionType::Integer(v) => v as u64,
                     _ => panic!("only integer bitmask values are supported"),
-                };
-                if expr_bitmask_value < bitmask_value && expr_bitmask_value != 0 {
-                    panic!("expression redefines bitmask value");
                 }
-                bitmask_value = expr_bitmask_value;
-            }
-            value.value = bitmask_value;
-
-            // Pick the next bit for the next bitmask value.
-            if bitmask_value == 0 {
-                bitmask_value = 1;
             } else {
-                bitmask_value <<= 1;
-            }
+                1u64.checked_shl(u64::BITS - used_bits.leading_zeros())
+                    .expect("no free bit left for bitmask value")
+            };
+            used_bits |= value.value;
         }
         self.zserio_type.evaluate(scope);
     }
-- 
2.43.0


From db4767052a5e437286c122069889426ab1ad964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 24/38] fix: evaluate and generate integer literals of more
 than 31 bits

---
 .../src/internal/ast/expression.rs            | 45 ++++++++++++-------
 .../src/internal/generator/expression.rs      |  5 ++-
 .../zserio-rs-build/src/internal/visitor.rs   | 10 ++---
 3 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 49933ba..e0c9e10 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -27,7 +27,7 @@ pub enum ExpressionFlag {
 
 #[derive(Clone, Debug)]
 pub enum ExpressionType {
-    Integer(i32),
+    Integer(i128),
     Float(f64),
     String(String),
     Bool(bool),
@@ -323,7 +323,10 @@ impl Expression {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
-                    self.result_type = ExpressionType::Integer(numbits(value) as i32);
+                    self.result_type = ExpressionType::Integer(match u64::try_from(value) {
+                        Ok(value) => numbits(value),
+                        Err(_) => numbits(value as i64),
+                    } as i128);
                     self.fully_resolved = op1.fully_resolved;
                     self.native_type = Some(TypeReference::new_native_type("varsize"));
                 }
@@ -359,7 +362,7 @@ impl Expression {
         }
     }
 
-    fn evaluate_integer_comparison_expression(&mut self, mut value1: i32, mut value2: i32) {
+    fn evaluate_integer_comparison_expression(&mut self, mut value1: i128, mut value2: i128) {
         if !self.operand1.as_ref().unwrap().fully_resolved {
             value1 = 1;
         }
@@ -463,14 +466,16 @@ impl Expression {
                         v2 = 1;
                     }
                     let result = match self.expression_type {
-                        PLUS => v1 + v2,
-                        MINUS => v1 - v2,
-                        MULTIPLY => v1 * v2,
-                        DIVIDE => v1 / v2,
-                        MODULO => v1 % v2,
+                        PLUS => v1.checked_add(v2),
+                        MINUS => v1.checked_sub(v2),
+                        MULTIPLY => v1.checked_mul(v2),
+                        DIVIDE => v1.checked_div(v2),
+                        MODULO => v1.checked_rem(v2),
                         _ => panic!("unexpected integer arithmetic expression"),
                     };
-                    self.result_type = ExpressionType::Integer(result);
+                    self.result_type = ExpressionType::Integer(
+                        result.expect("integer arithmetic expression is out of range"),
+                    );
                 }
                 // Float arithmetic expressions can be mixed with integer types.
                 // If one operand is a float type, the result will also be a float type.
@@ -540,15 +545,25 @@ impl Expression {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
+                    let mut v1 = *value1;
+                    let mut v2 = *value2;
+                    if !op1.fully_resolved {
+                        v1 = 1;
+                    }
+                    if !op2.fully_resolved {
+                        v2 = 1;
+                    }
                     let result = match self.expression_type {
-                        AND => value1 & value2,
-                        OR => value1 | value2,
-                        XOR => value1 ^ value2,
-                        LSHIFT => value1 << value2,
-                        RSHIFT => value1 >> value2,
+                        AND => Some(v1 & v2),
+                        OR => Some(v1 | v2),
+                        XOR => Some(v1 ^ v2),
+                        LSHIFT => u32::try_from(v2).ok().and_then(|v2| v1.checked_shl(v2)),
+                        RSHIFT => u32::try_from(v2).ok().and_then(|v2| v1.checked_shr(v2)),
                         _ => panic!("unexpected bitwise expression"),
                     };
-                    self.result_type = ExpressionType::Integer(result);
+                    self.result_type = ExpressionType::Integer(
+                        result.expect("bitwise expression is out of range"),
+                    );
                 }
                 (ExpressionType::BitMask(_), ExpressionType::Integer(_))
                 | (ExpressionType::Integer(_), ExpressionType::BitMask(_))
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index b46d8c3..2402b5b 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -444,10 +444,11 @@ fn generate_literal_expression(expression: &Expression) -> String {
     };
 
     match expression.expression_type {
-        DECIMAL_LITERAL => i32::to_string(&int_value),
+        DECIMAL_LITERAL => int_value.to_string(),
+        BINARY_LITERAL => format!("{int_value:#b}"),
         HEXADECIMAL_LITERAL => format!("{int_value:#x}"),
         OCTAL_LITERAL => format!("{int_value:#o}"),
-        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{}", &float_value),
+        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{:?}", &float_value),
         BOOL_LITERAL => {
             if bool_value {
                 String::from("true")
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index b8cc798..3a51e93 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -943,18 +943,17 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             ),
             _ if literal_ctx.DECIMAL_LITERAL().is_some() => ExpressionType::Integer(
                 literal_text
-                    .parse::<i32>()
+                    .parse::<i128>()
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_start_matches("0x"), 16)
-                    .expect("Not a hex number!"),
+                i128::from_str_radix(&literal_text[2..], 16).expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
+                i128::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
             ),
             _ if literal_ctx.BINARY_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_end_matches('b'), 2)
+                i128::from_str_radix(literal_text.trim_end_matches(['b', 'B']), 2)
                     .expect("Not a binary number!"),
             ),
             _ if literal_ctx.STRING_LITERAL().is_some() => {
@@ -963,6 +962,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             }
             _ if literal_ctx.FLOAT_LITERAL().is_some() => ExpressionType::Float(
                 literal_text
+                    .trim_end_matches(['f', 'F'])
                     .parse::<f64>()
                     .expect("failed to parse float32 expression"),
             ),
-- 
2.43.0


From fbb591d6c8d2caf54812509cb94cc3b40ca35a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 25/38] fix: generate expressions which mix operators and types
 with the meaning they have in zserio

---
 .../ast/evaluate_mixing_native_types.rs       |   7 ++
 .../src/internal/ast/expression.rs            |  46 +++++---
 .../src/internal/generator/expression.rs      | 111 ++++++++++++++----
 3 files changed, 126 insertions(+), 38 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index ddd2e72..628ae0e 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -48,6 +48,9 @@ fn get_integer_rank(integer_type: &TypeReference) -> u8 {
         "uint8" => 8,
         "uint16" => 16,
         "uint32" => 32,
+        "uint64" => 64,
+        // bit fields without a literal length
+        "int" | "bit" => 64,
         "varuint16" => 15,
         "varuint32" => 29,
         "varuint64" => 57,
@@ -67,9 +70,12 @@ pub fn is_signed(int_type_name: &str) -> bool {
         "varint32" => true,
         "varint64" => true,
         "varint" => true,
+        "int" => true,
         "uint8" => false,
         "uint16" => false,
         "uint32" => false,
+        "uint64" => false,
+        "bit" => false,
         "varuint16" => false,
         "varuint32" => false,
         "varuint64" => false,
@@ -89,6 +95,7 @@ pub fn convert_to_unsigned(int_type_name: &str) -> String {
         "varint32" => "varuint32".into(),
         "varint64" => "varuint64".into(),
         "varint" => "varuint".into(),
+        "int" => "bit".into(),
         _ => panic!("unexpected signed integer type {:?}", int_type_name),
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index e0c9e10..82a8c9e 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -1,7 +1,7 @@
 use crate::internal::ast::zbitmask::ZBitmaskType;
 
 use crate::internal::ast::evaluate_mixing_native_types::{
-    evaluate_mixing_float_types, evaluate_mixing_integer_types,
+    evaluate_mixing_float_types, evaluate_mixing_integer_types, is_signed,
 };
 use crate::internal::ast::zenum::ZEnum;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
@@ -345,7 +345,16 @@ impl Expression {
                 match op1.result_type {
                     ExpressionType::Integer(value) => match self.expression_type {
                         PLUS => self.result_type = ExpressionType::Integer(value),
-                        MINUS => self.result_type = ExpressionType::Integer(-value),
+                        MINUS => {
+                            self.result_type = ExpressionType::Integer(-value);
+                            // The negative of an unsigned value is a signed value.
+                            if let Some(native_type) = &op1.native_type {
+                                if !is_signed(&native_type.name) {
+                                    self.native_type =
+                                        Some(TypeReference::new_native_type("int64"));
+                                }
+                            }
+                        }
                         _ => panic!("unexpected unary integer expression"),
                     },
                     ExpressionType::Float(value) => match self.expression_type {
@@ -545,6 +554,10 @@ impl Expression {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
+                    self.native_type = match self.expression_type {
+                        LSHIFT | RSHIFT => op1.native_type.clone(),
+                        _ => evaluate_mixing_integer_types(&op1.native_type, &op2.native_type),
+                    };
                     let mut v1 = *value1;
                     let mut v2 = *value2;
                     if !op1.fully_resolved {
@@ -601,17 +614,17 @@ impl Expression {
     fn evaluate_ternary_expression(&mut self) {
         match self.operand1.as_ref().unwrap().result_type {
             ExpressionType::Bool(condition) => {
-                if condition {
-                    let op2 = self.operand2.as_ref().unwrap();
-                    self.result_type.clone_from(&op2.result_type);
-                    self.symbol.clone_from(&op2.symbol);
-                    self.fully_resolved = op2.fully_resolved;
-                } else {
-                    let op3 = self.operand3.as_ref().unwrap();
-                    self.result_type.clone_from(&op3.result_type);
-                    self.symbol.clone_from(&op3.symbol);
-                    self.fully_resolved = op3.fully_resolved;
-                }
+                let op2 = self.operand2.as_ref().unwrap();
+                let op3 = self.operand3.as_ref().unwrap();
+                let selected = if condition { op2 } else { op3 };
+                self.native_type = match (&op2.result_type, &op3.result_type) {
+                    (ExpressionType::Integer(_), ExpressionType::Integer(_)) => {
+                        evaluate_mixing_integer_types(&op2.native_type, &op3.native_type)
+                    }
+                    _ => selected.native_type.clone(),
+                };
+                self.result_type.clone_from(&selected.result_type);
+                self.symbol.clone_from(&selected.symbol);
             }
             _ => panic!("the first operand in a ternary expression must have a boolean type, but it has {:?}", self.operand1.as_ref().unwrap()),
         }
@@ -700,9 +713,14 @@ fn type_reference_to_expression_type(
             || type_ref.name.starts_with("uint")
             || type_ref.name.starts_with("varint")
         {
+            // The rust type of bit fields depends on their length.
             (
                 ExpressionType::Integer(0),
-                Some(TypeReference::new_native_type(type_ref.name.as_str())),
+                Some(TypeReference {
+                    bits: type_ref.bits,
+                    length_expression: type_ref.length_expression.clone(),
+                    ..TypeReference::new_native_type(type_ref.name.as_str())
+                }),
             )
         } else {
             panic!("failed to determine builtin type reference type");
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 2402b5b..5b0a4f7 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -1,8 +1,10 @@
 use crate::internal::ast::expression::{
     EvaluationState, Expression, ExpressionFlag, ExpressionType,
 };
+use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
+use crate::internal::generator::casts::requires_cast;
 use crate::internal::generator::types::{convert_to_enum_field_name, TypeGenerator};
 use crate::internal::parser::gen::zserioparser::{
     AND, BANG, BINARY_LITERAL, BOOL_LITERAL, DECIMAL_LITERAL, DIVIDE, DOT, DOUBLE_LITERAL, EQ,
@@ -68,20 +70,44 @@ pub fn generate_expression(
     }
 }
 
+/// Generates an operand, with a cast if its type differs from the type of the expression.
+fn generate_operand(
+    operand: &Expression,
+    result_type: &Option<TypeReference>,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let code = generate_expression(operand, type_generator, scope);
+    match (&operand.result_type, &operand.native_type, result_type) {
+        (
+            ExpressionType::Integer(_) | ExpressionType::Float(_),
+            Some(operand_type),
+            Some(result_type),
+        ) if requires_cast(result_type, operand_type, type_generator) => {
+            let rust_type = type_generator.ztype_to_rust_type(result_type);
+            format!("(({code}) as {rust_type})")
+        }
+        _ => code,
+    }
+}
+
 fn generate_unary_arithmetic_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
-    format!(
-        "{}{}",
-        match expression.expression_type {
-            PLUS => "+",
-            MINUS => "-",
-            _ => panic!("unexpected unary arithmetic expression operator"),
-        },
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-    )
+    let operand = generate_operand(
+        expression.operand1.as_ref().unwrap(),
+        &expression.native_type,
+        type_generator,
+        scope,
+    );
+    match expression.expression_type {
+        // There is no unary plus in rust.
+        PLUS => operand,
+        MINUS => format!("-{operand}"),
+        _ => panic!("unexpected unary arithmetic expression operator"),
+    }
 }
 
 fn generate_arithmetic_expression(
@@ -242,7 +268,7 @@ fn generate_isset_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{} & ({}) != 0",
+        "({} & ({}) != 0)",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope)
     )
@@ -262,7 +288,7 @@ fn generate_valueof_expression(
     };
 
     format!(
-        "{}{} as {}",
+        "({}{} as {})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         bitmask_suffix,
         type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type),
@@ -338,15 +364,20 @@ fn generate_ternary_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "
-if {} {{
-    {}
-}} else {{
-    {}
-}}",
+        "(if {} {{ {} }} else {{ {} }})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand3.as_ref().unwrap(), type_generator, scope),
+        generate_operand(
+            expression.operand2.as_ref().unwrap(),
+            &expression.native_type,
+            type_generator,
+            scope
+        ),
+        generate_operand(
+            expression.operand3.as_ref().unwrap(),
+            &expression.native_type,
+            type_generator,
+            scope
+        ),
     )
 }
 
@@ -367,7 +398,7 @@ fn generate_bitwise_negation(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "~{}",
+        "!{}",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
@@ -377,9 +408,15 @@ fn generate_bitwise_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand2 = expression.operand2.as_ref().unwrap();
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        generate_operand(
+            expression.operand1.as_ref().unwrap(),
+            &expression.native_type,
+            type_generator,
+            scope
+        ),
         match expression.expression_type {
             AND => "&",
             OR => "|",
@@ -388,7 +425,11 @@ fn generate_bitwise_expression(
             RSHIFT => ">>",
             _ => panic!("unexpected bitwise expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        match expression.expression_type {
+            // Any integer type can be used as the number of bits to shift.
+            LSHIFT | RSHIFT => generate_expression(operand2, type_generator, scope),
+            _ => generate_operand(operand2, &expression.native_type, type_generator, scope),
+        },
     )
 }
 
@@ -414,9 +455,31 @@ fn generate_comparison_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand1 = expression.operand1.as_ref().unwrap();
+    let operand2 = expression.operand2.as_ref().unwrap();
+    let mut op1 = generate_expression(operand1, type_generator, scope);
+    let mut op2 = generate_expression(operand2, type_generator, scope);
+    match (&operand1.result_type, &operand2.result_type) {
+        (ExpressionType::Integer(_), ExpressionType::Integer(_)) => {
+            // Integers of different types are compared by their value.
+            if let (Some(type1), Some(type2)) = (&operand1.native_type, &operand2.native_type) {
+                if requires_cast(type1, type2, type_generator) {
+                    op1 = format!("(({op1}) as i128)");
+                    op2 = format!("(({op2}) as i128)");
+                }
+            }
+        }
+        (ExpressionType::Bool(_), ExpressionType::Bool(_)) => {
+            // In rust, comparisons can not be chained.
+            op1 = format!("({op1})");
+            op2 = format!("({op2})");
+        }
+        _ => (),
+    }
+
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        op1,
         match expression.expression_type {
             EQ => "==",
             LE => "<=",
@@ -426,7 +489,7 @@ fn generate_comparison_expression(
             NE => "!=",
             _ => panic!("unexpected comparison expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        op2,
     )
 }
 
-- 
2.43.0


From 5d7039927fec19999dc40c24b2df39acf17a9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 26/38] fix: convert the complete type argument expression

---
 .../zserio-rs-build/src/internal/generator/decode.rs | 12 ++++++------
 .../zserio-rs-build/src/internal/generator/encode.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index a74477d..7e038f2 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -240,7 +240,7 @@ pub fn decode_field(
                     requires_cloning = ".clone()".into();
                 }
                 let mut rvalue = format!(
-                    "{}{}",
+                    "({}){}",
                     generate_expression(&type_argument, type_generator, scope),
                     requires_cloning
                 );
@@ -251,7 +251,7 @@ pub fn decode_field(
                     &type_argument,
                 ) {
                     rvalue = format!(
-                        "{} as {}",
+                        "({}) as {}",
                         rvalue,
                         type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                     );
@@ -343,7 +343,7 @@ pub fn decode_field(
                     requires_cloning = ".clone()".into();
                 }
                 let mut rvalue = format!(
-                    "{}{}",
+                    "({}){}",
                     generate_expression(&type_argument, type_generator, scope),
                     requires_cloning
                 );
@@ -353,7 +353,7 @@ pub fn decode_field(
                     &type_argument,
                 ) {
                     rvalue = format!(
-                        "{} as {}",
+                        "({}) as {}",
                         rvalue,
                         type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                     );
@@ -388,7 +388,7 @@ pub fn decode_field(
                         requires_cloning = ".clone()".into();
                     }
                     let mut rvalue = format!(
-                        "{}{}",
+                        "({}){}",
                         generate_expression(&type_argument, type_generator, scope),
                         requires_cloning
                     );
@@ -398,7 +398,7 @@ pub fn decode_field(
                         &type_argument,
                     ) {
                         rvalue = format!(
-                            "{} as {}",
+                            "({}) as {}",
                             rvalue,
                             type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                         );
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 8511f33..3f99690 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -247,13 +247,13 @@ pub fn encode_field(
                 &type_argument,
             ) {
                 rvalue = format!(
-                    "{} as {}",
+                    "({}) as {}",
                     rvalue,
                     type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                 );
             }
             function.line(format!(
-                "assert!({}.{} == {});",
+                "assert!({}.{} == ({}));",
                 &element_name,
                 TypeGenerator::convert_field_name(&type_parameter.borrow().name),
                 rvalue,
-- 
2.43.0


From 0cb5984145bd84ad19e68d89d851cd80a0d39262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 27/38] fix: support selectors of choices which are not a plain
 parameter

---
 crates/zserio-rs-build/src/internal/generator/zchoice.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index cabee24..b77c211 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -141,11 +141,14 @@ pub fn generate_choice_match_construct(
     packed: Option<bool>,
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
 ) {
-    let selector_name =
-        TypeGenerator::convert_field_name(&zchoice.selector_expression.as_ref().borrow().text);
+    let selector = generate_expression(
+        &zchoice.selector_expression.as_ref().borrow(),
+        type_generator,
+        symbol_scope,
+    );
     let mut context_node_index = 0;
 
-    code_gen_fn.line(format!("match self.{} {{", selector_name));
+    code_gen_fn.line(format!("match {} {{", selector));
 
     for case in &zchoice.cases {
         let mut case_expressions = vec![];
-- 
2.43.0


From 6145fc5275ce25310cd49c9387d70ec677766e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 28/38] fix: use the value of constants in enum and bitmask
 values

---
 .../src/internal/ast/expression.rs             | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 82a8c9e..875c8f9 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -647,6 +647,24 @@ impl Expression {
         self.symbol = Option::from(symbol_reference.clone());
         (self.result_type, self.native_type) = symbol_to_expression_type(&symbol_reference, scope);
         self.fully_resolved = false;
+
+        // The value of a constant is already known when the code is generated.
+        if let Symbol::Const(z_const) = &symbol_reference.symbol {
+            scope.scope_stack.push(ScopeLocation {
+                package: symbol_reference.package.clone(),
+                import_symbol: None,
+                symbol_name: None,
+            });
+            let value_expression = z_const.borrow().value_expression.clone();
+            let mut value_expression = value_expression.borrow_mut();
+            value_expression.evaluate(scope);
+            scope.scope_stack.pop();
+
+            if let ExpressionType::Integer(_) = value_expression.result_type {
+                self.result_type = value_expression.result_type.clone();
+                self.fully_resolved = value_expression.fully_resolved;
+            }
+        }
     }
 }
 
-- 
2.43.0


From 68812fb2a781c6227defdc8322ccb384d49c305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 29/38] fix: convert constants and string functions to their
 type

---
 .../src/internal/generator/function.rs          |  7 ++-----
 .../src/internal/generator/zconst.rs            | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index 005a28f..bf5d84e 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -23,12 +23,9 @@ pub fn generate_function(
     fn_gen_scope.arg_ref_self();
     fn_gen_scope.vis("pub");
 
-    if zserio_function.return_type.is_builtin
-        && zserio_function.return_type.name == "string"
-        && !zserio_function.result.as_ref().borrow().fully_resolved
-    {
+    if zserio_function.return_type.is_builtin && zserio_function.return_type.name == "string" {
         fn_gen_scope.line(format!(
-            "{}.clone()",
+            "({}).to_string()",
             generate_expression(
                 &zserio_function.result.as_ref().borrow(),
                 type_generator,
diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index ce8eeff..f445e7d 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,6 +1,7 @@
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::generator::casts::expression_requires_cast;
 use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::file_generator::write_to_file;
 use crate::internal::generator::preamble::add_standard_imports;
@@ -40,15 +41,21 @@ pub fn generate_constant(
         "&str".clone_into(&mut field_type);
     }
 
+    let value_expression = zconst.value_expression.borrow();
+    let mut value = generate_expression(&value_expression, type_generator, symbol_scope);
+    if expression_requires_cast(
+        &fundamental_type.fundamental_type,
+        type_generator,
+        &value_expression,
+    ) {
+        value = format!("({}) as {}", value, field_type);
+    }
+
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
         field_type,
-        generate_expression(
-            &zconst.value_expression.borrow(),
-            type_generator,
-            symbol_scope
-        ),
+        value,
     )
     .as_str();
 
-- 
2.43.0


From 5c2cb7d35241ac1f2eeefb042c8ba930bd776620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 30/38] fix: resolve the package of subtypes used as the type
 of enums and bitmasks

---
 .../src/internal/compiler/resolve_types.rs    | 12 ++++++++++
 crates/zserio-rs-build/src/internal/model.rs  | 24 +++++++++++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
index b2cef2a..38efd71 100644
--- a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
@@ -1,6 +1,8 @@
 use crate::internal::ast::type_reference::TypeReference;
+use crate::internal::ast::zbitmask::ZBitmaskType;
 use crate::internal::ast::zchoice::ZChoice;
 use crate::internal::ast::zconst::ZConst;
+use crate::internal::ast::zenum::ZEnum;
 use crate::internal::ast::zstruct::ZStruct;
 use crate::internal::ast::zsubtype::Subtype;
 use crate::internal::ast::zunion::ZUnion;
@@ -79,6 +81,16 @@ pub fn resolve_constant(zconst: &mut ZConst, scope: &ModelScope) {
     resolve_type_reference(&mut zconst.zserio_type, scope);
 }
 
+/// Resolves the type of an enum, and assigns the full package path to the type reference.
+pub fn resolve_enum_type(z_enum: &mut ZEnum, scope: &ModelScope) {
+    resolve_type_reference(&mut z_enum.enum_type, scope);
+}
+
+/// Resolves the type of a bitmask, and assigns the full package path to the type reference.
+pub fn resolve_bitmask_type(z_bitmask: &mut ZBitmaskType, scope: &ModelScope) {
+    resolve_type_reference(&mut z_bitmask.zserio_type, scope);
+}
+
 pub fn resolve_type_reference(type_reference: &mut TypeReference, scope: &ModelScope) {
     if type_reference.is_builtin {
         return;
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index bb0af7e..3319975 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -1,7 +1,7 @@
 use crate::internal::ast::package::ZPackage;
 use crate::internal::compiler::resolve_types::{
-    resolve_choice_types, resolve_constant, resolve_struct_types, resolve_subtype,
-    resolve_union_types,
+    resolve_bitmask_type, resolve_choice_types, resolve_constant, resolve_enum_type,
+    resolve_struct_types, resolve_subtype, resolve_union_types,
 };
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::model::package::package_from_file;
@@ -108,6 +108,26 @@ impl Model {
                 scope.scope_stack.pop();
             }
 
+            for z_enum in &pkg.enums {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(z_enum.borrow().name.clone()),
+                });
+                resolve_enum_type(&mut z_enum.borrow_mut(), scope);
+                scope.scope_stack.pop();
+            }
+
+            for z_bitmask in &pkg.bitmask_types {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(z_bitmask.borrow().name.clone()),
+                });
+                resolve_bitmask_type(&mut z_bitmask.borrow_mut(), scope);
+                scope.scope_stack.pop();
+            }
+
             for z_subtype in &pkg.subtypes {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
-- 
2.43.0


From 4b239b3e9ae2b5ec48f73d1ad4e8de74ec235337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 31/38] fix: report choice selectors which match no case as an
 error

---
 crates/zserio-rs-build/src/internal/generator/zchoice.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index b77c211..5f904d3 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -213,7 +213,13 @@ pub fn generate_choice_match_construct(
         }
         code_gen_fn.line("},");
     } else {
-        code_gen_fn.line("_ => (),");
+        // Without a default case, there is nothing to select for any other value.
+        code_gen_fn.line("_ => {");
+        code_gen_fn.line(format!(
+            "return Err(zserio::ZserioError::DataError(\"no match in choice {}\".into()));",
+            TypeGenerator::to_rust_type_name(&zchoice.name),
+        ));
+        code_gen_fn.line("},");
     }
     code_gen_fn.line("}");
 }
-- 
2.43.0


From acf400b53f56b77e74bd272547a16d34784b3ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 32/38] fix: promote narrow integer types in arithmetic and
 bitwise expressions

---
 .../ast/evaluate_mixing_native_types.rs       | 16 ++++++++++++++
 .../src/internal/ast/expression.rs            | 21 ++++++++++++-------
 .../src/internal/generator/expression.rs      |  7 ++++++-
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index 628ae0e..d139c61 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -100,6 +100,22 @@ pub fn convert_to_unsigned(int_type_name: &str) -> String {
     }
 }
 
+/// Integer types which are narrower than 32 bits are promoted to int32 when they are used
+/// in arithmetic and bitwise expressions (like in C++), so that intermediate results of
+/// narrow types do not overflow.
+pub fn promote_integer_type(integer_type: Option<TypeReference>) -> Option<TypeReference> {
+    match &integer_type {
+        Some(t)
+            if t.is_builtin
+                && !matches!(t.name.as_str(), "varsize" | "varuint32")
+                && get_integer_rank(t) < 32 =>
+        {
+            Some(TypeReference::new_native_type("int32"))
+        }
+        _ => integer_type,
+    }
+}
+
 pub fn evaluate_mixing_integer_types(
     type1: &Option<TypeReference>,
     type2: &Option<TypeReference>,
diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 875c8f9..258cb33 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -1,7 +1,7 @@
 use crate::internal::ast::zbitmask::ZBitmaskType;
 
 use crate::internal::ast::evaluate_mixing_native_types::{
-    evaluate_mixing_float_types, evaluate_mixing_integer_types, is_signed,
+    evaluate_mixing_float_types, evaluate_mixing_integer_types, is_signed, promote_integer_type,
 };
 use crate::internal::ast::zenum::ZEnum;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
@@ -341,14 +341,17 @@ impl Expression {
     fn evaluate_unary_arithmetic_expression(&mut self) {
         match &self.operand1 {
             Some(op1) => {
-                self.native_type.clone_from(&op1.native_type);
+                self.native_type = match op1.result_type {
+                    ExpressionType::Integer(_) => promote_integer_type(op1.native_type.clone()),
+                    _ => op1.native_type.clone(),
+                };
                 match op1.result_type {
                     ExpressionType::Integer(value) => match self.expression_type {
                         PLUS => self.result_type = ExpressionType::Integer(value),
                         MINUS => {
                             self.result_type = ExpressionType::Integer(-value);
                             // The negative of an unsigned value is a signed value.
-                            if let Some(native_type) = &op1.native_type {
+                            if let Some(native_type) = &self.native_type {
                                 if !is_signed(&native_type.name) {
                                     self.native_type =
                                         Some(TypeReference::new_native_type("int64"));
@@ -464,8 +467,10 @@ impl Expression {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
-                    self.native_type =
-                        evaluate_mixing_integer_types(&op1.native_type, &op2.native_type);
+                    self.native_type = promote_integer_type(evaluate_mixing_integer_types(
+                        &op1.native_type,
+                        &op2.native_type,
+                    ));
                     let mut v1 = *value1;
                     let mut v2 = *value2;
                     if !op1.fully_resolved {
@@ -540,7 +545,7 @@ impl Expression {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
                     self.result_type = ExpressionType::Integer(!value);
-                    self.native_type.clone_from(&op1.native_type);
+                    self.native_type = promote_integer_type(op1.native_type.clone());
                 }
                 _ => {
                     panic!("bitwise negation expression can only be applied to integer expressions")
@@ -554,10 +559,10 @@ impl Expression {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
-                    self.native_type = match self.expression_type {
+                    self.native_type = promote_integer_type(match self.expression_type {
                         LSHIFT | RSHIFT => op1.native_type.clone(),
                         _ => evaluate_mixing_integer_types(&op1.native_type, &op2.native_type),
-                    };
+                    });
                     let mut v1 = *value1;
                     let mut v2 = *value2;
                     if !op1.fully_resolved {
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 5b0a4f7..1922402 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -399,7 +399,12 @@ fn generate_bitwise_negation(
 ) -> String {
     format!(
         "!{}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
+        generate_operand(
+            expression.operand1.as_ref().unwrap(),
+            &expression.native_type,
+            type_generator,
+            scope
+        )
     )
 }
 
-- 
2.43.0


From 5219e643bafad07db9647e681d0bfe8e53b2d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 33/38] fix: keep the default case of choices

---
 crates/zserio-rs-build/src/internal/visitor.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 3a51e93..dae752c 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -548,7 +548,15 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             };
         }
 
-        // TODO visit the default type
+        // visit the default case
+        if let Some(choice_default_ctx) = ctx.choiceDefault() {
+            match self.visit_choiceDefault(&choice_default_ctx) {
+                ZserioTreeReturnType::ChoiceCase(choice_case) => {
+                    choice.default_case = Option::from(choice_case)
+                }
+                _ => panic!("choice default case type mismatch"),
+            };
+        }
 
         // Visit all functions defined for this choice.
         for function_ctx in ctx.functionDefinition_all() {
-- 
2.43.0


From ebb1cc22e9e655dca8468c05ad3b8507fecbe881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 34/38] fix: do not pack the elements of nested arrays which
 are not packable

---
 crates/zserio-rs-build/src/internal/generator/array.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/array.rs b/crates/zserio-rs-build/src/internal/generator/array.rs
index bb35417..0208005 100644
--- a/crates/zserio-rs-build/src/internal/generator/array.rs
+++ b/crates/zserio-rs-build/src/internal/generator/array.rs
@@ -3,6 +3,7 @@ use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::expression::generate_expression;
+use crate::internal::generator::packed_contexts::is_delta_packable;
 use crate::internal::generator::types::TypeGenerator;
 use codegen::Function;
 use stringcase::Caser;
@@ -106,7 +107,10 @@ pub fn instantiate_zserio_array(
     let fund_type = native_type.fundamental_type;
     let rust_type = type_generator.ztype_to_rust_type(field.field_type.as_ref());
     let field_array = field.array.as_ref().unwrap();
-    let is_packed = (field_array.is_packed || force_packed) && is_packable;
+    // There are no deltas between elements which are not integers, strings for example.
+    let is_packed = (field_array.is_packed || force_packed)
+        && is_packable
+        && is_delta_packable(scope, &field.field_type, field.is_offset_field, false);
 
     // also initialize the array part
     function.line(format!(
-- 
2.43.0


From bb4d3ba4c139a03c76a7874b05ff122e7a4ecdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 35/38] fix: report bit fields of more than 64 bits as an error
 when reading

---
 crates/zserio/src/ztype/bits_decode.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/bits_decode.rs b/crates/zserio/src/ztype/bits_decode.rs
index 9870e3d..c08657d 100644
--- a/crates/zserio/src/ztype/bits_decode.rs
+++ b/crates/zserio/src/ztype/bits_decode.rs
@@ -1,17 +1,13 @@
 use crate::error::Result;
 use bitreader::BitReader;
 
+/// Reads an unsigned value. Reading more than 64 bits is an error.
 pub fn read_unsigned_bits(reader: &mut BitReader, bits: u8) -> Result<u64> {
-    if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
-    }
     Ok(reader.read_u64(bits)?)
 }
 
+/// Reads a signed value. Reading more than 64 bits is an error.
 pub fn read_signed_bits(reader: &mut BitReader, bits: u8) -> Result<i64> {
-    if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
-    }
     Ok(reader.read_i64(bits)?)
 }
 
-- 
2.43.0


From 8922bf27dd110c157ee70fbf8f9cde7cd7f206b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 36/38] fix: promote narrow integers before mixing types in
 schema expressions

---
 .../ast/evaluate_mixing_native_types.rs       | 58 ++++++-------------
 1 file changed, 17 insertions(+), 41 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index d139c61..5de1cf6 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -85,21 +85,6 @@ pub fn is_signed(int_type_name: &str) -> bool {
     }
 }
 
-pub fn convert_to_unsigned(int_type_name: &str) -> String {
-    match int_type_name {
-        "int8" => "uint8".into(),
-        "int16" => "uint16".into(),
-        "int32" => "uint32".into(),
-        "int64" => "uint64".into(),
-        "varint16" => "varuint16".into(),
-        "varint32" => "varuint32".into(),
-        "varint64" => "varuint64".into(),
-        "varint" => "varuint".into(),
-        "int" => "bit".into(),
-        _ => panic!("unexpected signed integer type {:?}", int_type_name),
-    }
-}
-
 /// Integer types which are narrower than 32 bits are promoted to int32 when they are used
 /// in arithmetic and bitwise expressions (like in C++), so that intermediate results of
 /// narrow types do not overflow.
@@ -131,34 +116,25 @@ pub fn evaluate_mixing_integer_types(
                 return type1.clone();
             }
 
-            // Check if there is a mix in signed/unsigned. If yes, the final
-            // type will be a unsigned type (like C++, unsigned wins).
-            let t1_is_signed = is_signed(t1.name.as_str());
-            let t2_is_signed = is_signed(t2.name.as_str());
-            let result_is_signed = t1_is_signed && t2_is_signed;
+            // Narrow types are promoted before they are mixed.
+            let type1 = promote_integer_type(type1.clone());
+            let type2 = promote_integer_type(type2.clone());
+            let (t1, t2) = (type1.as_ref()?, type2.as_ref()?);
 
-            // Pick the higher rank.
-            let t1_rank = get_integer_rank(t1);
-            let t2_rank = get_integer_rank(t2);
-
-            if t1_rank > t2_rank {
-                if t1_is_signed == result_is_signed {
-                    // type 1 wins
-                    return Some(t1.clone());
-                }
-                // t1 rank wins, but t2 sign wins
-                let mut result_type = t1.clone();
-                result_type.name = convert_to_unsigned(result_type.name.as_str());
-                return Some(result_type);
-            }
-            if t2_is_signed == result_is_signed {
-                // type 2 wins
-                return Some(t2.clone());
+            // The wider type wins. Of types of the same width, the unsigned type wins.
+            let is_wide = |t: &TypeReference| get_integer_rank(t) > 32;
+            let t1_wins = if is_wide(t1) != is_wide(t2) {
+                is_wide(t1)
+            } else if is_signed(&t1.name) != is_signed(&t2.name) {
+                !is_signed(&t1.name)
+            } else {
+                get_integer_rank(t1) > get_integer_rank(t2)
+            };
+            if t1_wins {
+                type1
+            } else {
+                type2
             }
-            // t2 rank wins, but t1 sign wins
-            let mut result_type = t2.clone();
-            result_type.name = convert_to_unsigned(result_type.name.as_str());
-            Some(result_type)
         }
         // Handle cases such as "u16Var + 12"
         (Some(_), None) => type1.clone(),
-- 
2.43.0


From 2d75742d9f05bd8c7a112034cf62d0415ffe30d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 37/38] fix: resolve subtypes of enums and bitmasks in valueof
 expressions

---
 crates/zserio-rs-build/src/internal/ast/expression.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 258cb33..66fd751 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -106,7 +106,7 @@ impl Expression {
             DOT => self.evaluate_dot_expression(scope),
             ISSET => self.evaluate_isset_expression(),
             LENGTHOF => self.evaluate_lengthof_operator(),
-            VALUEOF => self.evaluate_valueof_operator(),
+            VALUEOF => self.evaluate_valueof_operator(scope),
             NUMBITS => self.evaluate_numbits_operator(),
             EQ | GE | GT | LE | LT | NE => self.evaluate_comparison_expression(),
             PLUS | MINUS | MULTIPLY | DIVIDE | MODULO => self.evaluate_arithmetic_expression(),
@@ -300,18 +300,18 @@ impl Expression {
         }
     }
 
-    fn evaluate_valueof_operator(&mut self) {
+    fn evaluate_valueof_operator(&mut self, scope: &ModelScope) {
         match &self.operand1 {
             Some(op1) => match &op1.result_type {
                 ExpressionType::BitMask(bitmask) => {
                     self.result_type = ExpressionType::Integer(0);
                     self.fully_resolved = false;
-                    self.native_type = Some(*bitmask.as_ref().borrow().zserio_type.clone());
+                    self.native_type = Some(*get_fundamental_type(&bitmask.as_ref().borrow().zserio_type, scope).fundamental_type);
                 },
                 ExpressionType::Enum(zenum) => {
                     self.result_type = ExpressionType::Integer(0);
                     self.fully_resolved = false;
-                    self.native_type = Some(*zenum.as_ref().borrow().enum_type.clone());
+                    self.native_type = Some(*get_fundamental_type(&zenum.as_ref().borrow().enum_type, scope).fundamental_type);
                 },
                 _ => panic!("valueof operator can only be applied to bitmask or enum expressions, but was called for {:?}", op1)
             },
-- 
2.43.0


From 0437a403846833ed4c50af618f707f52a5095ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 38/38] fix: literals beyond int32 are 64-bit values in
 expressions

Such a literal had no type, so an expression which mixes it with a 32-bit or narrower
operand was generated in that narrower type and did not compile.
---
 crates/zserio-rs-build/src/internal/visitor.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index dae752c..29c9612 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -990,7 +990,16 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             _ if literal_ctx.STRING_LITERAL().is_some() => {
                 Some(TypeReference::new_native_type("string"))
             }
-            _ => None,
+            // Literals which do not fit into int32 are 64-bit values, just like in C++.
+            _ => match result_type {
+                ExpressionType::Integer(v) if v > i64::MAX.into() => {
+                    Some(TypeReference::new_native_type("uint64"))
+                }
+                ExpressionType::Integer(v) if v > i32::MAX.into() => {
+                    Some(TypeReference::new_native_type("int64"))
+                }
+                _ => None,
+            },
         };
 
         let expression_type = literal_ctx.start().token_type;
-- 
2.43.0


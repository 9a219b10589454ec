From 909f4f0543536e0620c0de59e9d2c85ad5f7a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 01/15] fix: do not panic when reporting an invalid hive
 signature

The signature field is at offset 0, so its address equals the base address.
---
 src/hive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index a6db2db..9aeca0c 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -176,7 +176,7 @@ where
         let field_address = field as *const T as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
-        assert!(field_address > base_address);
+        assert!(field_address >= base_address);
         field_address - base_address
     }
 
-- 
2.43.0


From ad009435bc648293167d2ef9543c874c12714750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 02/15] fix: report an error for a cell reference of 0xFFFFFFFF
 instead of panicking

Such a reference may come from a damaged hive in any list item or header.
It is out of bounds and handled by the size check like any other offset.
---
 src/hive.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 9aeca0c..b9430b9 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -113,9 +113,6 @@ where
     }
 
     pub(crate) fn cell_range_from_data_offset(&self, data_offset: u32) -> Result<Range<usize>> {
-        // Only valid data offsets are accepted here.
-        assert!(data_offset != u32::MAX);
-
         // Accept only u32 data offsets, but convert them into usize right away for
         // slice range operations and fearless calculations.
         let data_offset = data_offset as usize;
-- 
2.43.0


From 54feec51539762a0c7079165336be92734aeb10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 03/15] fix: do not accept a cell of size zero

It is not even large enough for its own header and made the calculation of
the cell data size overflow.
---
 src/hive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index b9430b9..6737a88 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -132,7 +132,8 @@ where
         let cell_size = header.size.get();
 
         // A cell with size > 0 is unallocated and shouldn't be processed any further by us.
-        if cell_size > 0 {
+        // A cell with size 0 cannot even hold its own header and isn't allocated either.
+        if cell_size >= 0 {
             return Err(NtHiveError::UnallocatedCell {
                 offset: self.offset_of_data_offset(data_offset),
                 size: cell_size,
-- 
2.43.0


From 780aa405adc9aba0cfa577a74b670163d8d6e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 04/15] fix: let BigDataSlices report the number of slices it
 returns

size_hint, len, count, and last counted all segments of the list, even those
not needed for the (remaining) data.
---
 src/big_data.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index a015deb..bf9f417 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -253,7 +253,8 @@ where
     }
 
     fn count(self) -> usize {
-        self.big_data_list_item_ranges.count()
+        let (size, _) = self.size_hint();
+        size
     }
 
     fn last(mut self) -> Option<Self::Item> {
@@ -281,7 +282,9 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.big_data_list_item_ranges.size_hint()
+        // The segment list may contain more segments than needed for the remaining bytes.
+        let size = self.bytes_left.div_ceil(BIG_DATA_SEGMENT_SIZE);
+        (size, Some(size))
     }
 }
 
-- 
2.43.0


From a762f1b83c7b8855f603910885bb816ce0468509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 05/15] fix: consume the iterator when nth is called with a
 huge number

An overflow of the number of bytes to skip returned None without advancing,
so the iterator continued with the very items that had to be skipped.
---
 src/big_data.rs        | 10 +++++-----
 src/index_root.rs      |  4 ++--
 src/key_values_list.rs |  8 ++++----
 src/leaf.rs            |  8 ++++----
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index bf9f417..566d087 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -169,8 +169,8 @@ impl Iterator for BigDataListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<BigDataListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<BigDataListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -268,14 +268,14 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(BIG_DATA_SEGMENT_SIZE)?;
+        let bytes_to_skip = n.saturating_mul(BIG_DATA_SEGMENT_SIZE);
         self.bytes_left = self.bytes_left.saturating_sub(bytes_to_skip);
         if self.bytes_left == 0 {
             return None;
         }
 
-        // This calculation is safe considering that we have checked the
-        // multiplication and subtraction above.
+        // This calculation is safe considering that we have just found out that there is
+        // more data than `n` segments.
         self.big_data_list_item_ranges.items_range.start += n * mem::size_of::<BigDataListItem>();
 
         self.next()
diff --git a/src/index_root.rs b/src/index_root.rs
index c93682c..9ca2a12 100644
--- a/src/index_root.rs
+++ b/src/index_root.rs
@@ -97,8 +97,8 @@ impl Iterator for IndexRootItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<IndexRootItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<IndexRootItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index 0db5d85..a8cba2a 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -98,8 +98,8 @@ impl Iterator for KeyValuesListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -172,12 +172,12 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
         self.key_values_list_item_ranges.items_range.start = self
             .key_values_list_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/leaf.rs b/src/leaf.rs
index b347910..88f41cb 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -205,8 +205,8 @@ impl Iterator for LeafItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_type.item_size())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(self.leaf_type.item_size());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -287,12 +287,12 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_item_ranges.leaf_type.item_size())?;
+        let bytes_to_skip = n.saturating_mul(self.leaf_item_ranges.leaf_type.item_size());
         self.leaf_item_ranges.items_range.start = self
             .leaf_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
-- 
2.43.0


From 9737854c4685e8752b76c00b106fc37079e61e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 06/15] fix: report the real offset of DWORD and QWORD data of
 a wrong size

The offset was calculated from the address of a local variable, resulting in
an arbitrary number or a failed assertion.
---
 src/hive.rs      | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 6737a88..e406e9d 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -170,8 +170,8 @@ where
     /// Note that this function primarily exists to provide absolute hive file offsets when reporting errors.
     /// It cannot be used to index into the hive bytes, because they are initially split into `base_block`
     /// and `data`.
-    pub(crate) fn offset_of_field<T>(&self, field: &T) -> usize {
-        let field_address = field as *const T as usize;
+    pub(crate) fn offset_of_field<T: ?Sized>(&self, field: &T) -> usize {
+        let field_address = field as *const T as *const u8 as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
         assert!(field_address >= base_address);
diff --git a/src/key_value.rs b/src/key_value.rs
index 1cde3b9..d54fb10 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -267,7 +267,7 @@ where
             // DWORD data must be exactly 4 bytes long.
             if data.len() != mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u32>(),
                     actual: data.len(),
                 });
@@ -329,7 +329,7 @@ where
             // QWORD data must be exactly 8 bytes long.
             if data.len() != mem::size_of::<u64>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u64>(),
                     actual: data.len(),
                 });
-- 
2.43.0


From 6f9f958980834c62b9fb14ce04f1bac3de272e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 07/15] fix: return the error when looking up a value hits an
 unreadable name

Instead, the lookup returned the value with that unreadable name as a match.
---
 src/key_node.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/key_node.rs b/src/key_node.rs
index 4d604e5..5bcc9f9 100644
--- a/src/key_node.rs
+++ b/src/key_node.rs
@@ -357,21 +357,19 @@ impl KeyNodeItemRange {
     where
         B: SplitByteSlice,
     {
-        let mut values = iter_try!(self.values(hive)?);
+        let values = iter_try!(self.values(hive)?);
 
         // Key Values are not sorted, so we can only iterate until we find a match.
-        values.find(|key_value| {
-            let key_value = match key_value {
-                Ok(key_value) => key_value,
-                Err(_) => return true,
-            };
-            let key_value_name = match key_value.name() {
-                Ok(name) => name,
-                Err(_) => return true,
-            };
-
-            key_value_name == name
-        })
+        for key_value in values {
+            let key_value = iter_try!(key_value);
+            let key_value_name = iter_try!(key_value.name());
+
+            if key_value_name == name {
+                return Some(Ok(key_value));
+            }
+        }
+
+        None
     }
 
     fn values<'h, B>(&self, hive: &'h Hive<B>) -> Option<Result<KeyValues<'h, B>>>
-- 
2.43.0


From 748f658212a99a7f9d6f3f7a96a6edbebdff414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 08/15] fix: do not swap expected and actual in InvalidChecksum
 errors

---
 src/hive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index e406e9d..b6d33c3 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -244,8 +244,8 @@ where
             Ok(())
         } else {
             Err(NtHiveError::InvalidChecksum {
-                expected: checksum,
-                actual: calculated_checksum,
+                expected: calculated_checksum,
+                actual: checksum,
             })
         }
     }
-- 
2.43.0


From c12f8ec2bddf74d9c4e9ed9830cef715cd44c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 09/15] fix: do not swap expected and actual in
 InvalidSizeField errors of value data

InvalidSizeField is about a size field that specifies `expected` bytes where
only `actual` bytes are available.
---
 src/big_data.rs  | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index 566d087..70593fe 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -101,8 +101,8 @@ impl BigDataListItemRanges {
         if data_size > max_data_size {
             return Err(NtHiveError::InvalidSizeField {
                 offset: data_size_field_offset,
-                expected: max_data_size,
-                actual: data_size,
+                expected: data_size,
+                actual: max_data_size,
             });
         }
 
diff --git a/src/key_value.rs b/src/key_value.rs
index d54fb10..79629a2 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -158,8 +158,8 @@ where
             if data_size > mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidSizeField {
                     offset: self.hive.offset_of_field(&header.data_size),
-                    expected: mem::size_of::<u32>(),
-                    actual: data_size,
+                    expected: data_size,
+                    actual: mem::size_of::<u32>(),
                 });
             }
 
-- 
2.43.0


From 2632adbf243521018d27377245d2cebfd9caee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 10/15] fix: read data of more than 16344 bytes from a single
 cell in old hives

Big data segments were only introduced with minor version 4.
---
 src/key_value.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index 79629a2..07bd1c3 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -16,7 +16,7 @@ use zerocopy::{
 use crate::big_data::{BigDataSlices, BIG_DATA_SEGMENT_SIZE};
 use crate::error::{NtHiveError, Result};
 use crate::helpers::byte_subrange;
-use crate::hive::Hive;
+use crate::hive::{Hive, HiveMinorVersion};
 use crate::string::NtHiveNameString;
 
 #[cfg(feature = "alloc")]
@@ -167,7 +167,9 @@ where
             let data_end = data_start + data_size;
 
             Ok(KeyValueData::Small(&self.hive.data[data_start..data_end]))
-        } else if data_size <= BIG_DATA_SEGMENT_SIZE {
+        } else if data_size <= BIG_DATA_SEGMENT_SIZE
+            || self.hive.minor_version() < HiveMinorVersion::WindowsXPBeta as u32
+        {
             // The entire data is stored in a single cell referenced by `data_offset`.
             let cell_range = self
                 .hive
-- 
2.43.0


From 765698f54a22a1b5fa20b9d569685da7c3c5d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 11/15] fix: do not overflow on 32-bit platforms when handling
 large counts and offsets

---
 src/hive.rs            | 3 ++-
 src/key_values_list.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index b6d33c3..bae7d98 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -180,7 +180,8 @@ where
 
     /// Calculate a data offset's offset from the very beginning of the hive bytes.
     pub(crate) fn offset_of_data_offset(&self, data_offset: usize) -> usize {
-        data_offset + mem::size_of::<HiveBaseBlock>()
+        // `data_offset` is arbitrary and u32, so this may overflow on 32-bit platforms.
+        data_offset.saturating_add(mem::size_of::<HiveBaseBlock>())
     }
 
     /// Returns the major version of this hive.
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index a8cba2a..7949faf 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -58,7 +58,8 @@ impl KeyValuesListItemRanges {
         count_field_offset: usize,
         cell_range: Range<usize>,
     ) -> Result<Self> {
-        let byte_count = count as usize * mem::size_of::<KeyValuesListItem>();
+        // `count` is arbitrary and u32, so this may overflow on 32-bit platforms.
+        let byte_count = (count as usize).saturating_mul(mem::size_of::<KeyValuesListItem>());
 
         let items_range = byte_subrange(&cell_range, byte_count).ok_or_else(|| {
             NtHiveError::InvalidSizeField {
-- 
2.43.0


From 281341743fc62beeff281b63f27b54beae6666c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 12/15] fix: decode surrogate pairs split over two big data
 segments in string_data

Every segment was decoded on its own, so such a pair became two replacement
characters.
---
 src/key_value.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index 07bd1c3..60b92ca 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -208,37 +208,32 @@ where
     where
         I: Iterator<Item = Result<&'h [u8]>>,
     {
-        let mut string = String::new();
+        let mut code_units = Vec::new();
 
         // A very long REG_SZ / REG_EXPAND_SZ value may be split over several Big Data segments.
-        // Transparently concatenate them in the output string.
-        for slice_data in iter {
+        // Transparently concatenate their UTF-16 code units before decoding them, because a segment
+        // boundary may be inside a surrogate pair.
+        'outer_loop: for slice_data in iter {
             let slice_data = slice_data?;
 
             let u16_iter = slice_data
                 .chunks_exact(2)
                 .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
+            code_units.reserve(u16_iter.len());
 
-            // You hardly find emojis or other characters outside the UTF-16 Basic Multilingual Plane in registry data.
-            // Hence, the count of UTF-16 code points is a good estimate for the final string length.
-            string.reserve(u16_iter.len());
-
-            // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
-            let char_iter =
-                char::decode_utf16(u16_iter).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
-
-            for c in char_iter {
+            for code_unit in u16_iter {
                 // Some applications erroneously store NUL-terminated strings in the registry.
                 // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
-                if c == '\0' {
-                    return Ok(string);
-                } else {
-                    string.push(c);
+                if code_unit == 0 {
+                    break 'outer_loop;
                 }
+
+                code_units.push(code_unit);
             }
         }
 
-        Ok(string)
+        // Interpret the code units as UTF-16. Replace undecodable ones silently.
+        Ok(String::from_utf16_lossy(&code_units))
     }
 
     /// Checks if this is a `REG_SZ` or `REG_EXPAND_SZ` Key Value
-- 
2.43.0


From 1c5d7f87b7de1086ae35d66a809a0aaf5e0cdfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 13/15] fix: decode surrogate pairs split over two big data
 segments in multi_string_data

---
 src/key_value.rs | 54 ++++++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index 60b92ca..5ff2ede 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -23,7 +23,6 @@ use crate::string::NtHiveNameString;
 use {
     alloc::{string::String, vec::Vec},
     core::{
-        char::{self, DecodeUtf16, DecodeUtf16Error},
         iter::{self, FusedIterator, Map},
         slice::ChunksExact,
     },
@@ -425,10 +424,7 @@ where
 impl<B> Eq for KeyValue<'_, B> where B: SplitByteSlice {}
 
 #[cfg(feature = "alloc")]
-type RegMultiSZCharIter<'h> = Map<
-    DecodeUtf16<Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>>,
-    fn(Result<char, DecodeUtf16Error>) -> char,
->;
+type RegMultiSZCodeUnitIter<'h> = Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>;
 
 #[cfg(feature = "alloc")]
 #[derive(Clone)]
@@ -436,7 +432,7 @@ pub struct RegMultiSZStrings<'h, B>
 where
     B: SplitByteSlice + 'h,
 {
-    char_iter: Option<RegMultiSZCharIter<'h>>,
+    code_unit_iter: Option<RegMultiSZCodeUnitIter<'h>>,
     big_iter: Option<BigDataSlices<'h, B>>,
 }
 
@@ -447,34 +443,27 @@ where
 {
     fn small(data: &'h [u8]) -> Self {
         Self {
-            char_iter: Some(Self::make_char_iter(data)),
+            code_unit_iter: Some(Self::make_code_unit_iter(data)),
             big_iter: None,
         }
     }
 
     fn big(iter: BigDataSlices<'h, B>) -> Self {
         Self {
-            char_iter: None,
+            code_unit_iter: None,
             big_iter: Some(iter),
         }
     }
 
-    fn make_char_iter(slice_data: &'h [u8]) -> RegMultiSZCharIter<'h> {
-        let u16_iter = slice_data
+    fn make_code_unit_iter(slice_data: &'h [u8]) -> RegMultiSZCodeUnitIter<'h> {
+        slice_data
             .chunks_exact(2)
-            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16);
-        char::decode_utf16(u16_iter).map(
-            Self::unwrap_or_replacement_character as fn(Result<char, DecodeUtf16Error>) -> char,
-        )
+            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16)
     }
 
     fn u16_from_le_bytes(two_bytes: &[u8]) -> u16 {
         u16::from_le_bytes(two_bytes.try_into().unwrap())
     }
-
-    fn unwrap_or_replacement_character(input: Result<char, DecodeUtf16Error>) -> char {
-        input.unwrap_or(char::REPLACEMENT_CHARACTER)
-    }
 }
 
 #[cfg(feature = "alloc")]
@@ -485,11 +474,11 @@ where
     type Item = Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let mut string = String::new();
+        let mut code_units = Vec::new();
 
         'outer_loop: loop {
-            let char_iter = match self.char_iter.as_mut() {
-                Some(char_iter) => char_iter,
+            let code_unit_iter = match self.code_unit_iter.as_mut() {
+                Some(code_unit_iter) => code_unit_iter,
                 None => {
                     let big_iter = match self.big_iter.as_mut() {
                         Some(big_iter) => big_iter,
@@ -500,34 +489,35 @@ where
                         Some(Err(e)) => return Some(Err(e)),
                         None => break 'outer_loop,
                     };
-                    let char_iter = Self::make_char_iter(slice_data);
-                    self.char_iter = Some(char_iter);
+                    let code_unit_iter = Self::make_code_unit_iter(slice_data);
+                    self.code_unit_iter = Some(code_unit_iter);
                     continue 'outer_loop;
                 }
             };
 
-            for c in char_iter {
+            for code_unit in code_unit_iter {
                 // REG_MULTI_SZ data consists of multiple strings each terminated by a NUL character.
                 // The final string has a double-NUL termination.
                 //
                 // However, we will happily accept data without terminating NUL characters as well.
-                if c == '\0' {
+                if code_unit == 0 {
                     break 'outer_loop;
                 } else {
-                    string.push(c);
+                    code_units.push(code_unit);
                 }
             }
 
-            // We have fully iterated all characters of this slice.
-            // Get a new `char_iter` in the next iteration of the outer loop, and concatenate characters
-            // to our `string` until we find a NUL or no more data.
-            self.char_iter = None;
+            // We have fully iterated all code units of this slice.
+            // Get a new `code_unit_iter` in the next iteration of the outer loop, and concatenate code units
+            // in our `code_units` until we find a NUL or no more data.
+            self.code_unit_iter = None;
         }
 
-        if string.is_empty() {
+        if code_units.is_empty() {
             None
         } else {
-            Some(Ok(string))
+            // Decode all code units of the string at once, because a segment boundary may be inside a surrogate pair.
+            Some(Ok(String::from_utf16_lossy(&code_units)))
         }
     }
 }
-- 
2.43.0


From 57ffd10dd5377dc83ae922886050cb8af6621e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 14/15] fix: end RegMultiSZStrings at the final terminator and
 after an error

---
 src/key_value.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index 5ff2ede..9e7d3e6 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -486,7 +486,11 @@ where
                     };
                     let slice_data = match big_iter.next() {
                         Some(Ok(slice_data)) => slice_data,
-                        Some(Err(e)) => return Some(Err(e)),
+                        Some(Err(e)) => {
+                            // Stop here, because the remaining slices would no longer start at a string.
+                            self.big_iter = None;
+                            return Some(Err(e));
+                        }
                         None => break 'outer_loop,
                     };
                     let code_unit_iter = Self::make_code_unit_iter(slice_data);
@@ -514,6 +518,9 @@ where
         }
 
         if code_units.is_empty() {
+            // We have reached the end (or the final double-NUL termination), so don't return anything after it.
+            self.code_unit_iter = None;
+            self.big_iter = None;
             None
         } else {
             // Decode all code units of the string at once, because a segment boundary may be inside a surrogate pair.
-- 
2.43.0


From 38bf27578b700429046b673cd813e16121843c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 15/15] fix: do not apply formatting options to each single
 character of a name

---
 src/string.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 7c16954..c45b0fd 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -3,7 +3,7 @@
 
 use core::char;
 use core::cmp::Ordering;
-use core::fmt;
+use core::fmt::{self, Write};
 
 #[cfg(feature = "alloc")]
 use alloc::string::String;
@@ -1346,7 +1346,7 @@ impl fmt::Display for NtHiveNameString<'_> {
             Self::Latin1(bytes) => {
                 for byte in bytes.iter() {
                     let single_char = *byte as char;
-                    single_char.fmt(f)?;
+                    f.write_char(single_char)?;
                 }
             }
             Self::Utf16LE(_) => {
@@ -1354,7 +1354,7 @@ impl fmt::Display for NtHiveNameString<'_> {
                     .map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
 
                 for single_char in utf16_iter {
-                    single_char.fmt(f)?;
+                    f.write_char(single_char)?;
                 }
             }
         }
-- 
2.43.0


From 3dc673aba2e4d6d5bf54ffc99dba23257bf4a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 01/11] fix: append() must leave the other vector empty when
 block-aligned

The fast path moved the storage of `other` away but kept its length, so
`other` reported elements backed by no storage: reading them was an
out-of-bounds access from safe code.
---
 enum_vec/gen.sh                  | 2 +-
 enum_vec/src/smallvec_u32/mod.rs | 2 +-
 enum_vec/src/vec_u128/mod.rs     | 1 +
 enum_vec/src/vec_u16/mod.rs      | 1 +
 enum_vec/src/vec_u32/mod.rs      | 1 +
 enum_vec/src/vec_u64/mod.rs      | 1 +
 enum_vec/src/vec_u8/mod.rs       | 1 +
 7 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/enum_vec/gen.sh b/enum_vec/gen.sh
index 9589321..1f4cf47 100755
--- a/enum_vec/gen.sh
+++ b/enum_vec/gen.sh
@@ -5,4 +5,4 @@ cat src/vec_u32/mod.rs | sed -e 's/vec_u32/vec_u16/g' -e 's/StorageBlock = u32/S
 cat src/vec_u32/mod.rs | sed -e 's/vec_u32/vec_u64/g' -e 's/StorageBlock = u32/StorageBlock = u64/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 64/g' -e 's,+ Self::ERROR_TOO_MANY_VARIANTS,//+ Self::ERROR_TOO_MANY_VARIANTS,g' -e 's,const ERROR_TOO_MANY_VARIANTS: usize = [^;]*;,/*&*/,g' > src/vec_u64/mod.rs
 cat src/vec_u32/mod.rs | sed -e 's/vec_u32/vec_u128/g' -e 's/StorageBlock = u32/StorageBlock = u128/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 128/g' -e 's,+ Self::ERROR_TOO_MANY_VARIANTS,//+ Self::ERROR_TOO_MANY_VARIANTS,g' -e 's,const ERROR_TOO_MANY_VARIANTS: usize = [^;]*;,/*&*/,g' > src/vec_u128/mod.rs
 
-cat src/vec_u32/mod.rs | sed -e '2iuse smallvec::SmallVec;' -e 's/vec_u32/smallvec_u32/g' -e 's/StorageBlock = u32/StorageBlock = u32/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 32/g' -e 's/Storage = Vec<StorageBlock>/Storage = SmallVec<[StorageBlock; 4]>/g' -e 's/self.storage.append(&mut other.storage);/self.storage.extend_from_slice(\&other.storage);\nother.clear();/g' > src/smallvec_u32/mod.rs
+cat src/vec_u32/mod.rs | sed -e '2iuse smallvec::SmallVec;' -e 's/vec_u32/smallvec_u32/g' -e 's/StorageBlock = u32/StorageBlock = u32/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 32/g' -e 's/Storage = Vec<StorageBlock>/Storage = SmallVec<[StorageBlock; 4]>/g' -e 's/self.storage.append(&mut other.storage);/self.storage.extend_from_slice(\&other.storage);/g' > src/smallvec_u32/mod.rs
diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 2ffe467..40b9021 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -397,7 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.extend_from_slice(&other.storage);
-other.clear();
+            other.clear();
             self.num_elements += other_len;
         } else {
             // Otherwise, just push every element
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index b92800e..ccc1b60 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -396,6 +396,7 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.append(&mut other.storage);
+            other.clear();
             self.num_elements += other_len;
         } else {
             // Otherwise, just push every element
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index b59a139..72c9c4c 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -396,6 +396,7 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.append(&mut other.storage);
+            other.clear();
             self.num_elements += other_len;
         } else {
             // Otherwise, just push every element
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 9a22f41..9798297 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -396,6 +396,7 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.append(&mut other.storage);
+            other.clear();
             self.num_elements += other_len;
         } else {
             // Otherwise, just push every element
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 05af01d..bd10d94 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -396,6 +396,7 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.append(&mut other.storage);
+            other.clear();
             self.num_elements += other_len;
         } else {
             // Otherwise, just push every element
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index fd2e0a4..19cd0b0 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -396,6 +396,7 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.append(&mut other.storage);
+            other.clear();
             self.num_elements += other_len;
         } else {
             // Otherwise, just push every element
-- 
2.43.0


From ead7fc62575235a2093dcfefa69767c964cb04c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 02/11] fix: remove() must not shift garbage from the unused
 bits into an element

When the element width does not divide the block width, insert() and
from_elem() leave non-zero bits above the last element of a block, and
remove() shifted them into the last element.
---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 40b9021..a78f6fd 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -277,6 +277,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits above the last element may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index ccc1b60..5c73cbc 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits above the last element may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 72c9c4c..b781471 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits above the last element may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 9798297..85a875b 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits above the last element may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index bd10d94..72663ec 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits above the last element may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 19cd0b0..207f452 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused bits above the last element may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
-- 
2.43.0


From 7b094db07568e90550325b17c384e9b1ae73d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 03/11] fix: insert() and remove() for elements as wide as one
 storage block

Shifting a block by its own width overflows: a panic in debug builds, wrong
elements in release builds.
---
 enum_vec/src/smallvec_u32/mod.rs | 6 ++++--
 enum_vec/src/vec_u128/mod.rs     | 6 ++++--
 enum_vec/src/vec_u16/mod.rs      | 6 ++++--
 enum_vec/src/vec_u32/mod.rs      | 6 ++++--
 enum_vec/src/vec_u64/mod.rs      | 6 ++++--
 enum_vec/src/vec_u8/mod.rs       | 6 ++++--
 6 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index a78f6fd..9331b29 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -209,7 +209,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block << (Self::BITS_PER_ELEM - 1)) << 1;
             *block |= at_zero;
 
             last
@@ -276,7 +277,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block >> (Self::BITS_PER_ELEM - 1)) >> 1;
             // The unused bits above the last element may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 5c73cbc..3e3c2c8 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block << (Self::BITS_PER_ELEM - 1)) << 1;
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block >> (Self::BITS_PER_ELEM - 1)) >> 1;
             // The unused bits above the last element may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index b781471..ac14961 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block << (Self::BITS_PER_ELEM - 1)) << 1;
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block >> (Self::BITS_PER_ELEM - 1)) >> 1;
             // The unused bits above the last element may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 85a875b..e52f659 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block << (Self::BITS_PER_ELEM - 1)) << 1;
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block >> (Self::BITS_PER_ELEM - 1)) >> 1;
             // The unused bits above the last element may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 72663ec..c187067 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block << (Self::BITS_PER_ELEM - 1)) << 1;
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block >> (Self::BITS_PER_ELEM - 1)) >> 1;
             // The unused bits above the last element may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 207f452..3dcbdb4 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block << (Self::BITS_PER_ELEM - 1)) << 1;
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // Shift in two steps: one element may use the whole block
+            *block = (*block >> (Self::BITS_PER_ELEM - 1)) >> 1;
             // The unused bits above the last element may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
-- 
2.43.0


From d257b7968949319470dd078b412d8502fbc26b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 04/11] fix: count the bits of elements with more than 2^32
 variants

The 64-bit and 128-bit vectors accept such elements, but stored each of
them in 32 bits: the high bits were lost and overwrote the next element.
---
 enum_vec/src/smallvec_u32/mod.rs | 35 ++++++++++++++++++++++++++++++--
 enum_vec/src/vec_u128/mod.rs     | 35 ++++++++++++++++++++++++++++++--
 enum_vec/src/vec_u16/mod.rs      | 35 ++++++++++++++++++++++++++++++--
 enum_vec/src/vec_u32/mod.rs      | 35 ++++++++++++++++++++++++++++++--
 enum_vec/src/vec_u64/mod.rs      | 35 ++++++++++++++++++++++++++++++--
 enum_vec/src/vec_u8/mod.rs       | 35 ++++++++++++++++++++++++++++++--
 6 files changed, 198 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 9331b29..2495015 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -66,6 +66,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,8 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
     //const ZERO_SIZED: bool = Self::BITS_PER_ELEM == 0;
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
-    // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = !0 >> (STORAGE_BLOCK_SIZE - Self::BITS_PER_ELEM);
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 3e3c2c8..51a4021 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -79,8 +111,7 @@ impl<T: EnumLike> EnumVec<T> {
     //const ZERO_SIZED: bool = Self::BITS_PER_ELEM == 0;
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
-    // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = !0 >> (STORAGE_BLOCK_SIZE - Self::BITS_PER_ELEM);
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index ac14961..92f19d8 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -79,8 +111,7 @@ impl<T: EnumLike> EnumVec<T> {
     //const ZERO_SIZED: bool = Self::BITS_PER_ELEM == 0;
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
-    // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = !0 >> (STORAGE_BLOCK_SIZE - Self::BITS_PER_ELEM);
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index e52f659..a3aa605 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -79,8 +111,7 @@ impl<T: EnumLike> EnumVec<T> {
     //const ZERO_SIZED: bool = Self::BITS_PER_ELEM == 0;
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
-    // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = !0 >> (STORAGE_BLOCK_SIZE - Self::BITS_PER_ELEM);
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index c187067..6bba80c 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -79,8 +111,7 @@ impl<T: EnumLike> EnumVec<T> {
     //const ZERO_SIZED: bool = Self::BITS_PER_ELEM == 0;
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
-    // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = !0 >> (STORAGE_BLOCK_SIZE - Self::BITS_PER_ELEM);
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 3dcbdb4..e782ada 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -79,8 +111,7 @@ impl<T: EnumLike> EnumVec<T> {
     //const ZERO_SIZED: bool = Self::BITS_PER_ELEM == 0;
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
-    // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = !0 >> (STORAGE_BLOCK_SIZE - Self::BITS_PER_ELEM);
     pub fn new() -> Self {
         Default::default()
     }
-- 
2.43.0


From 0551d9a2be4179826a2146745466e3e7751daf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 05/11] fix: split_off() must initialize the storage of the new
 vector

The elements were written past the length of the new storage, which is
out of bounds, and lost as soon as it was cloned or resized.
---
 enum_vec/src/smallvec_u32/mod.rs | 1 +
 enum_vec/src/vec_u128/mod.rs     | 1 +
 enum_vec/src/vec_u16/mod.rs      | 1 +
 enum_vec/src/vec_u32/mod.rs      | 1 +
 enum_vec/src/vec_u64/mod.rs      | 1 +
 enum_vec/src/vec_u8/mod.rs       | 1 +
 6 files changed, 6 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 2495015..8760fea 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -484,6 +484,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 51a4021..269dbab 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -483,6 +483,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 92f19d8..73e091a 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -483,6 +483,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index a3aa605..ca90fd3 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -483,6 +483,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 6bba80c..1d997d8 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -483,6 +483,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index e782ada..3ec2642 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -483,6 +483,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
-- 
2.43.0


From db5e43be0d9cbeb31a253a38afdb35147f363605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 06/11] fix: from_elem() and resize() must not use a quadratic
 amount of memory

The storage grew by count_blocks blocks, count_blocks times: 10 million
bools asked for 390 GB.
---
 enum_vec/src/smallvec_u32/mod.rs | 6 ++----
 enum_vec/src/vec_u128/mod.rs     | 6 ++----
 enum_vec/src/vec_u16/mod.rs      | 6 ++----
 enum_vec/src/vec_u32/mod.rs      | 6 ++----
 enum_vec/src/vec_u64/mod.rs      | 6 ++----
 enum_vec/src/vec_u8/mod.rs       | 6 ++----
 6 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 8760fea..42c8ced 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -548,10 +548,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 269dbab..a9768e6 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -547,10 +547,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 73e091a..6ca046b 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -547,10 +547,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index ca90fd3..fb5abf3 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -547,10 +547,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 1d997d8..b5cfdd4 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -547,10 +547,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 3ec2642..ac2bb40 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -547,10 +547,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
-- 
2.43.0


From dc7ccb99b16a6ca8385c4c113256f678da7ed8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 07/11] fix: reserve() must not wrap around when each block
 holds one element

With one element per block, reserving up to usize::MAX elements (as
extend() does for an endless iterator) resized the storage to 0 blocks in
release builds, and the next write was out of bounds.
---
 enum_vec/src/smallvec_u32/mod.rs | 5 ++++-
 enum_vec/src/vec_u128/mod.rs     | 5 ++++-
 enum_vec/src/vec_u16/mod.rs      | 5 ++++-
 enum_vec/src/vec_u32/mod.rs      | 5 ++++-
 enum_vec/src/vec_u64/mod.rs      | 5 ++++-
 enum_vec/src/vec_u8/mod.rs       | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 42c8ced..45880a2 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -173,7 +173,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index a9768e6..1961d56 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -172,7 +172,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 6ca046b..5b4dbc2 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -172,7 +172,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index fb5abf3..74f127e 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -172,7 +172,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index b5cfdd4..ac68386 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -172,7 +172,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index ac2bb40..b936b0e 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -172,7 +172,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
-- 
2.43.0


From e6783e106f43174ec5baf66aa8dcf6553daf452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 08/11] fix: Values::nth() must not overflow

`values().nth(usize::MAX)` after the first element panicked in debug builds
and went back to an already visited value in release builds.
---
 enum_like/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index 035954f..8b7186a 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -630,7 +630,7 @@ impl<T: EnumLike> Iterator for Values<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        if self.current + n < self.max {
+        if n < self.max - self.current {
             self.current += n;
 
             self.next()
-- 
2.43.0


From 8a910de1f36a19001486497e22dee177768c71bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 09/11] fix: array to_discr() must not create uninitialized
 elements

It is undefined behavior, and it panics when the bit pattern which
mem::uninitialized() uses is not a valid value of the element type, for
example for `enum E { A = 100, B = 101 }`.
---
 enum_like/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index 8b7186a..e8dc8cc 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -364,15 +364,12 @@ macro_rules! array_impls {
     } => {
 unsafe impl<$T0: EnumLike> EnumLike for [$T0; $N] {
     const NUM_VARIANTS: usize = <($($T,)+)>::NUM_VARIANTS;
-    fn to_discr(mut self) -> usize {
-        use std::mem;
-        unsafe {
+    fn to_discr(self) -> usize {
         (
             $(
-                mem::replace(&mut self[$N - 1 - $idx], mem::uninitialized()),
+                self[$N - 1 - $idx],
             )+
         ).to_discr()
-        }
     }
     fn from_discr(x: usize) -> Self {
         let t = <($($T,)+)>::from_discr(x);
-- 
2.43.0


From fbf36288811e8e22c3985aa6d165750cd99c38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 10/11] fix: insert() past the end must panic, not append

---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 45880a2..2433af2 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -240,6 +240,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 1961d56..b35bcbe 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -239,6 +239,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 5b4dbc2..59e31b8 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -239,6 +239,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 74f127e..be886ad 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -239,6 +239,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index ac68386..03794b6 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -239,6 +239,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index b936b0e..d633b8f 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -239,6 +239,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-- 
2.43.0


From d22d0f0944d05942f9159b85aeb0b7a9f891641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 11/11] fix: EnumSet iterators must not forward bit-set's wrong
 upper size hint

bit-set computes the upper bound from the blocks not yet reached, so the
hint is (0, Some(1)) for any set kept in one block.
---
 enum_set/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enum_set/src/lib.rs b/enum_set/src/lib.rs
index d921812..8e05ae0 100644
--- a/enum_set/src/lib.rs
+++ b/enum_set/src/lib.rs
@@ -224,7 +224,9 @@ impl<E: EnumLike, I: Iterator<Item=usize>> Iterator for WrapIter<E, I> {
         self.inner.next().map(|x| E::from_discr(x))
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.inner.size_hint()
+        // The upper bound reported by bit-set ignores the rest of the block it
+        // is at, but each value is yielded at most once.
+        (self.inner.size_hint().0, Some(E::NUM_VARIANTS))
     }
 }
 
-- 
2.43.0


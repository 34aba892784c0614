From f38c9ed8e516ea83538b2275a4a2de1c21cf6440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 01/13] fix: split_off wrote past the end of the new vector's
 storage

with_capacity allocates but leaves the storage empty, so every unchecked
access to the returned vector was out of bounds (abort in debug builds,
lost elements after clone or push in release builds).
---
 enum_vec/src/smallvec_u32/mod.rs | 1 +
 enum_vec/src/vec_u128/mod.rs     | 1 +
 enum_vec/src/vec_u16/mod.rs      | 1 +
 enum_vec/src/vec_u32/mod.rs      | 1 +
 enum_vec/src/vec_u64/mod.rs      | 1 +
 enum_vec/src/vec_u8/mod.rs       | 1 +
 6 files changed, 6 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 2ffe467..5070471 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -449,6 +449,7 @@ other.clear();
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index b92800e..4d8d9f5 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -447,6 +447,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index b59a139..6c1723d 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -447,6 +447,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 9a22f41..95e8db8 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -447,6 +447,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 05af01d..3d478f3 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -447,6 +447,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index fd2e0a4..4302186 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -447,6 +447,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        other.storage.resize(Self::blocks_for_elements(other_len), 0);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
-- 
2.43.0


From 2893bceb182332edbc50856388cd813dafdaec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 02/13] fix: block-aligned append left the argument non-empty
 without storage

The argument kept its length while its storage had been moved out, so it
was not empty as documented and reading it was out of bounds.
---
 enum_vec/src/smallvec_u32/mod.rs | 1 +
 enum_vec/src/vec_u128/mod.rs     | 1 +
 enum_vec/src/vec_u16/mod.rs      | 1 +
 enum_vec/src/vec_u32/mod.rs      | 1 +
 enum_vec/src/vec_u64/mod.rs      | 1 +
 enum_vec/src/vec_u8/mod.rs       | 1 +
 6 files changed, 6 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 5070471..b8334e7 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -399,6 +399,7 @@ impl<T: EnumLike> EnumVec<T> {
             self.storage.extend_from_slice(&other.storage);
 other.clear();
             self.num_elements += other_len;
+            other.num_elements = 0;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 4d8d9f5..a4c81d5 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.num_elements = 0;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 6c1723d..15a8e53 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.num_elements = 0;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 95e8db8..f5f890d 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.num_elements = 0;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 3d478f3..508a400 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.num_elements = 0;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 4302186..0f9635b 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.num_elements = 0;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
-- 
2.43.0


From 708d976accf418370c420231ac2bd5a704438cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 03/13] fix: remove mixed garbage from unused block bits into
 an element

When the element size does not divide the block size, insert and the
bulk fill leave data in the unused bits, which remove shifted into the
last element of the block and then ORed with the new value.
---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index b8334e7..40653a3 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -277,6 +277,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // Discard whatever was in the unused bits of the block
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index a4c81d5..3d987c8 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // Discard whatever was in the unused bits of the block
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 15a8e53..881b4f1 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // Discard whatever was in the unused bits of the block
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index f5f890d..fa8fdfc 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // Discard whatever was in the unused bits of the block
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 508a400..5fc0a16 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // Discard whatever was in the unused bits of the block
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 0f9635b..525e2a6 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // Discard whatever was in the unused bits of the block
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
-- 
2.43.0


From e67e4753fbfffcd2d1794013289113a0d274b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 04/13] fix: insert and remove when an element is as wide as a
 block

Shifting a block by its own width panics in debug builds and does nothing
in release builds, where the elements got mixed up.
---
 enum_vec/src/smallvec_u32/mod.rs | 5 +++--
 enum_vec/src/vec_u128/mod.rs     | 5 +++--
 enum_vec/src/vec_u16/mod.rs      | 5 +++--
 enum_vec/src/vec_u32/mod.rs      | 5 +++--
 enum_vec/src/vec_u64/mod.rs      | 5 +++--
 enum_vec/src/vec_u8/mod.rs       | 5 +++--
 6 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 40653a3..140210f 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -209,7 +209,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -276,7 +277,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // Discard whatever was in the unused bits of the block
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 3d987c8..5379446 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // Discard whatever was in the unused bits of the block
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 881b4f1..d08cedb 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // Discard whatever was in the unused bits of the block
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index fa8fdfc..1a32686 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // Discard whatever was in the unused bits of the block
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 5fc0a16..2d3a240 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // Discard whatever was in the unused bits of the block
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 525e2a6..6d8b92c 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // Discard whatever was in the unused bits of the block
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
-- 
2.43.0


From 0eed5897ef6329133b29745d4ed6c9de972a1889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 05/13] fix: elements wider than 32 bits were stored in 32 bits

The 64 and 128-bit storages accept types with more than 2^32 variants, but
the bit count stopped at 32, so such values were truncated and overwrote
their neighbours.
---
 enum_vec/src/smallvec_u32/mod.rs | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u128/mod.rs     | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u16/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u32/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u64/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u8/mod.rs       | 34 +++++++++++++++++++++++++++++++-
 6 files changed, 198 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 140210f..5429790 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -66,6 +66,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -81,7 +113,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 5379446..fd5bfa5 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index d08cedb..7b60e0e 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 1a32686..cd55a78 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 2d3a240..1759c46 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 6d8b92c..b7f3af0 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1u64 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
-- 
2.43.0


From ea72b6bb1e5e99ef43935aded85892d6de925fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 06/13] fix: filling with a repeated value allocated quadratic
 memory

The blocks were appended count_blocks times over, so from_elem(x, n) and
resize needed O(n^2) memory and time.
---
 enum_vec/src/smallvec_u32/mod.rs | 6 ++----
 enum_vec/src/vec_u128/mod.rs     | 6 ++----
 enum_vec/src/vec_u16/mod.rs      | 6 ++----
 enum_vec/src/vec_u32/mod.rs      | 6 ++----
 enum_vec/src/vec_u64/mod.rs      | 6 ++----
 enum_vec/src/vec_u8/mod.rs       | 6 ++----
 6 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 5429790..22cdc6b 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -549,10 +549,8 @@ other.clear();
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index fd5bfa5..5145a1e 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -547,10 +547,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 7b60e0e..ad0bb6f 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -547,10 +547,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index cd55a78..dae892b 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -547,10 +547,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 1759c46..f98de48 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -547,10 +547,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index b7f3af0..eea7dad 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -547,10 +547,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
-- 
2.43.0


From 231c42046ad1e2409a41970ac2b07e43b522fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 07/13] fix: reserve could wrap around and drop the storage

With one element per block, reserving up to usize::MAX elements overflowed
the block count to zero in release builds and truncated the storage of a
non-empty vector.
---
 enum_vec/src/smallvec_u32/mod.rs | 5 ++++-
 enum_vec/src/vec_u128/mod.rs     | 5 ++++-
 enum_vec/src/vec_u16/mod.rs      | 5 ++++-
 enum_vec/src/vec_u32/mod.rs      | 5 ++++-
 enum_vec/src/vec_u64/mod.rs      | 5 ++++-
 enum_vec/src/vec_u8/mod.rs       | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 22cdc6b..3ee19aa 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -174,7 +174,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 5145a1e..2f95c9b 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -173,7 +173,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index ad0bb6f..530dc86 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -173,7 +173,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index dae892b..c79555b 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -173,7 +173,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index f98de48..cf510ca 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -173,7 +173,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index eea7dad..fd38e6e 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -173,7 +173,10 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        let desired_blocks = (desired_cap / Self::ELEMS_PER_BLOCK)
+            .checked_add(1)
+            .expect("capacity overflow");
+        self.storage.resize(desired_blocks, 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
-- 
2.43.0


From e65fe67ed9d917f80b2d265b3360e3452fd20a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 08/13] fix: extend exposed elements that were never supplied

The length was increased before reading the iterator, so when it panicked
or returned fewer elements than its size hint the vector ended up with
elements made of stale data.
---
 enum_vec/src/smallvec_u32/mod.rs | 11 +++--------
 enum_vec/src/vec_u128/mod.rs     | 11 +++--------
 enum_vec/src/vec_u16/mod.rs      | 11 +++--------
 enum_vec/src/vec_u32/mod.rs      | 11 +++--------
 enum_vec/src/vec_u64/mod.rs      | 11 +++--------
 enum_vec/src/vec_u8/mod.rs       | 11 +++--------
 6 files changed, 18 insertions(+), 48 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 3ee19aa..b7ac8f5 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -945,17 +945,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow after each element is available: the
+        // iterator may panic or return fewer elements than it promised
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 2f95c9b..968d749 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -943,17 +943,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow after each element is available: the
+        // iterator may panic or return fewer elements than it promised
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 530dc86..df10b4c 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -943,17 +943,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow after each element is available: the
+        // iterator may panic or return fewer elements than it promised
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index c79555b..158e83a 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -943,17 +943,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow after each element is available: the
+        // iterator may panic or return fewer elements than it promised
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index cf510ca..6ec107c 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -943,17 +943,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow after each element is available: the
+        // iterator may panic or return fewer elements than it promised
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index fd38e6e..3e278c3 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -943,17 +943,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow after each element is available: the
+        // iterator may panic or return fewer elements than it promised
         for elem in iter {
             self.push(elem);
         }
-- 
2.43.0


From 8c7153733404b198ce80777ad661840bed411ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 09/13] fix: insert past the end silently pushed instead of
 panicking

Every other positional operation refuses an index out of bounds, and so
does Vec::insert.
---
 enum_vec/src/smallvec_u32/mod.rs | 1 +
 enum_vec/src/vec_u128/mod.rs     | 1 +
 enum_vec/src/vec_u16/mod.rs      | 1 +
 enum_vec/src/vec_u32/mod.rs      | 1 +
 enum_vec/src/vec_u64/mod.rs      | 1 +
 enum_vec/src/vec_u8/mod.rs       | 1 +
 6 files changed, 6 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index b7ac8f5..6509ed6 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -251,6 +251,7 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 968d749..d029233 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -250,6 +250,7 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index df10b4c..8d1d908 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -250,6 +250,7 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 158e83a..ab72c4d 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -250,6 +250,7 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 6ec107c..4214c2c 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -250,6 +250,7 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 3e278c3..767d4d9 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -250,6 +250,7 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
-- 
2.43.0


From 8bab08d5348bf6119ee646b1baa45d29ce61f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 10/13] fix: Values::nth overflowed for large arguments

It panicked in debug builds, and in release builds it wrapped around and
returned an earlier value.
---
 enum_like/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index 035954f..8b7186a 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -630,7 +630,7 @@ impl<T: EnumLike> Iterator for Values<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        if self.current + n < self.max {
+        if n < self.max - self.current {
             self.current += n;
 
             self.next()
-- 
2.43.0


From 893b883bf600262dc9e2c15cacac2b9702852b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 11/13] fix: to_discr of arrays aborted for some element types

mem::uninitialized aborts for types which cannot hold its filler, for
example enums with explicit discriminants. EnumLike types are Copy, so the
elements can just be copied.
---
 enum_like/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index 8b7186a..e8dc8cc 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -364,15 +364,12 @@ macro_rules! array_impls {
     } => {
 unsafe impl<$T0: EnumLike> EnumLike for [$T0; $N] {
     const NUM_VARIANTS: usize = <($($T,)+)>::NUM_VARIANTS;
-    fn to_discr(mut self) -> usize {
-        use std::mem;
-        unsafe {
+    fn to_discr(self) -> usize {
         (
             $(
-                mem::replace(&mut self[$N - 1 - $idx], mem::uninitialized()),
+                self[$N - 1 - $idx],
             )+
         ).to_discr()
-        }
     }
     fn from_discr(x: usize) -> Self {
         let t = <($($T,)+)>::from_discr(x);
-- 
2.43.0


From 40e7c2e1cf05e7ad71b5b7ea1a2427eca611f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 12/13] fix: size_hint of the set iterators promised too few
 elements

The upper bound of the bit-set 0.5 iterators ignores the bits left in the
current word: a set with four elements reported an upper bound of one.
---
 enum_set/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enum_set/src/lib.rs b/enum_set/src/lib.rs
index d921812..766d2f0 100644
--- a/enum_set/src/lib.rs
+++ b/enum_set/src/lib.rs
@@ -224,7 +224,9 @@ impl<E: EnumLike, I: Iterator<Item=usize>> Iterator for WrapIter<E, I> {
         self.inner.next().map(|x| E::from_discr(x))
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.inner.size_hint()
+        // The upper bound reported by the `bit-set` iterators can be too low
+        let (lower, _) = self.inner.size_hint();
+        (lower, Some(E::NUM_VARIANTS))
     }
 }
 
-- 
2.43.0


From f32165b71d130fff26e97da81c028579f6bee2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 13/13] fix: push left a stale element when to_discr panicked

---
 enum_vec/src/smallvec_u32/mod.rs | 4 +++-
 enum_vec/src/vec_u128/mod.rs     | 4 +++-
 enum_vec/src/vec_u16/mod.rs      | 4 +++-
 enum_vec/src/vec_u32/mod.rs      | 4 +++-
 enum_vec/src/vec_u64/mod.rs      | 4 +++-
 enum_vec/src/vec_u8/mod.rs       | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 6509ed6..ac2aedf 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -390,12 +390,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // If `to_discr` panics the length must not cover the new slot
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index d029233..7d50f80 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -389,12 +389,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // If `to_discr` panics the length must not cover the new slot
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 8d1d908..7735fa6 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -389,12 +389,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // If `to_discr` panics the length must not cover the new slot
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index ab72c4d..b03e1d9 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -389,12 +389,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // If `to_discr` panics the length must not cover the new slot
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 4214c2c..bdbcf24 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -389,12 +389,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // If `to_discr` panics the length must not cover the new slot
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 767d4d9..4cd2a5d 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -389,12 +389,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // If `to_discr` panics the length must not cover the new slot
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
-- 
2.43.0


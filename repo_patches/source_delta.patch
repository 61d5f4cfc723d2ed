From 06267a91e2f53a28fe1a34ab76af5068b5675859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:05 +0000
Subject: [PATCH 01/10] fix: keep select inside the index and return None past
 the last one

Ranks are zero-based, so the first rank without an answer equals the
number of ones. select panicked or returned garbage for it. The search
for the L1 block also read one entry past the end of the index whenever
the answer lay in the last block.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index d82cff9..8c65058 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -249,18 +249,14 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
 
 impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
     fn select(&self, mut rank: usize) -> Option<usize> {
-        if rank > self.number_of_ones {
+        if rank >= self.number_of_ones {
             return None;
         }
         let mut l1_index = self.sampled_ones.get(rank >> 13);
-        // SAFETY: The data in sampled_ones should be correct, so this must work too
-        let mut l1 = unsafe { self.l1(l1_index) };
         // Find the l1 block that contains the 1 we need
-        while l1 <= rank && l1_index < self.l1_index.len() {
+        while l1_index + 1 < self.l1_index.len() && unsafe { self.l1(l1_index + 1) } <= rank {
             l1_index += 1;
-            l1 = unsafe { self.l1(l1_index) };
         }
-        l1_index -= 1;
         rank -= unsafe { self.l1(l1_index) };
 
         // Find the correct l2 block inside the l1 block
-- 
2.43.0


From 1a01b43d9f67a3ddfb918ae5497840d2f031e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:05 +0000
Subject: [PATCH 02/10] fix: do not read out of bounds in rank

rank is a safe function but never checked its index. It read past the
bit vector for indices behind the end, past the last word when ranking
the full length of a vector that fills its words, and from an empty
index for an empty vector. Reject indices greater than the length.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 8c65058..70edfc9 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -66,7 +66,7 @@ impl<'a, T> FlatPopcount<'a, T> {
         if backing.len() == 0 {
             return Self {
                 backing,
-                l1_index: Vec::with_capacity(0),
+                l1_index: vec![0],
                 sampled_ones: IntVec::new(1),
                 _mark: Default::default(),
                 number_of_ones: 0
@@ -215,6 +215,9 @@ impl<'a, T> FlatPopcount<'a, T> {
 
 impl<T> RankSupport for FlatPopcount<'_, T> {
     fn rank<const TARGET: bool>(&self, index: usize) -> usize {
+        if index > self.len() {
+            panic!("index is {index} but length is {}", self.len())
+        }
         let l1_index = index >> L1_BLOCK_SIZE_EXP;
         let l2_index = (index >> L2_BLOCK_SIZE_EXP) & 0b0111;
         // The index inside of the L2 block
@@ -233,9 +236,9 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
             ones += unsafe { raw_backing.get_unchecked(word_start + i).count_ones() as usize };
         }
 
-        // Add the rest bits
-        unsafe {
-            ones += (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
+        // Add the rest bits. If there are none, the next word might not exist.
+        if rest_bits > 0 {
+            ones += (unsafe { raw_backing.get_unchecked(word_start + full_remaining_words) } & ((1 << rest_bits) - 1))
                 .count_ones() as usize
         }
 
-- 
2.43.0


From 61f1cd8527e44094abf7521cba49500914d7894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:52 +0000
Subject: [PATCH 03/10] fix: give the bit iterator an exact size_hint

The iterator implements ExactSizeIterator but kept the default size_hint
of (0, None). That breaks the trait's contract, and adapters such as
zip, take or skip panicked when asked for their length.
---
 succinct_neo/src/bit_vec/slice/trait_impls.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index 95a3015..e7c58f0 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -62,6 +62,11 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         self.current += 1;
         Some(v)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let n = self.end.saturating_sub(self.current);
+        (n, Some(n))
+    }
 }
 
 impl<Backing: BitGet> ExactSizeIterator for Iter<Backing> {
-- 
2.43.0


From d03c5332865c10300b4de498008d01fb25373879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:52 +0000
Subject: [PATCH 04/10] fix: give the integer vector iterators an exact
 size_hint

Both iterators implement ExactSizeIterator but kept the default
size_hint of (0, None). That breaks the trait's contract, and adapters
such as zip, take or skip panicked when asked for their length.
---
 succinct_neo/src/int_vec/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 2d07b9e..2d8dfee 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -200,6 +200,11 @@ impl Iterator for IntoIter {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let n = self.v.len() - self.i;
+        (n, Some(n))
+    }
 }
 
 impl ExactSizeIterator for IntoIter {
@@ -225,6 +230,11 @@ impl Iterator for Iter<'_> {
         self.i += 1;
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let n = self.v.len() - self.i;
+        (n, Some(n))
+    }
 }
 
 impl ExactSizeIterator for Iter<'_> {
-- 
2.43.0


From 7811e1d886e782e2a456728de450b166b8f18746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:52 +0000
Subject: [PATCH 05/10] fix: support full-word integers and reject impossible
 widths

A width equal to the word size made every shift by the width overflow:
pushing panicked in debug builds and rejected any value but 0 in release
builds. Greater widths were accepted by the constructor and then stored
corrupted values in release builds.
---
 succinct_neo/src/int_vec/mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 2d8dfee..df01177 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -21,6 +21,9 @@ impl IntVec {
     #[inline]
     pub fn with_capacity(width: usize, capacity: usize) -> Self {
         let block_size = Self::block_width();
+        if width == 0 || width > block_size {
+            panic!("width is {width} but must be between 1 and {block_size}")
+        }
         let num_blocks = (capacity * width) / block_size;
 
         let mut temp = Self {
@@ -41,7 +44,7 @@ impl IntVec {
 
     #[inline]
     const fn mask(&self) -> usize {
-        (1 << self.width) - 1
+        usize::MAX >> (Self::block_width() - self.width)
     }
 
     /// Calculates the current offset inside the last used block where the next integer would be
@@ -52,13 +55,16 @@ impl IntVec {
     }
 
     pub fn push(&mut self, v: usize) {
-        if v >= (1 << self.width) {
+        if v > self.mask() {
             panic!("value too large for {}-bit integer", self.width)
         }
         let offset = self.current_offset();
         let mask = self.mask();
         if offset == 0 {
             *self.data.last_mut().unwrap() |= v & mask;
+            if self.width == Self::block_width() {
+                self.data.push(0);
+            }
             self.size += 1;
             return;
         }
@@ -67,7 +73,6 @@ impl IntVec {
         if offset + self.width >= Self::block_width() {
             let fitting_bits = Self::block_width() - offset;
             let fitting_mask = (1 << fitting_bits) - 1;
-            let mask = (1 << self.width) - 1;
             *self.data.last_mut().unwrap() |= (v & fitting_mask) << offset;
             let hi = (v & mask) >> fitting_bits;
             self.data.push(hi);
@@ -115,7 +120,7 @@ impl IntAccess for IntVec {
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             let remaining_bits = self.width - fitting_bits;
             let lo = self.data[index_block] >> index_offset;
@@ -124,7 +129,7 @@ impl IntAccess for IntVec {
             return (hi << fitting_bits) | lo;
         }
 
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         (self.data[index_block] >> index_offset) & mask
     }
 
@@ -132,20 +137,20 @@ impl IntAccess for IntVec {
         if index >= self.len() {
             panic!("length is {} but index is {index}", self.len())
         }
-        if value >= (1 << self.width) {
+        if value > self.mask() {
             panic!("value {value} too large for {}-bit integer", self.width)
         }
         unsafe { self.set_unchecked(index, value) }
     }
 
     unsafe fn set_unchecked(&mut self, index: usize, value: usize) {
-        let mask = (1 << self.width) - 1;
+        let mask = self.mask();
         let value = value & mask;
         let index_block = (index * self.width) / Self::block_width();
         let index_offset = (index * self.width) % Self::block_width();
 
         // If we're on the border between blocks
-        if index_offset + self.width >= Self::block_width() {
+        if index_offset + self.width > Self::block_width() {
             let fitting_bits = Self::block_width() - index_offset;
             unsafe {
                 let lower_block = self.data.get_unchecked_mut(index_block);
-- 
2.43.0


From 3956f93479a2755717c40659aad521e9c9afc649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:52 +0000
Subject: [PATCH 06/10] fix: reject range bounds that overflow when slicing

In release builds the bound of a range such as ..=usize::MAX wrapped
around to 0, so an out-of-range request returned an empty view instead
of panicking.
---
 succinct_neo/src/bit_vec/slice/slicing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/bit_vec/slice/slicing.rs b/succinct_neo/src/bit_vec/slice/slicing.rs
index eca194f..229a546 100644
--- a/succinct_neo/src/bit_vec/slice/slicing.rs
+++ b/succinct_neo/src/bit_vec/slice/slicing.rs
@@ -64,13 +64,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice(&self, r: impl RangeBounds<usize>) -> BitSlice<&Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound too large"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound too large"),
             Bound::Unbounded => self.len(),
         };
 
@@ -163,13 +163,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice_mut(&mut self, r: impl RangeBounds<usize>) -> BitSlice<&mut Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound too large"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound too large"),
             Bound::Unbounded => self.len(),
         };
 
-- 
2.43.0


From 4a5493d3894829ef96b43d249c746c9f344d2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:52 +0000
Subject: [PATCH 07/10] fix: check the backing in the safe accessors of bit
 views

BitSlice::new and Iter::new are safe and cannot check that the backing
covers the given range. The checked accessors and the iterator then
accessed the backing unchecked, so safe code could read and write out of
bounds. A BitVec given such a view through DerefMut had the same effect,
also inside select. Use the checked accessors of the backing instead.
---
 succinct_neo/src/bit_vec/mod.rs                   | 4 ++--
 succinct_neo/src/bit_vec/slice/trait_impls.rs     | 8 ++++----
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/succinct_neo/src/bit_vec/mod.rs b/succinct_neo/src/bit_vec/mod.rs
index 789e891..59cfd77 100644
--- a/succinct_neo/src/bit_vec/mod.rs
+++ b/succinct_neo/src/bit_vec/mod.rs
@@ -94,7 +94,7 @@ impl BitModify for BitVec {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.size)
         }
-        unsafe { self.set_bit_unchecked(index, value) }
+        self.data.set_bit(index, value)
     }
 
     #[inline]
@@ -107,7 +107,7 @@ impl BitModify for BitVec {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.size)
         }
-        unsafe { self.flip_bit_unchecked(index) }
+        self.data.flip_bit(index)
     }
 }
 
diff --git a/succinct_neo/src/bit_vec/slice/trait_impls.rs b/succinct_neo/src/bit_vec/slice/trait_impls.rs
index e7c58f0..5f94b81 100644
--- a/succinct_neo/src/bit_vec/slice/trait_impls.rs
+++ b/succinct_neo/src/bit_vec/slice/trait_impls.rs
@@ -19,7 +19,7 @@ impl<Backing: BitGet> BitGet for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.get_bit_unchecked(index) }
+        self.backing.get_bit(self.start + index)
     }
 }
 
@@ -34,7 +34,7 @@ impl<Backing: BitModify> BitModify for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.set_bit_unchecked(index, value) }
+        self.backing.set_bit(self.start + index, value)
     }
 
     #[inline]
@@ -47,7 +47,7 @@ impl<Backing: BitModify> BitModify for BitSlice<Backing> {
         if index >= self.len() {
             panic!("index is {index} but length is {}", self.len())
         }
-        unsafe { self.flip_bit_unchecked(index) }
+        self.backing.flip_bit(self.start + index)
     }
 }
 
@@ -58,7 +58,7 @@ impl<Backing: BitGet> Iterator for Iter<Backing> {
         if self.current >= self.end {
             return None;
         }
-        let v = unsafe { self.backing.get_bit_unchecked(self.current) };
+        let v = self.backing.get_bit(self.current);
         self.current += 1;
         Some(v)
     }
diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index 70edfc9..ceab20f 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -271,7 +271,7 @@ impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
         let mut current_index = (l1_index << 6) + (l2_index << 3);
         let mut index_in_l2 = 0;
         loop {
-            let num_ones = unsafe { self.backing.raw().get_unchecked(current_index).count_ones() as usize};
+            let num_ones = self.backing.raw()[current_index].count_ones() as usize;
             if num_ones <= rank {
                 rank -= num_ones;
                 current_index += 1;
-- 
2.43.0


From 2cfae44d07e3b0a7d4fbbcaba86252cda8be4911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:32 +0000
Subject: [PATCH 08/10] fix: export SelectSupport so that select can be called

The trait lives in a private module and was not re-exported, so no code
outside the crate could name it and select queries were unreachable.
Its doc comment linked to a const parameter and had an empty example,
which rustdoc rejects once the item is public.
---
 succinct_neo/src/rank_select/mod.rs    |  2 +-
 succinct_neo/src/rank_select/traits.rs | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/succinct_neo/src/rank_select/mod.rs b/succinct_neo/src/rank_select/mod.rs
index e5d5323..82ee5f2 100644
--- a/succinct_neo/src/rank_select/mod.rs
+++ b/succinct_neo/src/rank_select/mod.rs
@@ -1,5 +1,5 @@
 pub mod flat_popcount;
 mod traits;
 
-pub use traits::RankSupport;
+pub use traits::{RankSupport, SelectSupport};
 pub use flat_popcount::FlatPopcount;
diff --git a/succinct_neo/src/rank_select/traits.rs b/succinct_neo/src/rank_select/traits.rs
index 922a2fb..4707092 100644
--- a/succinct_neo/src/rank_select/traits.rs
+++ b/succinct_neo/src/rank_select/traits.rs
@@ -91,7 +91,7 @@ pub trait RankSupport {
 pub trait SelectSupport<const TARGET: bool> {
     /// Calculates the index of the nth time the given value shows up.
     ///
-    /// If [`TARGET`] is `true`, this will search for the nth one, if it is `false`, this will
+    /// If `TARGET` is `true`, this will search for the nth one, if it is `false`, this will
     /// search for zeroes.
     ///
     /// # Arguments
@@ -101,6 +101,25 @@ pub trait SelectSupport<const TARGET: bool> {
     /// # Examples
     ///
     /// ```
+    /// use succinct_neo::{
+    ///     bit_vec::BitVec,
+    ///     rank_select::{
+    ///         flat_popcount::LinearSearch,
+    ///         FlatPopcount,
+    ///         SelectSupport
+    ///     }
+    /// };
+    ///
+    /// let mut bv = BitVec::new(64);
+    ///
+    /// bv.flip(10);
+    /// bv.flip(15);
+    ///
+    /// let select_ds = FlatPopcount::<LinearSearch>::new(&bv);
+    ///
+    /// assert_eq!(Some(10), select_ds.select(0));
+    /// assert_eq!(Some(15), select_ds.select(1));
+    /// assert_eq!(None, select_ds.select(2));
     /// ```
     fn select(&self, rank: usize) -> Option<usize>;
 }
-- 
2.43.0


From ed9a28ae8b0e35324acbd8c9eb636a341750fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:42 +0000
Subject: [PATCH 09/10] fix: keep the clean task inside the working directory

The clean task followed links to directories and deleted profile files
outside the working directory. A directory whose name ends in .profraw
made it stop with an error and leave profile files behind. Walk the
directories without following links and remove only files.
---
 xtask/src/main.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/xtask/src/main.rs b/xtask/src/main.rs
index 86baa61..c68ccb6 100644
--- a/xtask/src/main.rs
+++ b/xtask/src/main.rs
@@ -1,5 +1,6 @@
-use std::fs::create_dir_all;
-use xtaskops::ops::{clean_files, cmd};
+use std::fs::{create_dir_all, read_dir, remove_file};
+use std::path::Path;
+use xtaskops::ops::cmd;
 
 fn main() -> Result<(), anyhow::Error> {
     match std::env::args().nth(1).as_deref() {
@@ -100,7 +101,20 @@ fn cover_only() -> Result<(), anyhow::Error> {
 
 fn clean() -> Result<(), anyhow::Error> {
     println!("=== cleaning up ===");
-    clean_files("**/*.profraw")?;
+    remove_profiles(Path::new("."))?;
     println!("ok.");
     Ok(())
 }
+
+/// Removes all profile files in and below a directory without following links.
+fn remove_profiles(dir: &Path) -> Result<(), anyhow::Error> {
+    for entry in read_dir(dir)? {
+        let entry = entry?;
+        if entry.file_type()?.is_dir() {
+            remove_profiles(&entry.path())?;
+        } else if entry.file_name().to_string_lossy().ends_with(".profraw") {
+            remove_file(entry.path())?;
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From 560782b103ee728ea117d4dd2c99114545b08ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:29 +0000
Subject: [PATCH 10/10] fix: check the order of view bounds in release builds
 too

BitSlice::new only compared its bounds in debug builds.
In a release build reversed bounds could wrap to a plausible length.
A rank index over such a bit vector then read past its words.
---
 succinct_neo/src/bit_vec/slice/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/bit_vec/slice/mod.rs b/succinct_neo/src/bit_vec/slice/mod.rs
index 1e9e16a..dddd1dd 100644
--- a/succinct_neo/src/bit_vec/slice/mod.rs
+++ b/succinct_neo/src/bit_vec/slice/mod.rs
@@ -54,7 +54,7 @@ impl<Backing> BitSlice<Backing> {
     /// assert_eq!(false, slice.get_bit(3));
     /// ```
     pub fn new(backing: Backing, start: usize, end: usize) -> Self {
-        debug_assert!(
+        assert!(
             start <= end,
             "end index must be greater or equal to the start index"
         );
-- 
2.43.0


From a9e608cd0ed9257a75d205538380a8cc234a2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 01/22] fix: compare and hash the last limb of a BitVec if it
 is complete

The junk mask was empty for lengths divisible by 64, so the last 64 bits
were ignored by Eq and Hash.
---
 src/bit_vec/mod.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index fc2b4de..a94360f 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1595,20 +1595,15 @@ impl PartialEq for BitVec {
             return false;
         }
 
-        if self.len == 0 {
-            return true;
-        }
-
-        for i in 0..self.data.len() - 1 {
-            if self.data[i] != other.data[i] {
-                return false;
-            }
+        let full_limbs = self.len / WORD_SIZE;
+        if self.data[..full_limbs] != other.data[..full_limbs] {
+            return false;
         }
 
-        // in last limb, ignore junk data
-        let mask = (1 << (self.len % WORD_SIZE)) - 1;
-        if self.data[self.data.len() - 1] & mask != other.data[self.data.len() - 1] & mask {
-            return false;
+        // if the last limb is incomplete, ignore its junk data
+        if !self.len.is_multiple_of(WORD_SIZE) {
+            let mask = (1 << (self.len % WORD_SIZE)) - 1;
+            return self.data[full_limbs] & mask == other.data[full_limbs] & mask;
         }
 
         true
@@ -1620,11 +1615,13 @@ impl Eq for BitVec {}
 impl Hash for BitVec {
     fn hash<H: Hasher>(&self, state: &mut H) {
         state.write_usize(self.len);
-        if self.len > 0 {
-            self.data[0..self.data.len() - 1]
-                .iter()
-                .for_each(|x| state.write_u64(*x));
-            let masked_last_limb = self.data.last().unwrap() & ((1 << (self.len % WORD_SIZE)) - 1);
+        let full_limbs = self.len / WORD_SIZE;
+        self.data[..full_limbs]
+            .iter()
+            .for_each(|x| state.write_u64(*x));
+        // if the last limb is incomplete, ignore its junk data
+        if !self.len.is_multiple_of(WORD_SIZE) {
+            let masked_last_limb = self.data[full_limbs] & ((1 << (self.len % WORD_SIZE)) - 1);
             state.write_u64(masked_last_limb);
         }
     }
-- 
2.43.0


From 19285e7eea9c32e5866e0b5fa6d3f839f7ee7fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 02/22] fix: unaligned 64 bit reads from a MaskedBitVec
 returned zero

---
 src/bit_vec/mask.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index 4669829..e21c4fd 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -156,7 +156,7 @@ where
                 self.mask.data[pos / WORD_SIZE + 1],
             ) << (WORD_SIZE - pos % WORD_SIZE);
 
-            (partial_word | next_half) & ((1 << (len % WORD_SIZE)) - 1)
+            (partial_word | next_half) & (u64::MAX >> (WORD_SIZE - len))
         }
     }
 
-- 
2.43.0


From 25645a8fa50697d57153430a9836827c831cdb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 03/22] fix: do not store one limb per element in dense
 Elias-Fano vectors

Appending zero bits to an empty vector pushes a limb, so sequences without
lower bits used 64 bits per element.
---
 src/elias_fano/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/elias_fano/mod.rs b/src/elias_fano/mod.rs
index 0e0bd9a..53d2c87 100644
--- a/src/elias_fano/mod.rs
+++ b/src/elias_fano/mod.rs
@@ -113,6 +113,12 @@ impl EliasFanoVec {
             BitVec::from_zeros(2 + data.len() + (universe_bound >> lower_width) as usize);
         let mut lower_vec = BitVec::with_capacity(data.len() * lower_width);
 
+        // if the elements have no lower bits, nothing is stored per element, but queries still
+        // read zero bits from the first limb, so it has to exist
+        if lower_width == 0 {
+            lower_vec.append_word(0);
+        }
+
         for (i, &word) in data.iter().enumerate() {
             let word = word - universe_zero;
 
@@ -120,7 +126,9 @@ impl EliasFanoVec {
             let lower = word & ((1 << lower_width) - 1);
 
             upper_vec.flip_bit_unchecked(upper + i + 1);
-            lower_vec.append_bits_unchecked(lower, lower_width);
+            if lower_width > 0 {
+                lower_vec.append_bits_unchecked(lower, lower_width);
+            }
         }
 
         Self {
-- 
2.43.0


From 6323aa23bf06a6dcfe2d00d4b326921b0df6b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 04/22] fix: appending zero bits to a BitVec must not add a
 limb

The additional limb shifted all data appended afterwards, and broke
comparison, masking and extending.
---
 src/bit_vec/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index a94360f..3ae3e23 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -911,6 +911,10 @@ impl BitVec {
     pub fn append_bits(&mut self, bits: u64, len: usize) {
         assert!(len <= 64, "Cannot append more than 64 bits");
 
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
@@ -948,6 +952,10 @@ impl BitVec {
     /// [`append_bits`]: BitVec::append_bits
     /// [`drop_last`]: BitVec::drop_last
     pub fn append_bits_unchecked(&mut self, bits: u64, len: usize) {
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
-- 
2.43.0


From 163808124f61e94526b2da99bc33fee6bf45fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 05/22] fix: checked bit reads with huge positions overflowed
 instead of returning None

---
 src/bit_vec/fast_rs_vec/mod.rs | 2 +-
 src/bit_vec/mask.rs            | 2 +-
 src/bit_vec/mod.rs             | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1d4ea69..1ac0307 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -352,7 +352,7 @@ impl RsVec {
         if len > WORD_SIZE {
             return None;
         }
-        if pos + len > self.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index e21c4fd..d3bc595 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -112,7 +112,7 @@ where
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.vec.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.vec.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index 3ae3e23..672f189 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1174,7 +1174,7 @@ impl BitVec {
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.len {
+        if pos.checked_add(len).is_none_or(|end| end > self.len) {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
@@ -1240,7 +1240,7 @@ impl BitVec {
     #[allow(clippy::inline_always)]
     #[inline(always)] // to gain optimization if n is constant
     pub fn unpack_element(&self, index: usize, n: usize) -> Option<u64> {
-        self.get_bits(index * n, n)
+        self.get_bits(index.checked_mul(n)?, n)
     }
 
     /// Extract a packed element from a bit vector. The element is encoded in the bits at the given
-- 
2.43.0


From 94c2b1628637b8317a12d83e87ecd3a5dcc9b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 06/22] fix: RsVec::get_bits panicked for empty queries at the
 end of the vector

---
 src/bit_vec/fast_rs_vec/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1ac0307..38c26f3 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -354,6 +354,9 @@ impl RsVec {
         }
         if pos.checked_add(len).is_none_or(|end| end > self.len) {
             None
+        } else if len == 0 {
+            // the position may be at the end of the vector, where there is no limb to read from
+            Some(0)
         } else {
             Some(self.get_bits_unchecked(pos, len))
         }
-- 
2.43.0


From 6985ed3c9f4a429099bf397e8fe3107416f9be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 07/22] fix: last() and max() of Elias-Fano iterators ignored
 the universe offset

---
 src/util/elias_fano_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 646d3f4..8ac8e1d 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -107,7 +107,7 @@ macro_rules! gen_ef_iter_impl {
                 let lower = self
                     .vec
                     .get_bits_unchecked(self.back_index.unwrap() * self.lower_len, self.lower_len);
-                Some(((upper as u64) << self.lower_len) | lower)
+                Some((((upper as u64) << self.lower_len) | lower) + self.universe_zero)
             }
 
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
-- 
2.43.0


From f7ab59d9a3b96b71c1ba97d2c99b86c9ef51d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 08/22] fix: nth_back past the front of a select iterator
 underflowed

---
 src/bit_vec/fast_rs_vec/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/iter.rs b/src/bit_vec/fast_rs_vec/iter.rs
index e0d4fcf..1a348aa 100644
--- a/src/bit_vec/fast_rs_vec/iter.rs
+++ b/src/bit_vec/fast_rs_vec/iter.rs
@@ -348,11 +348,11 @@ macro_rules! gen_iter_impl {
             /// implementation in the double ended iterator impl.
             pub(super) fn advance_back_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
                 if self.len() >= n {
-                    self.next_rank_back = self.next_rank_back.map(|x| x - n);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(n));
                     Ok(())
                 } else {
                     let len = self.len();
-                    self.next_rank_back = self.next_rank_back.map(|x| x - len);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(len));
                     Err(NonZeroUsize::new(n - len).unwrap())
                 }
             }
-- 
2.43.0


From 07fbfa2044f8486e8b8d0cdae2256e4a7b00a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 09/22] fix: nth and nth_back past the end must exhaust vector
 iterators

The iterators returned None but kept their elements, and overflowed for huge n.
---
 src/util/elias_fano_iter.rs | 21 +++++++++++++--------
 src/util/general_iter.rs    | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 8ac8e1d..fea5848 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -12,12 +12,9 @@ macro_rules! gen_ef_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
-                    if Some(self.index) > self.back_index {
-                        Err(std::num::NonZeroUsize::new(n).unwrap())
-                    } else {
-                        Err(std::num::NonZeroUsize::new(n - (self.back_index.as_ref().unwrap_or(&usize::MAX).wrapping_sub(self.index).wrapping_add(1))).unwrap())
-                    }
+                let remaining = self.len();
+                if remaining < n {
+                    Err(std::num::NonZeroUsize::new(n - remaining).unwrap())
                 } else {
                     self.index += n;
                     if n > 0 {
@@ -113,7 +110,11 @@ macro_rules! gen_ef_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // the skipped elements are consumed, even if there are too few of them
+                    let _ = self.advance_by(self.len());
+                    return None;
+                }
                 self.next()
             }
 
@@ -167,7 +168,11 @@ macro_rules! gen_ef_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // the skipped elements are consumed, even if there are too few of them
+                    let _ = self.advance_back_by(self.len());
+                    return None;
+                }
                 self.next_back()
             }
         }
diff --git a/src/util/general_iter.rs b/src/util/general_iter.rs
index afc4c73..de8e790 100644
--- a/src/util/general_iter.rs
+++ b/src/util/general_iter.rs
@@ -32,12 +32,9 @@ macro_rules! gen_vector_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
-                    if Some(self.index) > self.back_index {
-                        Err(std::num::NonZeroUsize::new(n).unwrap())
-                    } else {
-                        Err(std::num::NonZeroUsize::new(n - (self.back_index.as_ref().unwrap_or(&usize::MAX).wrapping_sub(self.index).wrapping_add(1))).unwrap())
-                    }
+                let remaining = self.len();
+                if remaining < n {
+                    Err(std::num::NonZeroUsize::new(n - remaining).unwrap())
                 } else {
                     self.index += n;
                     Ok(())
@@ -118,7 +115,11 @@ macro_rules! gen_vector_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // the skipped elements are consumed, even if there are too few of them
+                    let _ = self.advance_by(self.len());
+                    return None;
+                }
                 self.next()
             }
         }
@@ -148,7 +149,11 @@ macro_rules! gen_vector_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // the skipped elements are consumed, even if there are too few of them
+                    let _ = self.advance_back_by(self.len());
+                    return None;
+                }
                 self.next_back()
             }
         }
-- 
2.43.0


From a2bdfec53b4c0286aeff435d418f30a0f5212e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 10/22] fix: SparseRSVec::is_set_unchecked failed for bits left
 of the first 1-bit

---
 src/bit_vec/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bit_vec/sparse.rs b/src/bit_vec/sparse.rs
index bab1b9e..badb4a3 100644
--- a/src/bit_vec/sparse.rs
+++ b/src/bit_vec/sparse.rs
@@ -149,7 +149,8 @@ impl SparseRSVec {
     /// [`is_set`]: #method.is_set
     #[must_use]
     pub fn is_set_unchecked(&self, i: u64) -> bool {
-        self.vec.predecessor_unchecked(i) == i
+        // the predecessor is None, if the bit is left of the first 1-bit
+        self.vec.predecessor(i) == Some(i)
     }
 
     /// Returns true if the bit at position `i` is set.
-- 
2.43.0


From 1a1078d51b812487851e359c11558c35ba284f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 11/22] fix: level queries and searches on empty and
 single-node BP trees

---
 src/trees/bp/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index c508966..56d3cc2 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -163,7 +163,7 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     pub fn fwd_search(&self, index: usize, mut relative_excess: i64) -> Option<usize> {
         // check for greater than or equal length minus one, because the last element
         // won't ever have a result from fwd_search
-        if index >= (self.vec.len() - 1) {
+        if index >= self.vec.len().saturating_sub(1) {
             return None;
         }
 
@@ -706,7 +706,7 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     fn level_leftmost(&self, level: u64) -> Option<Self::NodeHandle> {
         // fwd_search doesn't support returning the input position
         if level == 0 {
-            return Some(0);
+            return self.root();
         }
 
         #[allow(clippy::cast_possible_wrap)]
@@ -715,9 +715,14 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     }
 
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
+        // bwd_search doesn't support returning the input position
+        if level == 0 {
+            return self.root();
+        }
+
         #[allow(clippy::cast_possible_wrap)]
         // if the level exceeds 2^63, we accept that the result is wrong
-        self.open(self.bwd_search(self.size() * 2 - 1, level as i64)?)
+        self.open(self.bwd_search((self.size() * 2).checked_sub(1)?, level as i64)?)
     }
 }
 
-- 
2.43.0


From 2ca4ae0e9675e1c19e21bbb6c4a76bb7d7e011c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 12/22] fix: BpTree::excess panicked for out-of-bounds indices

It is documented to return the total excess.
---
 src/trees/bp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 56d3cc2..0fd135e 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -380,8 +380,8 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     /// If `index` is out of bounds, the total excess of the parentheses expression is returned.
     #[must_use]
     pub fn excess(&self, index: usize) -> i64 {
-        debug_assert!(index < self.vec.len(), "Index out of bounds");
-        self.vec.rank1(index + 1) as i64 - self.vec.rank0(index + 1) as i64
+        let end = index.saturating_add(1);
+        self.vec.rank1(end) as i64 - self.vec.rank0(end) as i64
     }
 
     /// Iterate over the nodes of the tree.
-- 
2.43.0


From 509ef687b905f3d31a37fd66df6ef68a41bbc590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 13/22] fix: backward search in BP trees whose block size is
 not a multiple of the lookup size

---
 src/trees/bp/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 0fd135e..eb4be80 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -314,7 +314,13 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
-        for i in (block_boundary..lookup_boundary)
+        // the boundary down to which we can use table lookups
+        let lower_lookup_boundary = min(
+            lookup_boundary,
+            block_boundary.div_ceil(LOOKUP_BLOCK_SIZE as usize) * LOOKUP_BLOCK_SIZE as usize,
+        );
+
+        for i in (lower_lookup_boundary..lookup_boundary)
             .step_by(LOOKUP_BLOCK_SIZE as usize)
             .rev()
         {
@@ -329,6 +335,17 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
+        // if the lower_lookup_boundary isn't the block_boundary (which happens if the block size
+        // isn't a multiple of the lookup block size)
+        for i in (block_boundary..lower_lookup_boundary).rev() {
+            let bit = self.vec.get_unchecked(i);
+            *relative_excess += if bit == 1 { 1 } else { -1 };
+
+            if *relative_excess == 0 {
+                return Ok(i);
+            }
+        }
+
         Err(())
     }
 
-- 
2.43.0


From 7ab6a7e7b829629f7665954bb4907670b48f1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 14/22] fix: wavelet range queries with reversed ranges
 underflowed

---
 src/wavelet/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 7a246ca..925a80f 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -461,6 +461,8 @@ impl WaveletMatrix {
             || symbol.len() != self.bits_per_element()
         {
             None
+        } else if range.is_empty() {
+            Some(0)
         } else {
             Some(self.rank_range_unchecked(range, symbol))
         }
@@ -520,6 +522,8 @@ impl WaveletMatrix {
     pub fn rank_range_u64(&self, range: Range<usize>, symbol: u64) -> Option<usize> {
         if range.start >= self.len() || range.end > self.len() || self.bits_per_element() > 64 {
             None
+        } else if range.is_empty() {
+            Some(0)
         } else {
             Some(self.rank_range_u64_unchecked(range, symbol))
         }
@@ -1103,7 +1107,7 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn quantile(&self, range: Range<usize>, k: usize) -> Option<BitVec> {
-        if range.start >= self.len() || range.end > self.len() || k >= range.end - range.start {
+        if range.start >= self.len() || range.end > self.len() || k >= range.len() {
             None
         } else {
             Some(self.quantile_unchecked(range, k))
@@ -1235,7 +1239,7 @@ impl WaveletMatrix {
         if range.start >= self.len()
             || range.end > self.len()
             || self.bits_per_element() > 64
-            || k >= range.end - range.start
+            || k >= range.len()
         {
             None
         } else {
-- 
2.43.0


From 64387a93fae033eb66015986a9528a65e60f21da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 15/22] fix: wavelet select with huge ranks overflowed instead
 of returning None

---
 src/wavelet/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 925a80f..e3ca435 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -790,7 +790,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if symbol.get_unchecked((self.bits_per_element() - 1) - level) == 0 {
@@ -870,7 +870,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if (symbol >> ((self.bits_per_element() - 1) - level)) & 1 == 0 {
-- 
2.43.0


From 6512dc4aee9c37a76a36f021e0eef70789b23363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:14 +0000
Subject: [PATCH 16/22] fix: range_min_with_range panicked for empty ranges

It is documented to clamp the range instead.
---
 src/rmq/binary_rmq/mod.rs | 6 +++---
 src/rmq/fast_rmq/mod.rs   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rmq/binary_rmq/mod.rs b/src/rmq/binary_rmq/mod.rs
index b6cfda3..246fe6e 100644
--- a/src/rmq/binary_rmq/mod.rs
+++ b/src/rmq/binary_rmq/mod.rs
@@ -124,17 +124,17 @@ impl BinaryRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
diff --git a/src/rmq/fast_rmq/mod.rs b/src/rmq/fast_rmq/mod.rs
index eb6d8ed..50a66de 100644
--- a/src/rmq/fast_rmq/mod.rs
+++ b/src/rmq/fast_rmq/mod.rs
@@ -171,17 +171,17 @@ impl FastRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
-- 
2.43.0


From 030e6e04876e4088748f876d98bb520eb5d16acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:45 +0000
Subject: [PATCH 17/22] fix: bit_set_iter yielded duplicate and out-of-bounds
 positions

---
 src/bit_vec/fast_rs_vec/bitset.rs | 38 +++++++++----------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/bitset.rs b/src/bit_vec/fast_rs_vec/bitset.rs
index 00cb5e0..d8c991a 100644
--- a/src/bit_vec/fast_rs_vec/bitset.rs
+++ b/src/bit_vec/fast_rs_vec/bitset.rs
@@ -91,16 +91,21 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             cursor: 0,
         };
 
-        if vec.len() > VECTOR_SIZE {
-            iter.load_chunk(vec.get_bits_unchecked(0, VECTOR_SIZE) as u16);
+        if !vec.is_empty() {
+            iter.load_chunk();
         }
 
         iter
     }
 
-    fn load_chunk(&mut self, data: u16) {
+    /// Load the positions in the chunk that starts at `self.base`, which must be less than the
+    /// length of the vector. The last chunk may be shorter than the vector size.
+    fn load_chunk(&mut self) {
         use std::arch::x86_64::{__mmask16, _mm512_mask_compressstoreu_epi32, _mm512_setr_epi32};
 
+        let chunk_len = (self.vec.len() - self.base).min(VECTOR_SIZE);
+        let data = self.vec.get_bits_unchecked(self.base, chunk_len) as u16;
+
         unsafe {
             let offsets = _mm512_setr_epi32(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
             assert!(VECTOR_SIZE <= size_of::<u16>() * 8, "change data types");
@@ -108,6 +113,7 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             if ZERO {
                 mask = !mask;
             }
+            mask &= __mmask16::MAX >> (VECTOR_SIZE - chunk_len);
             _mm512_mask_compressstoreu_epi32(self.offsets.as_mut_ptr() as *mut _, mask, offsets);
             self.content_len = mask.count_ones() as u8;
             self.cursor = 0;
@@ -121,8 +127,7 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             }
 
             self.base += VECTOR_SIZE;
-            let data = self.vec.get_bits_unchecked(self.base, VECTOR_SIZE) as u16;
-            self.load_chunk(data);
+            self.load_chunk();
         }
         Some(())
     }
@@ -132,29 +137,8 @@ impl<const ZERO: bool> Iterator for BitSetIter<'_, ZERO> {
     type Item = usize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.base >= self.vec.len() {
-            return None;
-        }
-
         if self.cursor == self.content_len {
-            if self.load_next_chunk().is_none() {
-                if ZERO {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 0 {
-                        self.base += 1;
-                    }
-                } else {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 1 {
-                        self.base += 1;
-                    }
-                }
-
-                return if self.base < self.vec.len() {
-                    self.base += 1;
-                    Some(self.base - 1)
-                } else {
-                    None
-                };
-            }
+            self.load_next_chunk()?;
         }
 
         let offset = self.offsets[self.cursor as usize];
-- 
2.43.0


From 7bf7078dedd24ca220ed409fc969ad7c0db66538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 18/22] fix: select1 searched super blocks linearly in sparse
 vectors

The binary search over super blocks compared with the number of ones before
the wrong super block, never advanced its lower bound, and left the whole
distance to the linear search.
---
 src/bit_vec/fast_rs_vec/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/fast_rs_vec/select.rs b/src/bit_vec/fast_rs_vec/select.rs
index b8721d7..24d3310 100644
--- a/src/bit_vec/fast_rs_vec/select.rs
+++ b/src/bit_vec/fast_rs_vec/select.rs
@@ -391,7 +391,7 @@ impl super::RsVec {
         while upper_bound - super_block > 8 {
             let middle = super_block + ((upper_bound - super_block) >> 1);
             // using select_unpredictable does nothing here, likely because the search isn't hot
-            if ((middle + 1) * SUPER_BLOCK_SIZE - self.super_blocks[middle].zeros) <= rank {
+            if (middle * SUPER_BLOCK_SIZE - self.super_blocks[middle].zeros) <= rank {
                 super_block = middle;
             } else {
                 upper_bound = middle;
-- 
2.43.0


From 42735a56131965f55e95f7e555c93b9a554890af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 19/22] fix: select behind the last full select block searched
 super blocks linearly

The dummy select block at the end repeated the index of the last real one, so
the binary search saw an empty interval and the linear search walked over all
remaining super blocks.
---
 src/bit_vec/fast_rs_vec/mod.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 38c26f3..636929e 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -190,30 +190,27 @@ impl RsVec {
             current_zeros += new_zeros;
         }
 
-        // insert dummy select blocks at the end that just report the same index like the last real
-        // block, so the bound check for binary search doesn't overflow
-        // this is technically the incorrect value, but since all valid queries will be smaller,
-        // this will only tell select to stay in the current super block, which is correct.
-        // we cannot use a real value here, because this would change the size of the super-block
+        // insert dummy select blocks at the end that report the last super block, so the bound check
+        // for binary search doesn't overflow, and queries behind the last real select block can
+        // use binary search as well
+        let last_super_block = super_blocks.len().saturating_sub(1);
         if last_zero_select_block == select_blocks.len() - 1 {
             select_blocks.push(SelectSuperBlockDescriptor {
-                index_0: select_blocks[last_zero_select_block].index_0,
+                index_0: last_super_block,
                 index_1: 0,
             });
         } else {
             debug_assert!(select_blocks[last_zero_select_block + 1].index_0 == 0);
-            select_blocks[last_zero_select_block + 1].index_0 =
-                select_blocks[last_zero_select_block].index_0;
+            select_blocks[last_zero_select_block + 1].index_0 = last_super_block;
         }
         if last_one_select_block == select_blocks.len() - 1 {
             select_blocks.push(SelectSuperBlockDescriptor {
                 index_0: 0,
-                index_1: select_blocks[last_one_select_block].index_1,
+                index_1: last_super_block,
             });
         } else {
             debug_assert!(select_blocks[last_one_select_block + 1].index_1 == 0);
-            select_blocks[last_one_select_block + 1].index_1 =
-                select_blocks[last_one_select_block].index_1;
+            select_blocks[last_one_select_block + 1].index_1 = last_super_block;
         }
 
         total_zeros += current_zeros;
-- 
2.43.0


From 4dc28d1c6bdde387a874c83aebabb1533cb0bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:54 +0000
Subject: [PATCH 20/22] fix: Elias-Fano rank walked linearly over equal
 elements

The binary search stopped at any element equal to the query and then walked
back over all equal elements one by one. Continue the binary search instead.
---
 src/elias_fano/mod.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/elias_fano/mod.rs b/src/elias_fano/mod.rs
index 53d2c87..0bcce94 100644
--- a/src/elias_fano/mod.rs
+++ b/src/elias_fano/mod.rs
@@ -336,27 +336,17 @@ impl EliasFanoVec {
                                 .lower_vec
                                 .get_bits_unchecked(middle * self.lower_len, self.lower_len);
 
-                            if middle_candidate > query_lower {
+                            if middle_candidate > query_lower
+                                || (INDEX && middle_candidate == query_lower)
+                            {
+                                // if we search the index, equal elements may precede this one
                                 if !UPWARD {
                                     lower_candidate = middle_candidate;
                                 }
                                 upper_bound = middle;
                             } else if middle_candidate == query_lower {
-                                return if INDEX {
-                                    cursor = middle as isize;
-                                    // while the element at cursor - 1 is equal, reduce cursor
-                                    while self.lower_vec.get_bits_unchecked(
-                                        (cursor - direction) as usize * self.lower_len,
-                                        self.lower_len,
-                                    ) == query_lower
-                                    {
-                                        cursor -= direction;
-                                    }
-                                    // the element at cursor - 1 is smaller than the query, so we return cursor - 1 + 1
-                                    cursor as u64
-                                } else {
-                                    (query_masked_upper | middle_candidate) + self.universe_zero
-                                };
+                                return (query_masked_upper | middle_candidate)
+                                    + self.universe_zero;
                             } else {
                                 if UPWARD {
                                     lower_candidate = middle_candidate;
-- 
2.43.0


From 8fb68bc97a47dd84a09f92c025a3ee8c994da35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:42 +0000
Subject: [PATCH 21/22] fix: excess searches overflowed for extreme relative
 excesses

---
 src/trees/bp/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index eb4be80..fec8177 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -167,6 +167,12 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             return None;
         }
 
+        // the excess changes by one per position, so a larger difference cannot be reached (and would
+        // overflow in the arithmetic of the search)
+        if relative_excess.unsigned_abs() > self.vec.len() as u64 {
+            return None;
+        }
+
         let block_index = (index + 1) / BLOCK_SIZE;
         self.fwd_search_block(index, block_index, &mut relative_excess)
             .map_or_else(
@@ -264,6 +270,12 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             return None;
         }
 
+        // the excess changes by one per position, so a larger difference cannot be reached (and would
+        // overflow in the arithmetic of the search)
+        if relative_excess.unsigned_abs() > self.vec.len() as u64 {
+            return None;
+        }
+
         // calculate the block we start searching in. It starts at index - 1, so we don't accidentally
         // search the mM tree and immediately find `index` as the position
         let block_index = (index - 1) / BLOCK_SIZE;
-- 
2.43.0


From 33729200f4c579c74b9e69218f32411033ea2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 22/22] fix: EliasFanoVec::get_unchecked returned made-up
 elements beyond the end instead of panicking

The documentation promises a panic for an index beyond the length. Depending on
the content, the function returned a value that is not an element.
---
 src/elias_fano/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elias_fano/mod.rs b/src/elias_fano/mod.rs
index 0bcce94..dcdd950 100644
--- a/src/elias_fano/mod.rs
+++ b/src/elias_fano/mod.rs
@@ -190,6 +190,7 @@ impl EliasFanoVec {
     #[must_use]
     #[allow(clippy::cast_possible_truncation)]
     pub fn get_unchecked(&self, index: usize) -> u64 {
+        assert!(index < self.len(), "Index out of bounds");
         let upper = self.upper_vec.select1(index) - index - 1;
         let lower = self
             .lower_vec
-- 
2.43.0


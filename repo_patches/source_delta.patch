From ef2b24e1619c054fd520097e9183a47c9603a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 01/27] fix: Rank9 refuses rank positions past the end of the
 bit vector

RankSupport::rank is documented to panic when position >= limit(); Rank9
answered for positions in the unused part of the last block.
---
 src/rank/rank9.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rank/rank9.rs b/src/rank/rank9.rs
index f30d225..d8a6ca8 100644
--- a/src/rank/rank9.rs
+++ b/src/rank/rank9.rs
@@ -131,6 +131,8 @@ impl<Store: BitVec<Block = u64>> Rank9<Store> {
 
 impl<Store: BitVec<Block = u64>> BitRankSupport for Rank9<Store> {
     fn rank1(&self, position: u64) -> u64 {
+        assert!(position < self.bit_len(), "Rank9::rank1: out of bounds");
+
         let bb_index = (position / 512).to_usize()
                                        .expect("Rank9::rank1: index overflow");
         let word_index = (position / 64).to_usize()
-- 
2.43.0


From 5b3e0e2aa6e3aaf760c812eaf316b32336c2036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 02/27] fix: block access to the partial last block of a bit
 slice

get_block and set_block on the last block of a slice whose length is not a
multiple of the block size panicked, so rank structures could not be built
over such slices.
---
 src/bit_vec/bit_slice.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index 5f84118..f8543e8 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use std::ops::{Range, RangeTo, RangeFrom, RangeFull};
 
 use bit_vec::traits::*;
@@ -108,7 +109,11 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitVec for BitSlice<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        assert!(position < self.block_len(),
+                "BitSlice::get_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = cmp::min(Self::Block::nbits() as u64, self.len - start);
+        self.get_bits(start, count as usize)
     }
 }
 
@@ -134,7 +139,11 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVec for BitSliceMut<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        assert!(position < self.block_len(),
+                "BitSlice::get_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = cmp::min(Self::Block::nbits() as u64, self.len - start);
+        self.get_bits(start, count as usize)
     }
 }
 
@@ -153,8 +162,11 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVecMut for BitSliceMut<'a, Base> {
     }
 
     fn set_block(&mut self, position: usize, value: Self::Block) {
-        self.set_bits(Self::Block::mul_nbits(position),
-                      Self::Block::nbits(), value);
+        assert!(position < self.block_len(),
+                "BitSlice::set_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = cmp::min(Self::Block::nbits() as u64, self.len - start);
+        self.set_bits(start, count as usize, value);
     }
 }
 
-- 
2.43.0


From 62e2d3385e14ba2af7325b5bbe59bf40bd42fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 03/27] fix: empty spans at the end of a block-aligned bit
 vector are in bounds

get_bits(len, 0) and set_bits(len, 0, v) touched the block after the last
one and panicked when len is a multiple of the block size.
---
 src/bit_vec/traits.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index cf62776..1caaa1e 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -77,6 +77,7 @@ pub trait BitVec {
     fn get_bits(&self, start: u64, count: usize) -> Self::Block {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
+        if count == 0 { return Self::Block::zero(); }
 
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
@@ -159,6 +160,7 @@ pub trait BitVecMut: BitVec {
     fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
+        if count == 0 { return; }
 
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
-- 
2.43.0


From aeafd4f5b732a468daa1ca8f4b5d4c70a6c47e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 04/27] fix: refuse bit spans wider than a block

get_bits returned a truncated value, and set_bits wrote garbage, when count
exceeds the block size but the span stays within two blocks.
---
 src/bit_vec/traits.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 1caaa1e..1ca417f 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -77,6 +77,8 @@ pub trait BitVec {
     fn get_bits(&self, start: u64, count: usize) -> Self::Block {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
+        assert!(count <= Self::Block::nbits(),
+                "BitVec::get_bits: count exceeds block size");
         if count == 0 { return Self::Block::zero(); }
 
         let address = Address::new::<Self::Block>(start);
@@ -160,6 +162,8 @@ pub trait BitVecMut: BitVec {
     fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
+        assert!(count <= Self::Block::nbits(),
+                "BitVecMut::set_bits: count exceeds block size");
         if count == 0 { return; }
 
         let address = Address::new::<Self::Block>(start);
-- 
2.43.0


From bc8ea2961848dc4da9c12bfc9e7c509c12dee954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 05/27] fix: checked_ceil_div_nbits reports overflow instead of
 overflowing

Without overflow checks, BitVector::with_fill(u64::MAX, _) returned an empty
vector.
---
 src/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index d5f9cd7..fd63da9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -69,7 +69,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// be small enough.
     #[inline]
     fn checked_ceil_div_nbits(index: u64) -> Option<usize> {
-        Self::checked_div_nbits(index + (Self::nbits() as u64 - 1))
+        index.checked_add(Self::nbits() as u64 - 1)
+             .and_then(Self::checked_div_nbits)
     }
 
     /// Returns `index % Self::nbits()`, computed by masking.
-- 
2.43.0


From caea5546195ba44bb30996c5063b31b3ff04c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 06/27] fix: reserve enough blocks when there is spare capacity

Vec::reserve counts from the length, not from the capacity, so reserve and
reserve_exact were no-ops or fell short on vectors with unused capacity.
---
 src/internal/vector_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index f6a121d..47fe793 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -284,7 +284,7 @@ impl<Block: BlockType> VectorBase<Block> {
                 .and_then(|e| e.checked_mul(element_bits as u64))
                 .and_then(Block::checked_ceil_div_nbits)
                 .expect("VectorBase::reserve_(exact): overflow")
-                .saturating_sub(self.vec.capacity())
+                .saturating_sub(self.vec.len())
     }
 
     #[inline]
-- 
2.43.0


From f56a1699f0e4152ba4aabfe601e6e72ce28324e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 07/27] fix: iterator length after nth skips past the end

nth moved the cursor past the limit, after which len, size_hint and count
underflowed.
---
 src/internal/vector_base.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 47fe793..7c50bc0 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -3,6 +3,8 @@
 #[cfg(target_pointer_width = "32")]
 use num_traits::ToPrimitive;
 
+use std::cmp;
+
 use bit_vec::{BitVec, BitVecMut};
 use space_usage::SpaceUsage;
 use storage::BlockType;
@@ -390,7 +392,8 @@ impl<'a, Block: BlockType> Iterator for Iter<'a, Block> {
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start = self.start.checked_add(n as u64).unwrap_or(self.limit);
+        self.start = self.start.checked_add(n as u64)
+                         .map_or(self.limit, |start| cmp::min(start, self.limit));
         self.next()
     }
 }
-- 
2.43.0


From f95cc488ae2ddeb59edb699696f862ad5d72cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 08/27] fix: JacobsonRank on bit vectors of zero or one bit

Construction divided by a large block size of zero.
---
 src/rank/jacobson.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index cd525f6..1b6559d 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -1,3 +1,5 @@
+use std::cmp;
+
 use num_traits::PrimInt;
 
 use bit_vec::BitVec;
@@ -26,12 +28,12 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let lg2_n = lg_n * lg_n;
 
         let small_block_size  = Store::Block::nbits();
-        let small_per_large   = lg2_n.ceil_div(small_block_size);
+        let small_per_large   = cmp::max(1, lg2_n.ceil_div(small_block_size));
         let large_block_size  = small_block_size * small_per_large;
         let large_block_count = n / large_block_size as u64 + 1;
         let small_block_count = n / small_block_size as u64 + 1;
 
-        let large_meta_size   = (n + 1).ceil_lg();
+        let large_meta_size   = cmp::max(1, (n + 1).ceil_lg());
         let small_meta_size   = (large_block_size + 1).ceil_lg();
 
         let mut large_block_ranks =
-- 
2.43.0


From f7e76262ea2e2111fc44863432d0f77093b1f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 09/27] fix: JacobsonRank ignores extra bits in the last block

BitVec::get_block may return extra bits in the last block that are not part
of the vector; counting them made construction panic.
---
 src/rank/jacobson.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index 1b6559d..c7d409f 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -54,7 +54,15 @@ impl<Store: BitVec> JacobsonRank<Store> {
             let excess_rank = current_rank - last_large_rank;
             small_block_ranks.push(excess_rank);
 
-            current_rank += bits.get_block(i).count_ones() as u64;
+            // The last block may contain extra bits that don't count.
+            let block = if i + 1 == bits.block_len() {
+                bits.get_block(i)
+                    & Store::Block::low_mask(Store::Block::last_block_bits(n))
+            } else {
+                bits.get_block(i)
+            };
+
+            current_rank += block.count_ones() as u64;
             small_block_index += 1;
 
             if small_block_index == small_per_large {
-- 
2.43.0


From f05e7bb8004ced139fa47a37795e895ea9b85a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 10/27] fix: selecting the largest index returns None

index + 1 overflowed for u64::MAX: a panic with overflow checks, Some(0)
without.
---
 src/select/bin_search.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/select/bin_search.rs b/src/select/bin_search.rs
index 4734f37..0ad404f 100644
--- a/src/select/bin_search.rs
+++ b/src/select/bin_search.rs
@@ -53,8 +53,9 @@ macro_rules! impl_select_support_b {
         impl<Rank: BitRankSupport>
         $select_support for BinSearchSelect<Rank> {
             fn $select(&self, index: u64) -> Option<u64> {
-                binary_search_function(0, self.limit(), index + 1,
-                                       |i| self.$rank(i))
+                index.checked_add(1).and_then(|target|
+                    binary_search_function(0, self.limit(), target,
+                                           |i| self.$rank(i)))
             }
         }
     }
@@ -67,8 +68,9 @@ impl<Rank: RankSupport> SelectSupport for BinSearchSelect<Rank> {
     type Over = Rank::Over;
 
     fn select(&self, index: u64, value: Rank::Over) -> Option<u64> {
-        binary_search_function(0, self.limit(), index + 1,
-                               |i| self.rank(i, value))
+        index.checked_add(1).and_then(|target|
+            binary_search_function(0, self.limit(), target,
+                                   |i| self.rank(i, value)))
     }
 }
 
-- 
2.43.0


From b034c509d820a8447cd58ec853938201045e05fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 11/27] fix: broadword select1 returns None for large indices

For r >= 128 the bytes of r compare as negative: select1(200, 0xFF) was
Some(0).
---
 src/broadword.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/broadword.rs b/src/broadword.rs
index 00b56f7..8a27cdd 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -70,6 +70,9 @@ pub fn count_ones(mut x: u64) -> usize {
 ///
 /// Uses the broadword algorithm from Vigna.
 pub fn select1(r: usize, x: u64) -> Option<usize> {
+    // `select1_raw` compares signed bytes, so it can't handle large `r`.
+    if r >= 64 { return None; }
+
     let result = select1_raw(r, x);
     if result == 72 {None} else {Some(result)}
 }
-- 
2.43.0


From 4cc97561a8de20ae58b4ee5319bb5db06ba1555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 12/27] fix: signed parallel comparison of lanes with different
 signs

le8 is documented as <= on vectors of i8, but le8(0x80, 0) claimed that
-128 <= 0 is false.
---
 src/broadword.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 8a27cdd..d64d78f 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -100,7 +100,7 @@ pub fn u_le8(x: u64, y: u64) -> u64 {
 
 /// Parallel ≤, treating a `u64` as a vector of 8 `i8`s.
 pub fn le8(x: u64, y: u64) -> u64 {
-    (((y | H8) - (x & !H8)) ^ x ^ y) & H8
+    ((((y | H8) - (x & !H8)) | (x ^ y)) ^ (!x & y)) & H8
 }
 
 /// Parallel >0, treating a `u64` as a vector of 8 `u8`s.
-- 
2.43.0


From 18f1c3cfbdecb77b968b6c43abd1c403efa7c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 13/27] fix: Lift0 decoder reports a zero codeword instead of
 underflowing

---
 src/coding/trans.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coding/trans.rs b/src/coding/trans.rs
index 6401f08..1051c20 100644
--- a/src/coding/trans.rs
+++ b/src/coding/trans.rs
@@ -1,3 +1,5 @@
+use std::io::{Error, ErrorKind};
+
 use super::*;
 use internal::errors::*;
 use stream::*;
@@ -19,6 +21,8 @@ impl<Code: UniversalCode> UniversalCode for Lift0<Code> {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         match self.0.decode(source) {
+            Ok(Some(0)) => Err(Error::new(ErrorKind::InvalidData,
+                                          "Lift0::decode: unexpected 0")),
             Ok(Some(n)) => Ok(Some(n - 1)),
             otherwise => otherwise,
         }
-- 
2.43.0


From 57d8b69795501f72d987f48f8bf5ab71f12b4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 14/27] fix: Omega refuses to encode 0

It wrote the codeword of 1.
---
 src/coding/elias.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 3b78154..a0c38bf 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -56,6 +56,8 @@ impl<Header: UniversalCode> UniversalCode for Elias<Header> {
 
 impl UniversalCode for Omega {
     fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> Result<()> {
+        assert!(value != 0, "Elias codes do not handle 0");
+
         let mut stack = Vec::<(usize, u64)>::new();
 
         while value > 1 {
-- 
2.43.0


From dea550f82b6fecedef3f4a8ad7d60b35795a6e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 15/27] fix: Omega decoder reports values that are too big

A group longer than 64 bits overflowed the shift: a panic with overflow
checks, a wrong value without.
---
 src/coding/elias.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index a0c38bf..75acb3b 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -81,6 +81,10 @@ impl UniversalCode for Omega {
             if let Some(bit) = try!(source.read_bit()) {
                 if !bit { return Ok(Some(result)); }
 
+                if result > WORD_BITS as u64 - 1 {
+                    return too_many_bits("Omega::decode");
+                }
+
                 if let Some(next) =
                        try!(source.read_int_be::<u64>(result as usize)) {
                     result = next | (1 << result as u32)
-- 
2.43.0


From 0cbc501f80c36ad3491e90f67680e55a2ad382e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 16/27] fix: Fibonacci decoder reports values that are too big

---
 src/coding/fib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index e001101..a513817 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -69,7 +69,7 @@ impl UniversalCode for Fibonacci {
     }
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
-        let mut result  = 0;
+        let mut result: u64 = 0;
         let mut fib = Fib::new();
         let mut previous = false;
 
@@ -79,7 +79,10 @@ impl UniversalCode for Fibonacci {
             }
 
             if bit {
-                result += fib.i;
+                result = match fib.i.checked_add(result) {
+                    Some(sum) => sum,
+                    None => return too_many_bits("Fibonacci::decode"),
+                };
             }
 
             try!(fib.next());
-- 
2.43.0


From d6c674c5d27b56178a45e2649b52b91c68f38310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 17/27] fix: Fibonacci decoder reports codewords truncated
 after zeros

A stream ending inside a codeword's leading zeros was taken for a clean end.
---
 src/coding/fib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index a513817..98f979f 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -72,6 +72,7 @@ impl UniversalCode for Fibonacci {
         let mut result: u64 = 0;
         let mut fib = Fib::new();
         let mut previous = false;
+        let mut consumed = false;
 
         while let Some(bit) = try!(source.read_bit()) {
             if bit && previous {
@@ -87,12 +88,13 @@ impl UniversalCode for Fibonacci {
 
             try!(fib.next());
             previous = bit;
+            consumed = true;
         }
 
-        if result == 0 {
-            Ok(None)
-        } else {
+        if consumed {
             out_of_bits("Fibonacci::decode")
+        } else {
+            Ok(None)
         }
     }
 }
-- 
2.43.0


From 0fe33872d14451d4edb70d7e58110853efbf099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 18/27] fix: Comma decoder reports values that are too big

---
 src/coding/comma.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/coding/comma.rs b/src/coding/comma.rs
index c1c2552..2be7d21 100644
--- a/src/coding/comma.rs
+++ b/src/coding/comma.rs
@@ -28,8 +28,8 @@ impl UniversalCode for Comma {
     }
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
-        let base = (1 << self.0) - 1;
-        let mut result = 0;
+        let base: u64 = (1 << self.0) - 1;
+        let mut result: u64 = 0;
         let mut consumed = false;
 
         loop {
@@ -37,7 +37,11 @@ impl UniversalCode for Comma {
                 if digit == base { return Ok(Some(result)) }
 
                 consumed = true;
-                result = result * base + digit;
+                result = match base.checked_mul(result)
+                                   .and_then(|n| n.checked_add(digit)) {
+                    Some(n) => n,
+                    None => return too_many_bits("Comma::decode"),
+                };
             } else if consumed {
                 return out_of_bits("Comma::decode");
             } else {
-- 
2.43.0


From bb36efa3fb93d36aaa2a320faccbeee7dfc54375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 19/27] fix: write_int_be of zero bits and of full-width signed
 integers

nbits - 1 underflowed for 0, and shifting the mask right extended its sign
for signed types.
---
 src/stream/traits.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/stream/traits.rs b/src/stream/traits.rs
index 5f45753..074daaf 100644
--- a/src/stream/traits.rs
+++ b/src/stream/traits.rs
@@ -79,11 +79,8 @@ pub trait BitWrite {
     /// Writes the lower `nbits` of `value`, most-significant first.
     fn write_int_be<N: PrimInt>(&mut self, nbits: usize, value: N)
                                 -> Result<()> {
-        let mut mask = N::one() << nbits - 1;
-
-        for _ in 0 .. nbits {
-            try!(self.write_bit(value & mask != N::zero()));
-            mask = mask >> 1;
+        for i in (0 .. nbits).rev() {
+            try!(self.write_bit((value >> i) & N::one() != N::zero()));
         }
 
         Ok(())
-- 
2.43.0


From 7ec67e1f2973180d6caa016bfa42f0a6f32bed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 20/27] fix: ceil_div no longer overflows for large dividends

---
 src/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index fd63da9..0edb5c4 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -224,7 +224,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Returns the smallest number `n` such that `n * divisor >= self`.
     #[inline]
     fn ceil_div(self, divisor: Self) -> Self {
-        (self + divisor - Self::one()) / divisor
+        let quotient = self / divisor;
+        if quotient * divisor == self {quotient} else {quotient + Self::one()}
     }
 
     // I/O methods
-- 
2.43.0


From 17369573938d5d026b878e5caabf2f5b98c34a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 21/27] fix: IntVector fill values must fit the element size

with_fill and resize silently stored truncated values, where push and set
panic.
---
 src/int_vec/int_vector.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/int_vec/int_vector.rs b/src/int_vec/int_vector.rs
index 998aec3..42e7664 100644
--- a/src/int_vec/int_vector.rs
+++ b/src/int_vec/int_vector.rs
@@ -92,6 +92,8 @@ impl<Block: BlockType> IntVector<Block> {
 
     /// Creates a new integer vector containing `len` copies of `value`.
     pub fn with_fill(element_bits: usize, len: u64, value: Block) -> Self {
+        Self::check_element_bits(element_bits);
+        Self::check_value_random(element_bits, value);
         Self::create(element_bits,
                      VectorBase::with_fill(element_bits, len, value))
     }
@@ -184,6 +186,7 @@ impl<Block: BlockType> IntVector<Block> {
 
     /// Resizes to the given number of elements, filling if necessary.
     pub fn resize(&mut self, n_elements: u64, fill: Block) {
+        self.check_value(fill);
         self.base.resize(self.element_bits, n_elements, fill);
     }
 
-- 
2.43.0


From 22312ec93556fb821fc26c2924d96a121924dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 22/27] fix: rank on primitives refuses out-of-range positions
 in release builds

As documented for RankSupport::rank.
---
 src/broadword.rs | 2 +-
 src/rank/prim.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index d64d78f..8b691c8 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -29,7 +29,7 @@ pub struct Broadword(pub u64);
 
 impl BitRankSupport for Broadword {
     fn rank1(&self, position: u64) -> u64 {
-        debug_assert!(position < 64);
+        assert!(position < 64);
         count_ones(self.0 & u64::low_mask(position as usize + 1)) as u64
     }
 }
diff --git a/src/rank/prim.rs b/src/rank/prim.rs
index 7d10a78..e443b1a 100644
--- a/src/rank/prim.rs
+++ b/src/rank/prim.rs
@@ -19,7 +19,7 @@ macro_rules! impl_rank_support_prim {
 
         impl BitRankSupport for $t {
             fn rank1(&self, position: u64) -> u64 {
-                debug_assert!(position < Self::nbits() as u64);
+                assert!(position < Self::nbits() as u64);
 
                 let mask = Self::low_mask((position + 1) as usize);
                 (*self & mask).count_ones() as u64
-- 
2.43.0


From 3b04967aef40b425b2590b14e7a341b3a1eec14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 23/27] fix: block span checks hold when start + len overflows

In release builds a span starting near the integer maximum passed the check.
---
 src/bit_vec/prim.rs | 6 ++++--
 src/storage.rs      | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/prim.rs b/src/bit_vec/prim.rs
index 26e7d1d..2384b56 100644
--- a/src/bit_vec/prim.rs
+++ b/src/bit_vec/prim.rs
@@ -33,7 +33,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn get_bits(&self, start: u64, count: usize) -> Self {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(count <= Self::nbits()
+                            && start <= (Self::nbits() - count) as u64,
                         "prim::get_bits: out of bounds");
                 BlockType::get_bits(*self, start as usize, count)
             }
@@ -55,7 +56,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(count <= Self::nbits()
+                            && start <= (Self::nbits() - count) as u64,
                         "prim::set_bits: out of bounds");
                 *self = self.with_bits(start as usize, count, value);
             }
diff --git a/src/storage.rs b/src/storage.rs
index 0edb5c4..43bc91e 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -179,7 +179,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn get_bits(self, start: usize, len: usize) -> Self {
-        assert!(start + len <= Self::nbits(),
+        assert!(len <= Self::nbits() && start <= Self::nbits() - len,
                 "Block::get_bits: out of bounds");;
 
         if len == 0 { return Self::zero(); }
@@ -194,7 +194,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn with_bits(self, start: usize, len: usize, value: Self) -> Self {
-        assert!(start + len <= Self::nbits(),
+        assert!(len <= Self::nbits() && start <= Self::nbits() - len,
                 "Block::with_bits: out of bounds");
 
         if len == 0 { return self; }
-- 
2.43.0


From 7a4b4bd5329652d92a212e3035ae5d9b8452219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 24/27] fix: setting a block out of bounds is refused before
 any bit changes

---
 src/bit_vec/traits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 1ca417f..1c79faa 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -139,6 +139,9 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if `position` is out of bounds.
     fn set_block(&mut self, position: usize, mut value: Self::Block) {
+        assert!(position < self.block_len(),
+                "BitVecMut::set_block: out of bounds");
+
         let limit = if position + 1 == self.block_len() {
             Self::Block::last_block_bits(self.bit_len())
         } else {
-- 
2.43.0


From 6866bd4e8332222cd3deb209164611691ff8ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 25/27] fix: ceil_div_nbits does not overflow near the largest
 bit index

---
 src/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index 43bc91e..ef771a9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -57,7 +57,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// size, which is why it takes `u64` and returns `usize`.
     #[inline]
     fn ceil_div_nbits(index: u64) -> usize {
-        Self::div_nbits(index + (Self::nbits() as u64 - 1))
+        let quotient = Self::div_nbits(index);
+        if Self::mod_nbits(index) == 0 {quotient} else {quotient + 1}
     }
 
     /// Returns `index / Self::nbits()` rounded up, computed by shifting.
-- 
2.43.0


From c76098a392b3b67afffab938a2101fa94c64ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 26/27] fix: JacobsonRank reserves room for every count it
 stores

The directories hold one count per block and a final total. Reserving
n / size + 1 entries is one short whenever n is not a multiple of the
block size, so the last push doubled the directory's allocation.
---
 src/rank/jacobson.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index c7d409f..603a05b 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -30,8 +30,10 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let small_block_size  = Store::Block::nbits();
         let small_per_large   = cmp::max(1, lg2_n.ceil_div(small_block_size));
         let large_block_size  = small_block_size * small_per_large;
-        let large_block_count = n / large_block_size as u64 + 1;
-        let small_block_count = n / small_block_size as u64 + 1;
+        // One count per block and one more for the total at the end.
+        let block_count       = bits.block_len();
+        let large_block_count = block_count.ceil_div(small_per_large) as u64 + 1;
+        let small_block_count = block_count as u64 + 1;
 
         let large_meta_size   = cmp::max(1, (n + 1).ceil_lg());
         let small_meta_size   = (large_block_size + 1).ceil_lg();
-- 
2.43.0


From f67995f18ab94a7446da53514478b45c13b7656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 27/27] fix: get_bits and set_bits refuse spans that end past
 the largest position

---
 src/bit_vec/traits.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 1c79faa..d81a850 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -75,7 +75,8 @@ pub trait BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn get_bits(&self, start: u64, count: usize) -> Self::Block {
-        let limit = start + count as u64;
+        let limit = start.checked_add(count as u64)
+                         .expect("BitVec::get_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
         assert!(count <= Self::Block::nbits(),
                 "BitVec::get_bits: count exceeds block size");
@@ -163,7 +164,8 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-        let limit = start + count as u64;
+        let limit = start.checked_add(count as u64)
+                         .expect("BitVecMut::set_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
         assert!(count <= Self::Block::nbits(),
                 "BitVecMut::set_bits: count exceeds block size");
-- 
2.43.0


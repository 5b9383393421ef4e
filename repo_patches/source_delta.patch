From cee96ec53398fd0181d2273a0f990c213e8cc145 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:50:39 +0000
Subject: [PATCH 01/32] fix: Insert never returns when a split lands on an
 existing boundary key

GetSharedIgnoreImplicitLengths looped forever on two keys that are equal as
infinite byte strings, which happens when the split coin comes up for a key that
is already a boundary key (or is cut down to one).
---
 include/diva.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index ff0087e..0ba873d 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -875,7 +875,10 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
                                 | (next_key.BitsAt(shared + ignore + implicit_size, shamt_gt) << infix_size_);
     const uint32_t total_implicit_gt = ((next_extraction_gt >> infix_size_) - (extraction_gt >> infix_size_)) + 1;
 
-    if (zero_pos <= std::max(shared_lt, shared_gt)) {
+    if (shared_lt >= 8 * std::max(prev_key.length, edited_key.length)
+            || shared_gt >= 8 * std::max(edited_key.length, next_key.length)
+            || zero_pos <= std::max(shared_lt, shared_gt)) {
+        // The new boundary key coincides with one of its neighbors, or cannot be told apart from it
         InsertSimple(key);
         return;
     }
@@ -1031,7 +1034,7 @@ Diva<int_optimized>::GetSharedIgnoreImplicitLengths(const InfiniteByteString key
         delta = __builtin_ia32_lzcnt_u64(read_1 ^ read_2);
         share += delta;
         ind++;
-    } while (delta == 64);
+    } while (delta == 64 && ind * sizeof(uint64_t) < std::max(key_1.length, key_2.length));
 
     ind--;
     do {
-- 
2.43.0


From 544f4966145cfdba3fb333cc7333cd2f81397ed3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:50:39 +0000
Subject: [PATCH 02/32] fix: Delete merged away a partial boundary key the
 deleted key does not match

The boundary key stands for another key, which then got lost.
---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 0ba873d..5dd2d4c 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1540,7 +1540,7 @@ inline void Diva<int_optimized>::Delete(const uint8_t *input_key, const uint32_t
     const uint32_t total_implicit = next_implicit - prev_implicit + 1;
     const uint64_t deletee = ((extraction | 1ULL) - (prev_implicit << infix_size_));
 
-    if (infix_store.IsPartialKey()) {
+    if (infix_store.IsPartialKey() && prev_key.IsPrefixOf(key, infix_store.GetInvalidBits())) {
         const uint32_t longest_match_len = GetLongestMatchingInfixSize(infix_store, deletee);
         if (longest_match_len == 0 || 8 * prev_key.length - infix_store.GetInvalidBits() 
                                         > shared + ignore + implicit_size + longest_match_len - 1) {
-- 
2.43.0


From 90bdc9f2c596a04bd4deb07a2caef89f5e39d2d9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:51:20 +0000
Subject: [PATCH 03/32] fix: bulk load ran past the last key when it is itself
 a boundary key

With a single key, or one key more than a multiple of the infix store target
size, the last boundary has nothing after it and the leftover loop started one
past the end of the input.
---
 include/diva.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 5dd2d4c..2a62e34 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1796,7 +1796,8 @@ inline void Diva<int_optimized>::BulkLoadFixedLength(const t_itr begin, const t_
     const uint64_t next_implicit = ExtractPartialKey(right_key, shared, ignore, implicit_size, 1) >> infix_size_;
     const uint32_t total_implicit = next_implicit - prev_implicit + 1;
     int32_t i = 0;
-    ++last_key_it;
+    if (add_last_key)
+        ++last_key_it;
     while (last_key_it != key_it) {
         InfiniteByteString key;
         if constexpr (int_optimized) {
@@ -1884,7 +1885,8 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
     const uint64_t next_implicit = ExtractPartialKey(right_key, shared, ignore, implicit_size, 1) >> infix_size_;
     const uint32_t total_implicit = next_implicit - prev_implicit + 1;
     int32_t i = 0;
-    ++last_key_it;
+    if (add_last_key)
+        ++last_key_it;
     while (last_key_it != key_it) {
         sv = *last_key_it;
         const InfiniteByteString key {reinterpret_cast<const uint8_t *>(sv.data()), 
-- 
2.43.0


From e25b612821b1ca7a76d018ef6188d1455772b3b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:51:20 +0000
Subject: [PATCH 04/32] fix: BulkLoadStreamingFinish dropped the last key when
 it is a boundary key

---
 include/diva.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 2a62e34..974f8ac 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2001,6 +2001,8 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
         AddTreeKey(bulk_load_right_key.str, bulk_load_right_key.length);
         delete[] bulk_load_right_key.str;
     }
+    else
+        AddTreeKey(bulk_load_left_key_.str, bulk_load_left_key_.length);
 
     delete[] bulk_load_left_key_.str;
     bulk_load_streaming_ind_ = 0;
-- 
2.43.0


From 58e174f0187ede89f6fed45da1c5f8820f56ef50 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:51:20 +0000
Subject: [PATCH 05/32] fix: a deserialized filter aliased the caller's buffer
 and freed pointers into it

Mutating or destroying it passed pointers inside the buffer to delete[], and
reusing the buffer corrupted the filter.
---
 include/diva.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 974f8ac..636a37a 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1427,9 +1427,8 @@ template <bool int_optimized>
 inline uint32_t Diva<int_optimized>::DeserializeInfixStore(char *deser_buf, Diva<int_optimized>::InfixStore& store) const {
     memcpy(&store.status, deser_buf, sizeof(store.status));
     const uint32_t word_count = store.GetPtrWordCount(scaled_sizes_[store.GetSizeGrade()], infix_size_);
-    store.ptr = reinterpret_cast<uint64_t *>(deser_buf + sizeof(store.status));
-    //store.ptr = new uint64_t[word_count];
-    //memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
+    store.ptr = new uint64_t[word_count];
+    memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
     return sizeof(store.status) + word_count * sizeof(uint64_t);
 }
 
-- 
2.43.0


From 2d2c952b4286476dda12f02871c843ee64fe6abd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:51:20 +0000
Subject: [PATCH 06/32] fix: Size of an integer filter with cut-down boundary
 keys was less than Serialize writes

---
 include/diva.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 636a37a..36f6165 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1121,7 +1121,8 @@ inline uint32_t Diva<int_optimized>::Size() const {
         for (wh_int_iter_seek(&it_int, nullptr, 0); wh_int_iter_valid(&it_int); wh_int_iter_skip1(&it_int)) {
             wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&tree_key), &tree_key_len, 
                                           reinterpret_cast<void **>(&store), &dummy);
-            res += sizeof(tree_key_len) + tree_key_len;
+            const uint32_t rounded_tree_key_len = ((tree_key_len + 7) / 8) * 8;
+            res += sizeof(tree_key_len) + rounded_tree_key_len;
             const uint32_t word_count = store->GetPtrWordCount(scaled_sizes_[store->GetSizeGrade()], infix_size_);
             res += sizeof(store->status) + word_count * sizeof(uint64_t);
         }
-- 
2.43.0


From a9436364ba3819ba6251250fb1e6878e7d5da3f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:51:20 +0000
Subject: [PATCH 07/32] fix: deserialization ignored the image's load factor

The sizes of the infix stores depend on it, so images of filters with a load
factor other than 0.95 were misread.
---
 include/diva.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 36f6165..5d49d9b 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -233,7 +233,7 @@ private:
     wormref_int *better_tree_int_;
     std::mt19937 rng_;
     uint32_t rng_seed_;
-    const float load_factor_ = 0.95;
+    float load_factor_ = 0.95;
     const float load_factor_alt_ = 0.95;
     uint64_t size_scalars_[size_scalar_count], scaled_sizes_[size_scalar_count], exception_scaled_size_;
     uint64_t implicit_scalars_[infix_store_target_size / 2 + 1];
@@ -1395,8 +1395,7 @@ inline uint32_t Diva<int_optimized>::DeserializeMetadata(char *deser_buf) {
     assert(buf32 == size_scalar_shrink_grow_sep && "Mismatched Diva version");
     res += sizeof(size_scalar_shrink_grow_sep);
 
-    memcpy(&buf_float, deser_buf + res, sizeof(load_factor_));
-    assert(buf_float == load_factor_ && "Mismatched Diva version");
+    memcpy(&load_factor_, deser_buf + res, sizeof(load_factor_));
     res += sizeof(load_factor_);
 
     memcpy(&buf_float, deser_buf + res, sizeof(load_factor_alt_));
-- 
2.43.0


From e73073464bbd6e2003970cb740e31116f54435c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:51:20 +0000
Subject: [PATCH 08/32] fix: ShrinkInfixSize erased the last eight runend bits
 of byte-aligned stores

---
 include/diva.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 5d49d9b..9b70fd0 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2699,7 +2699,8 @@ inline void Diva<int_optimized>::ShrinkInfixStoreInfixSize(InfixStore &store, co
     const uint32_t total_bitmap_size = 64 + infix_store_target_size + scaled_sizes_[size_grade];
     memcpy(new_store.ptr, store.ptr, (total_bitmap_size + 7) / 8);
     uint8_t *new_store_byte_ptr = reinterpret_cast<uint8_t *>(new_store.ptr);
-    new_store_byte_ptr[(total_bitmap_size + 7) / 8 - 1] &= BITMASK(total_bitmap_size % 8);
+    if (total_bitmap_size % 8)
+        new_store_byte_ptr[(total_bitmap_size + 7) / 8 - 1] &= BITMASK(total_bitmap_size % 8);
 
     for (int32_t i = 0; i < slot_count; i++) {
         const uint64_t old_slot = GetSlot(store, i);
-- 
2.43.0


From ee978cf0c463cdab3835e4dfa0765fdad268b441 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:51:43 +0000
Subject: [PATCH 09/32] fix: slot accesses read and wrote back up to seven
 bytes past an infix store

The bytes belong to another heap object or to the allocator, which another
thread may be changing at that time.
---
 include/diva.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 9b70fd0..bfb8eb6 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -163,8 +163,9 @@ private:
 
         InfixStore(const uint32_t slot_count, const uint32_t slot_size, const uint32_t size_grade=size_scalar_shrink_grow_sep) {
             SetSizeGrade(size_grade);
+            // Slots are accessed a whole word at a time, so the last ones reach past the end
             const uint32_t word_count = GetPtrWordCount(slot_count, slot_size);
-            ptr = new uint64_t[word_count];
+            ptr = new uint64_t[word_count + 1];
             memset(ptr, 0, sizeof(uint64_t) * word_count);
         }
         InfixStore(const char *deser_buf);
@@ -1427,7 +1428,7 @@ template <bool int_optimized>
 inline uint32_t Diva<int_optimized>::DeserializeInfixStore(char *deser_buf, Diva<int_optimized>::InfixStore& store) const {
     memcpy(&store.status, deser_buf, sizeof(store.status));
     const uint32_t word_count = store.GetPtrWordCount(scaled_sizes_[store.GetSizeGrade()], infix_size_);
-    store.ptr = new uint64_t[word_count];
+    store.ptr = new uint64_t[word_count + 1];
     memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
     return sizeof(store.status) + word_count * sizeof(uint64_t);
 }
@@ -2682,7 +2683,7 @@ inline void Diva<int_optimized>::ResizeInfixStore(InfixStore &store, const bool
     store.SetSizeGrade(size_grade);
     const uint32_t next_size = scaled_sizes_[size_grade];
     const uint32_t word_count = InfixStore::GetPtrWordCount(next_size, infix_size_);
-    store.ptr = new uint64_t[word_count];
+    store.ptr = new uint64_t[word_count + 1];
     LoadListToInfixStore(store, infix_list, infix_count, total_implicit, true);
 }
 
-- 
2.43.0


From 219cecc2ff272eca05d6780b5cb8afde55bbf21f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:52:34 +0000
Subject: [PATCH 10/32] fix: ShrinkInfixSize corrupted every store not of the
 default size grade

The slots were written at the offsets of the default grade, outside the
allocation for smaller stores.
---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index bfb8eb6..e0de113 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2694,7 +2694,7 @@ inline void Diva<int_optimized>::ShrinkInfixStoreInfixSize(InfixStore &store, co
     const uint32_t infix_count = store.GetElemCount();
     const uint32_t slot_count = scaled_sizes_[size_grade];
 
-    InfixStore new_store(slot_count, new_infix_size);
+    InfixStore new_store(slot_count, new_infix_size, size_grade);
 
     // Copy the occupieds and runends bitmaps
     const uint32_t total_bitmap_size = 64 + infix_store_target_size + scaled_sizes_[size_grade];
-- 
2.43.0


From 2d86a45b131ee798b7efa91e50bf1da9a034750c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:56:16 +0000
Subject: [PATCH 11/32] fix: Delete could push the first run of a store past
 its canonical slot

A later insert between the two places then put its run out of order, hiding the
keys of both.
---
 include/diva.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index e0de113..ab9def3 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2465,8 +2465,8 @@ inline void Diva<int_optimized>::DeleteRawFromInfixStore(InfixStore &store, cons
         }
         if (cur_runend < 0) {
             const uint32_t mapped_pos = GetMappedPos(cur_occupied, size_grade, implicit_scalar);
-            const int32_t first_empty_slot_before = FindEmptySlotBefore(store, runend_pos);
-            shift_start = (first_empty_slot_before < mapped_pos ? first_empty_slot_before : shift_start);
+            const int32_t first_slot = FindEmptySlotBefore(store, runend_pos) + 1;
+            shift_start = (mapped_pos > first_slot ? first_slot : shift_start);
         }
     }
     else {
-- 
2.43.0


From 6946fdc46ec8ad88018c3322098339711dd1079d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:02:56 +0000
Subject: [PATCH 12/32] fix: a split could expand a cluster of short infixes
 until the stack overflowed

Every infix too short for the new boundary keys is replaced by up to
infix_store_target_size infixes, held in arrays on the stack; with a few thousand
of them, Insert crashed or the filter grew a thousandfold. Such a split is now
skipped, as the ones whose boundary key cannot be told from its neighbors are.
---
 include/diva.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index ab9def3..4ac97da 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -889,17 +889,23 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
                                                                       implicit_size,
                                                                       shamt_lt,
                                                                       left_start, left_end);
+    const auto [right_list_len, right_exp] = GetExpandedInfixListLength(infix_list + split_pos,
+                                                                        infix_list_len - split_pos,
+                                                                        implicit_size,
+                                                                        shamt_gt,
+                                                                        right_start, right_end);
+    if (static_cast<uint64_t>(left_list_len) + right_list_len > infix_list_len + infix_store_target_size) {
+        // Too many infixes are too short to tell the two sides apart, and would have to be expanded
+        InsertSimple(key);
+        return;
+    }
+
     uint64_t left_infix_list[left_list_len];
     UpdateInfixList(infix_list, split_pos, shamt_lt,
                     left_start, left_end,
                     left_infix_list, left_list_len,
                     left_exp);
 
-    const auto [right_list_len, right_exp] = GetExpandedInfixListLength(infix_list + split_pos,
-                                                                        infix_list_len - split_pos,
-                                                                        implicit_size,
-                                                                        shamt_gt,
-                                                                        right_start, right_end);
     uint64_t right_infix_list[right_list_len];
     UpdateInfixList(infix_list + split_pos, infix_list_len - split_pos, shamt_gt,
                     right_start, right_end,
-- 
2.43.0


From 9d29fa6189f97d0d27b99fccef270426d9adec95 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 13/32] fix: merging two stores left infixes out of order

A delete then removed a short infix standing for another key instead of the
longest one matching the deleted key.
---
 include/diva.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 4ac97da..144fd6b 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1622,6 +1622,12 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     const uint64_t implicit = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0) >> infix_size_;
     for (int32_t i = 0; i < total_elem_count; i++)
         infix_list[i] -= implicit << infix_size_;
+    // Deletes look for the longest matching infix at the end of the matching ones
+    std::sort(infix_list, infix_list + total_elem_count,
+              [](uint64_t a, uint64_t b) {
+                  const uint64_t a_lb = a & (-a), b_lb = b & (-b);
+                  return a - a_lb < b - b_lb || (a - a_lb == b - b_lb && a_lb > b_lb);
+              });
 
 #ifdef DEBUG
     for (int32_t i = 1; i < total_elem_count; i++) {
-- 
2.43.0


From d31888b2234f61155581249715bd8d2dfecd2cef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:21:55 +0000
Subject: [PATCH 14/32] fix: keys equal to a cut-down boundary key up to zero
 padding got lost

A boundary key cut down to a prefix may end in zero bytes (or, among integers, be
shorter than the keys). It then compared as different from, and greater than, the
keys it stands for, which were looked up in the store before it: false negatives.
---
 include/diva.hpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 144fd6b..2231bfb 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -134,23 +134,40 @@ private:
 
         __attribute__((always_inline))
         bool IsPrefixOf(const InfiniteByteString& other, const uint32_t bits_to_ignore=0) const {
-            if (length <= other.length && memcmp(str, other.str, length - 1) == 0)
-                return (str[length - 1] | BITMASK(bits_to_ignore)) == (other.str[length - 1] | BITMASK(bits_to_ignore));
-            return false;
+            if (memcmp(str, other.str, std::min(length - 1, other.length)) != 0)
+                return false;
+            for (uint32_t i = other.length; i + 1 < length; i++)
+                if (str[i] != 0)
+                    return false;
+            const uint8_t other_last = length <= other.length ? other.str[length - 1] : 0;
+            return (str[length - 1] | BITMASK(bits_to_ignore)) == (other_last | BITMASK(bits_to_ignore));
+        }
+
+        // Strings are padded with zero bytes, so trailing ones make no difference
+        int32_t Compare(const InfiniteByteString& rhs) const {
+            const uint32_t min_length = std::min(length, rhs.length);
+            const int32_t cmp_result = memcmp(str, rhs.str, min_length);
+            if (cmp_result != 0)
+                return cmp_result;
+            for (uint32_t i = min_length; i < length; i++)
+                if (str[i] != 0)
+                    return 1;
+            for (uint32_t i = min_length; i < rhs.length; i++)
+                if (rhs.str[i] != 0)
+                    return -1;
+            return 0;
         }
 
         bool operator<(const InfiniteByteString& rhs) const {
-            int32_t cmp_result = memcmp(str, rhs.str, std::min(length, rhs.length));
-            return cmp_result < 0 || (cmp_result == 0 && length < rhs.length);
+            return Compare(rhs) < 0;
         }
 
         bool operator<=(const InfiniteByteString& rhs) const {
-            int32_t cmp_result = memcmp(str, rhs.str, std::min(length, rhs.length));
-            return cmp_result < 0 || (cmp_result == 0 && length <= rhs.length);
+            return Compare(rhs) <= 0;
         }
 
         bool operator==(const InfiniteByteString& rhs) const {
-            return length == rhs.length && memcmp(str, rhs.str, std::min(length, rhs.length)) == 0;
+            return Compare(rhs) == 0;
         }
     };
 
-- 
2.43.0


From 8532f3a197c9934738c9da2eda1a2cdb362f45d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:28 +0000
Subject: [PATCH 15/32] fix: leaves of the string tree were not 64-byte
 aligned, so its trie kept pointers into freed ones

The trie keeps bitmin and bitmax in the low bits of the leftmost-leaf
pointer and masks six bits of the address off, so a leaf whose address is
not a multiple of 64 was never recognised as the only child of its node.
With 32 keys per node the struct is 352 bytes and most leaves are
misaligned: after a merge the trie kept pointing at the freed leaf and
lookups spun on its lock forever.
---
 include/wormhole/wh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 36b2036..1d3e97c 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -62,7 +62,7 @@ struct wormleaf {
 
   struct entry13 hs[WH_KPN]; // sorted by hashes
   u8 ss[WH_KPN]; // sorted by keys
-};
+} __attribute__((aligned(64))); // wormmeta.l13 keeps bitmin+bitmax in the lowest bits of the leaf's address
 
 struct wormslot { u16 t[WH_BKT_NR]; };
 static_assert(sizeof(struct wormslot) == 16, "sizeof(wormslot) != 16");
-- 
2.43.0


From bea0c2ce646b7c1cfd993ea327dafa77bb2e5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:21 +0000
Subject: [PATCH 16/32] fix: merging two leaves of the integer tree counted the
 merged keys as sorted twice

A later lookup then sorted a negative number of keys and crashed.
---
 include/wormhole/wh_int.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 372131f..0c9c04f 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1861,12 +1861,9 @@ wormhole_split_leaf(struct wormhole_int * const map, struct wormleaf_int * const
 wormleaf_merge(struct wormleaf_int * const leaf1, struct wormleaf_int * const leaf2)
 {
   debug_assert((leaf1->nr_keys + leaf2->nr_keys) <= WH_KPN);
-  const bool leaf1_sorted = leaf1->nr_keys == leaf1->nr_sorted;
-
+  // the insertions keep nr_sorted up to date
   for (u32 i = 0; i < leaf2->nr_keys; i++)
     wormleaf_int_insert_isp(leaf1, leaf2->kvs + i);
-  if (leaf1_sorted)
-    leaf1->nr_sorted += leaf2->nr_sorted;
   return true;
 }
 
-- 
2.43.0


From 0b9b562cb1f2e3eb01dc673e6f27144e9193371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:21 +0000
Subject: [PATCH 17/32] fix: lookups in the integer tree missed keys not yet
 sorted into their leaf

get, probe and del did not find them, and put stored a second copy.
---
 include/wormhole/wh_int.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 0c9c04f..c7d5a67 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1436,8 +1436,13 @@ wormleaf_int_search_eq(const struct wormleaf_int * const leaf, const struct kref
     lo = cmp <= 0 ? lo : i;
     hi = cmp <= 0 ? i : hi;
   }
-  u32 res = (hi < leaf->nr_keys && compare_int_isp(search_key, key->len, leaf->kvs + hi) == 0) ? hi : WH_KPN;
-  return res;
+  if (hi < leaf->nr_sorted && compare_int_isp(search_key, key->len, leaf->kvs + hi) == 0)
+    return hi;
+  // the keys after the sorted ones are in no order
+  for (u32 i = leaf->nr_sorted; i < leaf->nr_keys; i++)
+    if (compare_int_isp(search_key, key->len, leaf->kvs + i) == 0)
+      return i;
+  return WH_KPN;
 }
 
 
-- 
2.43.0


From 7d187dfee5b8f370b2c99baff75f664e0911484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:21 +0000
Subject: [PATCH 18/32] fix: BulkLoadStreamingFinish leaked the buffer of the
 outermost boundary keys

---
 include/diva.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 2231bfb..44f2072 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2004,6 +2004,7 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
     AddTreeKey(key_copy, bulk_load_streaming_max_len_);
     memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
     AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    delete[] key_copy;
 
     if (bulk_load_streaming_ind_ > 0) {
         InfiniteByteString bulk_load_right_key {bulk_load_key_list_[bulk_load_streaming_ind_ - 1].str,
-- 
2.43.0


From 1e6b3efd7543e6d0e688e3097dd31d90b84e8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:25 +0000
Subject: [PATCH 19/32] fix: merging two stores of the integer tree used keys
 its deletion had moved

---
 include/diva.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 44f2072..e2c776d 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1654,13 +1654,6 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     }
 #endif
 
-    delete[] store_l->ptr;
-    delete[] store_r->ptr;
-    if constexpr (int_optimized)
-        wh_int_del(better_tree_int_, middle_key.str, middle_key.length);
-    else
-        wh_del(better_tree_, middle_key.str, middle_key.length);
-
     const uint64_t left_extraction = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0);
     const uint64_t right_extraction = ExtractPartialKey(right_key, shared, ignore, implicit_size, 1);
     const uint32_t total_implicit = ((right_extraction >> infix_size_) - (left_extraction >> infix_size_)) + 1;
@@ -1668,10 +1661,21 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     InfixStore store = AllocateInfixStoreWithList(infix_list, total_elem_count, total_implicit);
     store.SetPartialKey(store_l->IsPartialKey());
     store.SetInvalidBits(store_l->GetInvalidBits());
-    if constexpr (int_optimized)
-        wh_int_put(better_tree_int_, left_key.str, left_key.length, reinterpret_cast<const void *>(&store), sizeof(InfixStore));
-    else
+
+    delete[] store_l->ptr;
+    delete[] store_r->ptr;
+    // The keys and stores lie in the tree's leaves, whose entries the updates move
+    if constexpr (int_optimized) {
+        uint64_t left, middle;
+        memcpy(&left, left_key.str, sizeof(left));
+        memcpy(&middle, middle_key.str, sizeof(middle));
+        wh_int_del(better_tree_int_, &middle, middle_key.length);
+        wh_int_put(better_tree_int_, &left, left_key.length, reinterpret_cast<const void *>(&store), sizeof(InfixStore));
+    }
+    else {
+        wh_del(better_tree_, middle_key.str, middle_key.length);
         wh_put(better_tree_, left_key.str, left_key.length, reinterpret_cast<const void *>(&store), sizeof(InfixStore));
+    }
 }
 
 template <bool int_optimized>
-- 
2.43.0


From 530491a7bcbac9180995a8842f1ea273003d8e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:00 +0000
Subject: [PATCH 20/32] hook: DIVA_SIM lets simulation builds choose the trees'
 initial sizes

---
 include/wormhole/wh.c     | 11 +++++++++++
 include/wormhole/wh_int.c | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 1d3e97c..f0a61e5 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -21,6 +21,17 @@
 #define WH_SLABLEAF_SIZE ((1lu << 21)) // 2MB for valgrind
 #endif
 
+#ifdef DIVA_SIM // simulation builds choose the sizes at run time, to reach growth with few keys
+extern u32 diva_sim_hmap_buckets; // power of 2
+extern u64 diva_sim_slab_bytes; // power of 2, at least 4096
+#undef WH_HMAPINIT_SIZE
+#undef WH_SLABMETA_SIZE
+#undef WH_SLABLEAF_SIZE
+#define WH_HMAPINIT_SIZE (diva_sim_hmap_buckets)
+#define WH_SLABMETA_SIZE (diva_sim_slab_bytes)
+#define WH_SLABLEAF_SIZE (diva_sim_slab_bytes)
+#endif
+
 #define WH_KPN ((32u)) // keys per node; power of 2
 #define WH_HDIV (((1u << 16)) / WH_KPN)
 #define WH_MID ((WH_KPN >> 1)) // ideal cut point for split, the closer the better
diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index c7d5a67..1eb30b3 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -27,6 +27,17 @@
 #define WH_SLABLEAF_SIZE ((1lu << 21)) // 2MB for valgrind
 #endif
 
+#ifdef DIVA_SIM // simulation builds choose the sizes at run time, to reach growth with few keys
+extern u32 diva_sim_hmap_buckets; // power of 2
+extern u64 diva_sim_slab_bytes; // power of 2, at least 4096
+#undef WH_HMAPINIT_SIZE
+#undef WH_SLABMETA_SIZE
+#undef WH_SLABLEAF_SIZE
+#define WH_HMAPINIT_SIZE (diva_sim_hmap_buckets)
+#define WH_SLABMETA_SIZE (diva_sim_slab_bytes)
+#define WH_SLABLEAF_SIZE (diva_sim_slab_bytes)
+#endif
+
 #define WH_KPN ((32u)) // keys per node; power of 2
 #define WH_HDIV (((1u << 16)) / WH_KPN)
 #define WH_MID ((WH_KPN >> 1)) // ideal cut point for split, the closer the better
-- 
2.43.0


From 42911b0ae92ed16ad31143ed944f7f3dae9d4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:01 +0000
Subject: [PATCH 21/32] fix: qsbr_wait no longer follows a null pointer while
 another thread registers

---
 include/wormhole/lib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index 06d45f6..d84f3f5 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -2865,7 +2865,13 @@ struct qsbr {
 qsbr_create(void)
 {
   struct qsbr * const q = yalloc(sizeof(*q));
+  if (q == NULL)
+    return NULL;
   memset(q, 0, sizeof(*q));
+  // qsbr_wait() can see a slot between its bit being set and its ptr being stored (qsbr_register)
+  for (u32 i = 0; i < QSBR_SHARD_NR; i++)
+    for (u32 j = 0; j < QSBR_STATES_NR; j++)
+      q->shards[i].ptrs[j] = (u64)(&q->target);
   return q;
 }
 
-- 
2.43.0


From e8b1e53dcab4e2262e1868d1b512c329b3810866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:01 +0000
Subject: [PATCH 22/32] fix: wh_int_get no longer calls a null function pointer

---
 include/wormhole/wh_int.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 1eb30b3..aadfdf9 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -3219,8 +3219,11 @@ wh_int_get(struct wormref_int * const ref, const void * const kbuf, const u32 kl
   struct kref kref;
   kref_ref_hash32(&kref, kbuf, klen);
   struct wh_inp_info info = {vbuf_out, vlen_out, vbuf_size};
-  // use the inplace read function to get the value if it exists
-  return wh_api->inpr(ref, &kref, wh_inp_copy_value, &info);
+  // the pairs are stored in the leaf and have no struct kv to read in place; get a copy
+  u64 buf[(sizeof(struct kv) + sizeof(u64) + sizeof(struct store_sim_hack) + 7) / 8];
+  struct kv * const curr = wh_api->get(ref, &kref, (struct kv *)buf);
+  wh_inp_copy_value(curr, &info);
+  return curr != NULL;
 }
 
   bool
-- 
2.43.0


From 9d6be185fc088cfca864db85111935ba8ede42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:14 +0000
Subject: [PATCH 23/32] fix: an integer tree iterator past the last key can be
 peeked at

---
 include/wormhole/wh_int.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index aadfdf9..87c7173 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -2835,6 +2835,11 @@ wormhole_int_iter_prev(struct wormhole_int_iter * const iter, struct kv * const
 wormhole_int_iter_inp(struct wormhole_int_iter * const iter, kv_inp_func uf, void * const priv)
 {
   struct int_store_pair * const kv = wormhole_int_iter_current(iter);
+  if (kv == NULL) {
+    uf(NULL, priv); // call uf even if (kv == NULL)
+    return false;
+  }
+
   uint8_t buf[sizeof(struct kv) + kv->key_size + sizeof(kv->store)];
   struct kv * res = (struct kv *) buf;
   res->klen = kv->key_size;
@@ -2842,8 +2847,8 @@ wormhole_int_iter_inp(struct wormhole_int_iter * const iter, kv_inp_func uf, voi
   res->vlen = sizeof(kv->store);
   memcpy(res->kv + kv->key_size, kv->store, res->vlen);
 
-  uf(res, priv); // call uf even if (kv == NULL)
-  return kv != NULL;
+  uf(res, priv);
+  return true;
 }
 
   void
-- 
2.43.0


From ea536404ba3e67642d75f29931b4d613a7c9cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:59 +0000
Subject: [PATCH 24/32] fix: integer tree lookups no longer search a leaf while
 an iterator sorts it

---
 include/wormhole/wh_int.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 87c7173..43dcb8f 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1912,10 +1912,14 @@ wormleaf_split_undo(struct wormhole_int * const map, struct wormleaf_int * const
 // }}} leaf-merge
 
 // get/probe {{{
+  static void
+wormhole_int_iter_leaf_sync_sorted(struct wormleaf_int * const leaf);
+
   struct kv *
 wormhole_int_get(struct wormref_int * const ref, const struct kref * const key, struct kv * const out)
 {
   struct wormleaf_int * const leaf = wormhole_jump_leaf_read(ref, key);
+  wormhole_int_iter_leaf_sync_sorted(leaf); // an iterator sorts the pairs under the read-lock
   const u32 i = wormleaf_int_search_eq(leaf, key);
   if (i >= WH_KPN) {
       wormleaf_int_unlock_read(leaf);
@@ -1962,6 +1966,7 @@ whunsafe_int_get(struct wormhole_int * const map, const struct kref * const key,
 wormhole_int_probe(struct wormref_int * const ref, const struct kref * const key)
 {
   struct wormleaf_int * const leaf = wormhole_jump_leaf_read(ref, key);
+  wormhole_int_iter_leaf_sync_sorted(leaf); // an iterator sorts the pairs under the read-lock
   const u32 i = wormleaf_int_search_eq(leaf, key);
   wormleaf_int_unlock_read(leaf);
   return i < WH_KPN;
-- 
2.43.0


From d47c9b949d21be6182c025e91aaa17e1b4ff87bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:46 +0000
Subject: [PATCH 25/32] fix: destroying a filter no longer leaks its reference
 to the tree

---
 include/diva.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index e2c776d..d36c878 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1364,6 +1364,7 @@ inline Diva<int_optimized>::~Diva() {
         }
         if (it_int.leaf)
             wormleaf_int_unlock_read(it_int.leaf);
+        wh_int_unref(better_tree_int_);
         wh_int_destroy(wh_int_);
     }
     else {
@@ -1379,6 +1380,7 @@ inline Diva<int_optimized>::~Diva() {
         }
         if (it.leaf)
             wormleaf_unlock_read(it.leaf);
+        wh_unref(better_tree_);
         wh_destroy(wh_);
     }
 }
-- 
2.43.0


From 98b1d6691b49936666e86afbb114938f97f9e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 26/32] fix: making room in the hash table of a tree no longer
 goes in circles

---
 include/wormhole/wh.c     | 5 ++---
 include/wormhole/wh_int.c | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index f0a61e5..c658f79 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -971,9 +971,8 @@ wormhmap_cuckoo(struct wormhmap * const hmap, const u32 mid0,
     const u32 midy = wormhole_bswap(hash32) & hmap->mask;
     const u32 midt = (midx != mid0) ? midx : midy;
     if (midt != mid0) { // possible
-      // no penalty if moving someone back to its 1st hash location
-      const u32 depth1 = (midt == midx) ? depth : (depth - 1);
-      if (wormhmap_cuckoo(hmap, midt, bkt->e[i], sv[i], depth1)) {
+      // every move costs: moving someone back to its 1st hash location for free could go in circles
+      if (wormhmap_cuckoo(hmap, midt, bkt->e[i], sv[i], depth - 1)) {
         bkt->e[i] = e0;
         sv[i] = s0;
         return true;
diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 43dcb8f..3447b7b 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1004,9 +1004,8 @@ wormhmap_cuckoo(struct wormhmap * const hmap, const u32 mid0,
     const u32 midy = wormhole_bswap(hash32) & hmap->mask;
     const u32 midt = (midx != mid0) ? midx : midy;
     if (midt != mid0) { // possible
-      // no penalty if moving someone back to its 1st hash location
-      const u32 depth1 = (midt == midx) ? depth : (depth - 1);
-      if (wormhmap_cuckoo(hmap, midt, bkt->e[i], sv[i], depth1)) {
+      // every move costs: moving someone back to its 1st hash location for free could go in circles
+      if (wormhmap_cuckoo(hmap, midt, bkt->e[i], sv[i], depth - 1)) {
         bkt->e[i] = e0;
         sv[i] = s0;
         return true;
-- 
2.43.0


From 9890dc3a4bd6c7c36b8d6d5b48cb245dc254468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 27/32] fix: Insert loses keys when it splits next to a
 boundary key far closer than the other one

The infixes between the new boundary and its close neighbour are shifted by as many bits
as the two have more in common, which ran out of the 64-bit word they are kept in.  The
expanded infixes then ended up in other places, or past the end of their list.
---
 include/diva.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index d36c878..a930e80 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -895,8 +895,11 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
 
     if (shared_lt >= 8 * std::max(prev_key.length, edited_key.length)
             || shared_gt >= 8 * std::max(edited_key.length, next_key.length)
-            || zero_pos <= std::max(shared_lt, shared_gt)) {
-        // The new boundary key coincides with one of its neighbors, or cannot be told apart from it
+            || zero_pos <= std::max(shared_lt, shared_gt)
+            || (split_pos > 0 && shamt_lt + implicit_size + infix_size_ > 64)
+            || (split_pos < infix_list_len && shamt_gt + implicit_size + infix_size_ > 64)) {
+        // The new boundary key coincides with one of its neighbors, or cannot be told apart from it,
+        // or is so close to one that the infixes in between do not fit in a word any more
         InsertSimple(key);
         return;
     }
-- 
2.43.0


From abd35be78d26bb73a7ccbe8049a396f9af1c523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:15 +0000
Subject: [PATCH 28/32] fix: Delete loses keys when it merges stores of infixes
 of 22 or more bits

The first bit of an infix was shifted into place as a 32-bit number.
---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index a930e80..a508735 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1734,7 +1734,7 @@ inline void Diva<int_optimized>::UpdateInfixListDelete(const uint32_t shared, co
                                                              : (infix_list[i] >> (old_infix_size - new_infix_size))
                                                                     | (infix_list[i] & 1ULL));
             uint32_t recovered_bit_cnt = 1, recovery_bits = 1;
-            uint64_t recovered_infix = left_key.GetBit(shared) << (new_infix_size - recovered_bit_cnt);
+            uint64_t recovered_infix = static_cast<uint64_t>(left_key.GetBit(shared)) << (new_infix_size - recovered_bit_cnt);
             
             recovery_bits = std::min(old_shared - shared - ignore - 1, new_infix_size - recovered_bit_cnt);
             recovered_bit_cnt += recovery_bits;
-- 
2.43.0


From adb59525ba2cb35b814e80c25d28637e76ed95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:21 +0000
Subject: [PATCH 29/32] fix: range deletes of the unsafe API run off the list
 of leaves when the range is empty

whunsafe_delr and whunsafe_int_delr look up the leaf of the end of the range
and walk from the leaf of its start until they reach it.  When the end lies in
an earlier leaf they never do, and dereference the NULL behind the last leaf
after deleting everything up to it.  Delete nothing, as the other range deletes
do.
---
 include/wormhole/wh.c     | 3 +++
 include/wormhole/wh_int.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index c658f79..3a5f7aa 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -2997,6 +2997,9 @@ whsafe_delr(struct wormref * const ref, const struct kref * const start,
 whunsafe_delr(struct wormhole * const map, const struct kref * const start,
     const struct kref * const end)
 {
+  if (end && kref_compare(start, end) >= 0) // do nothing if end <= start
+    return 0;
+
   // first leaf
   struct wormhmap * const hmap = map->hmap;
   struct wormleaf * const leafa = wormhole_jump_leaf(hmap, start);
diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 3447b7b..0d82bcf 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -2607,6 +2607,9 @@ whsafe_int_delr(struct wormref_int * const ref, const struct kref * const start,
 whunsafe_int_delr(struct wormhole_int * const map, const struct kref * const start,
     const struct kref * const end)
 {
+  if (end && kref_compare(start, end) >= 0) // do nothing if end <= start
+    return 0;
+
   // first leaf
   struct wormhmap * const hmap = map->hmap;
   struct wormleaf_int * const leafa = wormhole_jump_leaf(hmap, start);
-- 
2.43.0


From ee2d24e12e0b6bf5d0accbf243f2f13a1cf9d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:21 +0000
Subject: [PATCH 30/32] fix: an unsafe put that runs out of memory leaves the
 map locked

whunsafe_split_meta releases the metadata lock when no memory is left, but it
never took it: the lock's write bit is subtracted from a free lock, which then
looks taken, and the next safe operation that splits or merges a leaf of the
same map waits forever.
---
 include/wormhole/wh.c     | 1 -
 include/wormhole/wh_int.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 3a5f7aa..25e42b7 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -2421,7 +2421,6 @@ whunsafe_split_meta(struct wormhole * const map, struct wormleaf * const leaf2)
 
   const bool sr = wormhole_slab_reserve(map, mkey->klen);
   if (unlikely(!sr)) {
-    wormhmap_unlock(map);
     wormhole_free_mkey(mkey);
     return false;
   }
diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 0d82bcf..93ef3ea 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -2200,7 +2200,6 @@ whunsafe_split_meta(struct wormhole_int * const map, struct wormleaf_int * const
 
   const bool sr = wormhole_slab_reserve(map, mkey->klen);
   if (unlikely(!sr)) {
-    wormhmap_unlock(map);
     wormhole_free_mkey(mkey);
     return false;
   }
-- 
2.43.0


From 0681bc02ac6a10d40c87b8df99ba4dc310dd1774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:04 +0000
Subject: [PATCH 31/32] fix: process_getaffinity_list writes one core into an
 empty list

---
 include/wormhole/lib.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index d84f3f5..bd94177 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -902,12 +902,9 @@ process_getaffinity_list(const u32 max, u32 * const cores)
   const u32 nr_affinity = (u32)CPU_COUNT(&set);
   const u32 nr = nr_affinity < max ? nr_affinity : max;
   u32 j = 0;
-  for (u32 i = 0; i < process_ncpu; i++) {
+  for (u32 i = 0; (i < process_ncpu) && (j < nr); i++) {
     if (CPU_ISSET(i, &set))
       cores[j++] = i;
-
-    if (j >= nr)
-      break;
   }
   return j;
 }
-- 
2.43.0


From 0328df28f8b616e5d844a3d88601e24f5b728ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:28 +0000
Subject: [PATCH 32/32] fix: fork-join gives the caller a random affinity when
 its own could not be read

---
 include/wormhole/lib.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index bd94177..5479c6d 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -1062,20 +1062,23 @@ thread_fork_join(u32 nr, void *(*func) (void *), const bool args, void * const a
 
   // save current affinity
   cpu_set_t set0;
-  thread_getaffinity_set(&set0);
+  const bool saved = thread_getaffinity_set(&set0) == 0;
 
-  // master thread shares thread0's core
-  cpu_set_t set;
-  CPU_ZERO(&set);
-  CPU_SET(fji.cores[0], &set);
-  thread_setaffinity_set(&set);
+  // master thread shares thread0's core; it stays where it is if it could not be brought back
+  if (saved) {
+    cpu_set_t set;
+    CPU_ZERO(&set);
+    CPU_SET(fji.cores[0], &set);
+    thread_setaffinity_set(&set);
+  }
 
   const u64 t0 = time_nsec();
   (void)thread_do_fork_join_worker(fjp.ptr);
   const u64 dt = time_diff_nsec(t0);
 
   // restore original affinity
-  thread_setaffinity_set(&set0);
+  if (saved)
+    thread_setaffinity_set(&set0);
 
   // check and report errors (unlikely)
   if (atomic_load_explicit(&fji.xerr, MO_CONSUME))
-- 
2.43.0


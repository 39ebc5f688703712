From 4aa11f243536c9783bc6a479c5f204dc7181a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 01/21] fix: AES generator returned a constant for the last
 slot of an odd-sized buffer

---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index a937610..74f06ac 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -20,6 +20,8 @@ mpc_utils::StatusOr<AESUniformBitGenerator> AESUniformBitGenerator::Create(
   if (buffer_size < 2) {
     buffer_size = 2;
   }
+  // Each AES call fills two elements, so the buffer must have even size.
+  buffer_size += buffer_size % 2;
   AESUniformBitGenerator result(buffer_size);
   RETURN_IF_ERROR(result.seed(seed));
   return result;
-- 
2.43.0


From c1ca2f94d5de339cc04f6048476d1f7ad42c0c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 02/21] fix: AES generator read its nonce through a possibly
 unaligned pointer

---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 74f06ac..9be3f92 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -1,5 +1,6 @@
 #include "distributed_vector_ole/aes_uniform_bit_generator.h"
 
+#include <cstring>
 #include <stdexcept>
 
 #include "absl/strings/str_cat.h"
@@ -37,9 +38,9 @@ mpc_utils::Status AESUniformBitGenerator::seed(absl::Span<const uint8_t> seed) {
                &expanded_key_)) {  // Use first 16 bytes of seed as key.
     return mpc_utils::InternalError(ERR_reason_error_string(ERR_get_error()));
   }
-  nonce_ = *(reinterpret_cast<const absl::uint128 *>(
-      seed.data() + 16));  // Use second 16 bytes of seed as nonce.
-  counter_ = 0;            // Reset counter.
+  // Use second 16 bytes of seed as nonce. `seed` might not be aligned.
+  std::memcpy(&nonce_, seed.data() + 16, sizeof(nonce_));
+  counter_ = 0;  // Reset counter.
   elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.
   return mpc_utils::OkStatus();
 }
-- 
2.43.0


From 29997d4274637d1aa886c6749b945129890c2e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 03/21] fix: AES generator served values past the reseed
 interval after throwing once

---
 .../aes_uniform_bit_generator.cpp               | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 9be3f92..e1bc832 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -52,6 +52,15 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     // separate vector for the nonces which allows the CPU to pipeline calls to
     // AES_encrypt.
     int64_t num_blocks = buffer_size / 2;
+    // Check if refilling the buffer would exceed the reseed interval. The state
+    // is left unchanged, so all further calls fail as well until seed() is
+    // called. Since the return type of operator() is required to be
+    // result_type, we have to throw an exception here.
+    if (num_blocks > kReseedInterval - counter_) {
+      throw std::runtime_error(
+          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
+                       " calls to this AESUniformBitGenerator"));
+    }
     std::vector<absl::uint128> nonces(num_blocks);
     for (int64_t i = 0; i < num_blocks; i++) {
       nonces[i] = nonce_;
@@ -63,14 +72,6 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     }
     elements_used_ = 0;
     counter_ += num_blocks;
-    // Check if we exceeded the reseed interval. Since the return type of
-    // operator() is required to be result_type, we have to throw an exception
-    // here.
-    if (counter_ > kReseedInterval) {
-      throw std::runtime_error(
-          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
-                       " calls to this AESUniformBitGenerator"));
-    }
   }
   result_type result = buffer_[elements_used_];
   elements_used_++;
-- 
2.43.0


From c8dc9754964707ce645579457179c7f29795de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 04/21] verif hook: reseed interval of the AES generator can be
 set at compile time

---
 distributed_vector_ole/aes_uniform_bit_generator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.h b/distributed_vector_ole/aes_uniform_bit_generator.h
index 7aa65ed..b8caeac 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.h
+++ b/distributed_vector_ole/aes_uniform_bit_generator.h
@@ -23,7 +23,12 @@ namespace distributed_vector_ole {
 class AESUniformBitGenerator {
  public:
   using result_type = uint64_t;
+#ifdef DISTRIBUTED_VECTOR_OLE_VERIF_RESEED_INTERVAL
+  static const int64_t kReseedInterval =
+      DISTRIBUTED_VECTOR_OLE_VERIF_RESEED_INTERVAL;
+#else
   static const int64_t kReseedInterval = (1ll << 48);
+#endif
   static const int kStateSize = 32;
   static const int kDefaultBufferSize = (1 << 20) / sizeof(result_type);
 
-- 
2.43.0


From f4d7856ab4c1eacd35633bb369ac1aed876b096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 05/21] fix: CanBeHashedInto used the wrong hash range for
 hashes shorter than 128 bits

---
 distributed_vector_ole/internal/scalar_helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 897b3de..198932f 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -131,7 +131,7 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     }
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value >>= 128 - hash_bits;
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
@@ -157,7 +157,7 @@ struct ScalarHelperImpl<NTL::zz_p> {
                                           // to fit in a long.
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value >>= 128 - hash_bits;
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
-- 
2.43.0


From f7fb6bc2dc4894435829f02e5960dd363018d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 06/21] fix: CanBeHashedInto truncated ZZ_p moduli larger than
 128 bits

---
 distributed_vector_ole/internal/scalar_helpers.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 198932f..c044a88 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -123,12 +123,15 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     // Check that when reducing an absl::uint128 modulo T::modulus(), the result
     // is nearly uniform, i.e., the probability for any set of results is at
     // most 2^-statistical_security higher than in a uniform distribution.
+    if (NTL::NumBits(NTL::ZZ_p::modulus()) > 128) {
+      // Modulus does not fit in an absl::uint128. The only such modulus that is
+      // not larger than the range of hash values is 2**128.
+      return hash_bits == 128 &&
+             NTL::ZZ_p::modulus() == NTL::power2_ZZ(128);
+    }
     uint64_t modulus_low = NTL::conv<uint64_t>(NTL::ZZ_p::modulus());
     uint64_t modulus_high = NTL::conv<uint64_t>(NTL::ZZ_p::modulus() >> 64);
     absl::uint128 modulus = absl::MakeUint128(modulus_high, modulus_low);
-    if (modulus == 0) {  // Modulus is a multiple of 2**128
-      return true;
-    }
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
       max_value >>= 128 - hash_bits;
-- 
2.43.0


From b39da1f7a143322359a74ac9952fc88a86ead7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 07/21] fix: MPFSS accepted negative indices and indices equal
 to the output size

---
 distributed_vector_ole/mpfss_known_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index a6e4ac1..fb6b53e 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -190,7 +190,7 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
         "`y` and `indices` must not be empty");
   }
   for (int i = 0; i < static_cast<int>(indices.size()); i++) {
-    if (indices[i] > static_cast<int64_t>(output.size())) {
+    if (indices[i] < 0 || indices[i] >= static_cast<int64_t>(output.size())) {
       return mpc_utils::InvalidArgumentError(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
-- 
2.43.0


From d5dc76544833b345bc8d9ad36d23409c59492e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 08/21] fix: MPFSS accepted repeating indices whenever cuckoo
 hashing placed them

---
 distributed_vector_ole/mpfss_known_indices.h | 21 ++++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index fb6b53e..6fcf52f 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -195,21 +195,16 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
   }
+  // Cuckoo hashing can succeed with repeating indices, in which case the result
+  // would be wrong, so uniqueness has to be checked explicitly.
+  absl::flat_hash_set<int64_t> indices_set(indices.begin(), indices.end());
+  if (indices.size() != indices_set.size()) {
+    return mpc_utils::InvalidArgumentError("All `indices` must be unique");
+  }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));
   int num_buckets = buckets_.size();
-  // Checking for uniqueness of `indices` takes time, so we only do that if
-  // cuckoo hashing fails.
-  auto status = hasher_->HashCuckoo(indices, num_buckets);
-  if (!status.ok() && mpc_utils::IsInternal(status.status()) &&
-      status.status().message() ==
-          "Failed to insert element, maximum number of tries exhausted") {
-    // Probably due to repeating indices.
-    absl::flat_hash_set<int64_t> indices_set(indices.begin(), indices.end());
-    if (indices.size() != indices_set.size()) {
-      return mpc_utils::InvalidArgumentError("All `indices` must be unique");
-    }
-  }
-  ASSIGN_OR_RETURN(auto hashed_inputs, std::move(status));
+  ASSIGN_OR_RETURN(auto hashed_inputs,
+                   hasher_->HashCuckoo(indices, num_buckets));
 
   // y padded with zeros and permuted according to hashed_inputs:
   // y_permuted[i] = y[j] if hashed_inputs[i] == j, and 0 if hashed_inputs[i] ==
-- 
2.43.0


From 84be252188319687520ff003a8d3dad458914c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 09/21] fix: punctured GGM tree accepted a negative missing
 index

---
 distributed_vector_ole/ggm_tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 210eab5..a696e84 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -134,6 +134,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
     return mpc_utils::InvalidArgumentError(
         "`missing_index` must be smaller than `num_leaves`");
   }
+  if (missing_index < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`missing_index` must not be negative");
+  }
   int num_levels = sibling_wise_xors.size() + 1;
   for (int i = 0; i < num_levels - 1; i++) {
     if (static_cast<int>(sibling_wise_xors[i].size()) != arity) {
-- 
2.43.0


From ea5c5995847100f38789a98c29fa76ef3466dcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 10/21] fix: punctured GGM tree read past the end of too short
 key lists

---
 distributed_vector_ole/ggm_tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index a696e84..bfe54a4 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -152,6 +152,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (keys.empty()) {
     return mpc_utils::InvalidArgumentError("`keys` must not be empty");
   }
+  if (static_cast<int>(keys.size()) != arity) {
+    return mpc_utils::InvalidArgumentError(
+        "`keys` must have length `arity`");
+  }
 
   // Construct path to `missing_index`.
   std::vector<int64_t> missing_path(num_levels);
-- 
2.43.0


From 524517937cc9082355279b5d57dd79c3ac07ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 11/21] fix: punctured GGM tree with surplus levels accessed
 levels out of bounds

---
 distributed_vector_ole/ggm_tree.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index bfe54a4..f349b68 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -19,7 +19,6 @@
 #include <omp.h>
 
 #include <algorithm>
-#include <cassert>
 #include <cmath>
 #include <functional>
 
@@ -157,6 +156,12 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
         "`keys` must have length `arity`");
   }
 
+  ASSIGN_OR_RETURN(auto levels, AllocateLevels(arity, num_leaves));
+  if (static_cast<int>(levels.size()) != num_levels) {
+    return mpc_utils::InvalidArgumentError(
+        "Dimensions passed in `sibling_wise_xors` too large for `num_leaves`");
+  }
+
   // Construct path to `missing_index`.
   std::vector<int64_t> missing_path(num_levels);
   missing_path[num_levels - 1] = missing_index;
@@ -173,10 +178,8 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
       return mpc_utils::InternalError(ERR_reason_error_string(ERR_get_error()));
     }
   }
-  ASSIGN_OR_RETURN(auto levels, AllocateLevels(arity, num_leaves));
   std::unique_ptr<GGMTree> tree = absl::WrapUnique(new GGMTree(
       std::move(levels), std::move(keys_copy), std::move(expanded_keys)));
-  assert(tree->num_levels() == num_levels);
 
   // Expand tree from the root. At each level, use sibling_wise_xors together
   // with already computed subtrees to compute all missing seeds but one, and
-- 
2.43.0


From 9625d8dbb277d9aa9e4c319136c0392396905dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 12/21] fix: cuckoo hashing gave up on small or unlucky inputs
 that have a placement

---
 distributed_vector_ole/cuckoo_hasher.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/cuckoo_hasher.h b/distributed_vector_ole/cuckoo_hasher.h
index 0f3eef3..0573556 100644
--- a/distributed_vector_ole/cuckoo_hasher.h
+++ b/distributed_vector_ole/cuckoo_hasher.h
@@ -43,6 +43,7 @@ namespace distributed_vector_ole {
 class CuckooHasher {
  public:
   static const int kDefaultHashFunctions = 3;
+  static const int kMinNumTries = 128;
   // Creates a new hasher with `num_hash_functions` hash functions, using the
   // passed `seed`.
   //
@@ -76,7 +77,7 @@ class CuckooHasher {
   // Returns INVALID_ARGUMENT if `num_buckets` is not  positive or
   // `inputs.size()` is larger than `num_buckets`.
   // Returns INTERNAL if insertion fails after trying to insert an element
-  // `inputs.size()` times.
+  // max(`inputs.size()`, kMinNumTries) times.
   template <typename T>
   mpc_utils::StatusOr<std::vector<int64_t>> HashCuckoo(
       absl::Span<const T> inputs, int64_t num_buckets);
@@ -198,7 +199,9 @@ mpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo(
   }
   std::vector<int64_t> buckets(num_buckets, -1);
   std::vector<int> next_hash_function(num_buckets, 0);
-  int64_t num_tries = inputs.size();
+  // Use a minimum number of tries, since evictions on small inputs frequently
+  // need more steps than there are inputs.
+  int64_t num_tries = std::max<int64_t>(inputs.size(), kMinNumTries);
 
   // Hash all elements.
   ASSIGN_OR_RETURN(auto hashes, Hash(inputs, num_buckets));
@@ -216,6 +219,8 @@ mpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo(
       if (buckets[index] == -1) {
         // Bucket empty -> simply insert.
         buckets[index] = current_element;
+        next_hash_function[index] =
+            (current_hash_function + 1) % num_hash_functions_;
         break;
       } else {
         // Bucket full -> evict element and increment hash function counter.
-- 
2.43.0


From 63463110830e996dbb66529ea1d6421c76dd0514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 13/21] fix: SPFSS value provider sent its shares of empty
 vectors in the clear

---
 distributed_vector_ole/spfss_known_index.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/distributed_vector_ole/spfss_known_index.h b/distributed_vector_ole/spfss_known_index.h
index 5765c66..bda267e 100644
--- a/distributed_vector_ole/spfss_known_index.h
+++ b/distributed_vector_ole/spfss_known_index.h
@@ -118,6 +118,11 @@ mpc_utils::Status SPFSSKnownIndex::RunValueProviderBatched(
     context.restore();
 #pragma omp for schedule(guided)
     for (int j = 0; j < len; j++) {
+      if (outputs[j].empty()) {
+        // There is no leaf to mask the share with, and the other party doesn't
+        // need it.
+        sums_data[j] = T(0);
+      }
       for (int64_t i = 0; i < static_cast<int64_t>(outputs[j].size()); ++i) {
         sums_data[j] += outputs[j][i];
         outputs[j][i] = -outputs[j][i];
-- 
2.43.0


From 4573ef3ba4106a3efa98211e06dfa8700abe0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 14/21] fix: MPFSS aborted on a correlation of the wrong size

---
 distributed_vector_ole/mpfss_known_indices.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index 6fcf52f..33380ce 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -145,6 +145,10 @@ mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE(
   }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y_len));
   int num_buckets = buckets_.size();
+  if (static_cast<int>(w.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`w` must have size NumBuckets(`y_len`)");
+  }
 
   // Receive masked and permuted y from other party and compute our share of xy
   // as (u+y)x-w.
@@ -203,6 +207,11 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
   }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));
   int num_buckets = buckets_.size();
+  if (static_cast<int>(u.size()) != num_buckets ||
+      static_cast<int>(v.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`u` and `v` must have size NumBuckets(`y.size()`)");
+  }
   ASSIGN_OR_RETURN(auto hashed_inputs,
                    hasher_->HashCuckoo(indices, num_buckets));
 
-- 
2.43.0


From bccf368148c934c0a446fce19df2c14675893035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 15/21] fix: VOLE runs with a negative size aborted after
 precomputation

---
 distributed_vector_ole/distributed_vector_ole.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index c1bc688..895283d 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -537,6 +537,9 @@ DistributedVectorOLE<T>::GetReceiverCached(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::SenderResult>
 DistributedVectorOLE<T>::RunSender(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!sender_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeSender(size));
@@ -585,6 +588,9 @@ DistributedVectorOLE<T>::RunSender(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::ReceiverResult>
 DistributedVectorOLE<T>::RunReceiver(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!receiver_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeReceiver(size));
-- 
2.43.0


From b2af3747e3884bc25b52f17f3eed2f16278041b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 16/21] fix: GGMTree::Create threw for a negative arity

---
 distributed_vector_ole/ggm_tree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.h b/distributed_vector_ole/ggm_tree.h
index 288b263..ba22af4 100644
--- a/distributed_vector_ole/ggm_tree.h
+++ b/distributed_vector_ole/ggm_tree.h
@@ -40,6 +40,7 @@
 
 #include "absl/numeric/int128.h"
 #include "absl/types/span.h"
+#include "mpc_utils/canonical_errors.h"
 #include "mpc_utils/statusor.h"
 #include "openssl/aes.h"
 #include "openssl/rand.h"
@@ -60,6 +61,9 @@ class GGMTree {
   // Constructs a GGMTree from a single seed.
   static mpc_utils::StatusOr<std::unique_ptr<GGMTree>> Create(
       int arity, int64_t num_leaves, Block seed) {
+    if (arity < 2) {
+      return mpc_utils::InvalidArgumentError("arity must be at least 2");
+    }
     std::vector<Block> keys(arity);
     for (int i = 0; i < arity; i++) {
       RAND_bytes(reinterpret_cast<uint8_t *>(&keys[i]), kBlockSize);
-- 
2.43.0


From f714c3924c406b175b1ccc04cc58c67ccad2e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 17/21] fix: huge vector OLE batch sizes overflowed and
 selected too small LPN parameters

---
 distributed_vector_ole/distributed_vector_ole.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 895283d..3c41f32 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -240,6 +240,11 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // Larger batches are never used (see below). Limiting the batch size here
+  // makes sure that adding seed sizes to it does not overflow.
+  batch_size =
+      std::min(batch_size,
+               static_cast<int64_t>(VOLEParameters::output_size.back()));
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seed using Gilboa multiplication.
@@ -303,6 +308,11 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // Larger batches are never used (see below). Limiting the batch size here
+  // makes sure that adding seed sizes to it does not overflow.
+  batch_size =
+      std::min(batch_size,
+               static_cast<int64_t>(VOLEParameters::output_size.back()));
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seeds using Gilboa multiplication.
-- 
2.43.0


From ec6b94598069a486262fb7dc263d4f05fd8d7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 18/21] fix: VOLE runs after a failed precomputation used its
 leftovers

If a precomputation failed after an earlier one had succeeded (for example
because the modulus does not allow for the larger batch), the next run expanded
the half-initialised seeds with an all-zero or mismatched code generator.
---
 distributed_vector_ole/distributed_vector_ole.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 3c41f32..750493c 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -245,6 +245,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   batch_size =
       std::min(batch_size,
                static_cast<int64_t>(VOLEParameters::output_size.back()));
+  // If anything fails below, the previous precomputation is gone.
+  sender_precomputation_done_ = false;
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seed using Gilboa multiplication.
@@ -313,6 +315,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   batch_size =
       std::min(batch_size,
                static_cast<int64_t>(VOLEParameters::output_size.back()));
+  // If anything fails below, the previous precomputation is gone.
+  receiver_precomputation_done_ = false;
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seeds using Gilboa multiplication.
-- 
2.43.0


From 0817a82cb5a25ff6eab2b9234d9ceb67c5bc68aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 19/21] fix: the number of leaves of a batch no longer wraps
 around at 2^31 in the modulus check

The accumulator was an int, so batches of 2^31 to 2^32 leaves were always
rejected for modular types, and larger ones were checked against the total
modulo 2^32.
---
 distributed_vector_ole/all_but_one_random_ot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.h b/distributed_vector_ole/all_but_one_random_ot.h
index 6c10b0d..3951972 100644
--- a/distributed_vector_ole/all_but_one_random_ot.h
+++ b/distributed_vector_ole/all_but_one_random_ot.h
@@ -158,7 +158,7 @@ AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
   int num_trees = static_cast<int>(num_leaves.size());
   // Check the modulus to satisfy statistical security.
   int64_t total_num_leaves =
-      std::accumulate(num_leaves.begin(), num_leaves.end(), 0);
+      std::accumulate(num_leaves.begin(), num_leaves.end(), int64_t{0});
   // Statistical security needed for each leaf to ensure that all leaves are
   // uniform.
   double statistical_security_per_leaf =
-- 
2.43.0


From 16f452d672e3db0ba3b2682006ba364156cedc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:50 +0000
Subject: [PATCH 20/21] fix: lengths of Gilboa products at the value provider
 no longer overflow for 2^31 OTs

The number of transfers was computed with ints.
---
 distributed_vector_ole/scalar_vector_gilboa_product.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/scalar_vector_gilboa_product.h b/distributed_vector_ole/scalar_vector_gilboa_product.h
index 2d90fb5..85d22fa 100644
--- a/distributed_vector_ole/scalar_vector_gilboa_product.h
+++ b/distributed_vector_ole/scalar_vector_gilboa_product.h
@@ -174,7 +174,7 @@ mpc_utils::Status ScalarVectorGilboaProduct::RunVectorProvider(
 template <typename T>
 mpc_utils::Status ScalarVectorGilboaProduct::RunValueProvider(
     T x, absl::Span<T> output) {
-  int y_len = output.size();
+  int64_t y_len = output.size();
   if (ScalarHelper<T>::SizeOf() > 16) {
     return mpc_utils::InvalidArgumentError(
         "Integers may be at most 16 bytes long");
-- 
2.43.0


From a812f0328fa60c31e886da30f1875d04592058a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:50 +0000
Subject: [PATCH 21/21] fix: MPFSS compares the sizes of correlations without
 truncating them to ints

---
 distributed_vector_ole/mpfss_known_indices.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index 33380ce..5a03dbf 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -145,7 +145,7 @@ mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE(
   }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y_len));
   int num_buckets = buckets_.size();
-  if (static_cast<int>(w.size()) != num_buckets) {
+  if (static_cast<int64_t>(w.size()) != num_buckets) {
     return mpc_utils::InvalidArgumentError(
         "`w` must have size NumBuckets(`y_len`)");
   }
@@ -207,8 +207,8 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
   }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));
   int num_buckets = buckets_.size();
-  if (static_cast<int>(u.size()) != num_buckets ||
-      static_cast<int>(v.size()) != num_buckets) {
+  if (static_cast<int64_t>(u.size()) != num_buckets ||
+      static_cast<int64_t>(v.size()) != num_buckets) {
     return mpc_utils::InvalidArgumentError(
         "`u` and `v` must have size NumBuckets(`y.size()`)");
   }
-- 
2.43.0


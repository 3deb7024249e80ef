From f328e13c512570ab8cdac14a54d6a125f9e39f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 01/16] fix: flat_index uses the extent of the dimension it
 just linearised

The running stride was multiplied with strides[d] although the loop walks the
dimensions from the last to the first, so every non-square shape was
linearised with the wrong extents.
---
 src/memory_layout/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory_layout/util.hpp b/src/memory_layout/util.hpp
index d3915b2..1edfc72 100644
--- a/src/memory_layout/util.hpp
+++ b/src/memory_layout/util.hpp
@@ -7,7 +7,7 @@ size_t flat_index(const size_t (&index)[dim], const size_t (&strides)[dim]) {
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
@@ -19,7 +19,7 @@ size_t flat_index(const std::array<size_t, dim> &index,
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
-- 
2.43.0


From 099b9a840b633a1635e3a4e390206ef38fd67ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 02/16] fix: undo_tiling returns the untiled matrix

The function flowed off its end without a return statement (undefined
behaviour), so the result was never delivered to the caller.
---
 src/memory_layout/tile_array.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memory_layout/tile_array.hpp b/src/memory_layout/tile_array.hpp
index a1a8657..8ea555e 100644
--- a/src/memory_layout/tile_array.hpp
+++ b/src/memory_layout/tile_array.hpp
@@ -238,5 +238,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
             });
 
       });
+
+  return untiled;
 }
 }
-- 
2.43.0


From ad1f62b082df59ba9e950a1b8b3e3c71c0692a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 03/16] fix: tile_view, iterate_tiles and undo_tiling work for
 every dimension

The dimension-generic templates copied exactly two tile coordinates and
instantiated tile_view<2>, so 1-d overran the index array and 3-d and above
did not work.
---
 src/memory_layout/tile_array.hpp    | 2 +-
 src/memory_layout/tile_iterator.hpp | 2 +-
 src/memory_layout/tile_view.hpp     | 4 +---
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/memory_layout/tile_array.hpp b/src/memory_layout/tile_array.hpp
index 8ea555e..4af9144 100644
--- a/src/memory_layout/tile_array.hpp
+++ b/src/memory_layout/tile_array.hpp
@@ -214,7 +214,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
     untiled_strides[d] = tiling_info[d].stride;
   }
 
-  memory_layout::iterate_tiles<2>(
+  memory_layout::iterate_tiles<dim>(
       tiled, tiling_info, [&untiled, &untiled_strides, &tiling_info, &min, &max,
                            &strides](auto view) {
         std::array<size_t, dim> &tile_index = view.get_tile_index();
diff --git a/src/memory_layout/tile_iterator.hpp b/src/memory_layout/tile_iterator.hpp
index 2b485bc..04115c0 100644
--- a/src/memory_layout/tile_iterator.hpp
+++ b/src/memory_layout/tile_iterator.hpp
@@ -20,7 +20,7 @@ iterate_tile_dim(std::vector<T, U> &tiled,
                  const std::vector<tiling_info_dim> &tiling_info,
                  size_t (&tile_index)[dim], F f) {
 
-  memory_layout::tile_view<2, T, U> v(tiled, tile_index, tiling_info);
+  memory_layout::tile_view<dim, T, U> v(tiled, tile_index, tiling_info);
   f(std::move(v));
 }
 
diff --git a/src/memory_layout/tile_view.hpp b/src/memory_layout/tile_view.hpp
index ecbe28b..a993e5a 100644
--- a/src/memory_layout/tile_view.hpp
+++ b/src/memory_layout/tile_view.hpp
@@ -22,10 +22,8 @@ public:
             std::vector<tiling_info_dim> tiling_info)
       : tiled(tiled), tiling_info(tiling_info) {
 
-    this->tile_index[0] = tile_index[0];
-    this->tile_index[1] = tile_index[1];
-
     for (size_t d = 0; d < dim; d++) {
+      this->tile_index[d] = tile_index[d];
       this->tiles_dir[d] = tiling_info[d].stride / tiling_info[d].tile_size_dir;
     }
 
-- 
2.43.0


From 546bf5bdba539ab7350770c9745e686afaa9ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 04/16] fix: exceptions keep the text returned by what() alive

what() returned a pointer into a temporary string that was destroyed before
the caller could read it.
---
 src/memory_layout/memory_layout_exception.hpp | 4 ++--
 src/util/matrix_multiplication_exception.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/memory_layout_exception.hpp b/src/memory_layout/memory_layout_exception.hpp
index b127054..755affe 100644
--- a/src/memory_layout/memory_layout_exception.hpp
+++ b/src/memory_layout/memory_layout_exception.hpp
@@ -7,11 +7,11 @@ class memory_layout_exception: public std::exception {
 private:
   std::string message;
 public:
-  memory_layout_exception(const std::string &message): message(message) {
+  memory_layout_exception(const std::string &message): message("memory_layout_exception: " + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("memory_layout_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
diff --git a/src/util/matrix_multiplication_exception.hpp b/src/util/matrix_multiplication_exception.hpp
index b58f3aa..5b8ae4f 100644
--- a/src/util/matrix_multiplication_exception.hpp
+++ b/src/util/matrix_multiplication_exception.hpp
@@ -7,11 +7,11 @@ class matrix_multiplication_exception: public std::exception {
 private:
   std::string message;
 public:
-  matrix_multiplication_exception(const std::string &message): message(message) {
+  matrix_multiplication_exception(const std::string &message): message("matrix_multiplication_exception: " + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("matrix_multiplication_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
-- 
2.43.0


From f531a7beccccea8c895d533291ee462a7a8e077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 05/16] fix: multBlocked4 sums over every k

The body accumulates a single k per iteration, but the loop advanced by 4, so
three quarters of every dot product were dropped (the README lists blocked4 as
buggy).
---
 otherExperiments/multBlocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multBlocked.cpp b/otherExperiments/multBlocked.cpp
index c87b701..0dca857 100644
--- a/otherExperiments/multBlocked.cpp
+++ b/otherExperiments/multBlocked.cpp
@@ -84,7 +84,7 @@ void multBlocked4(double *A, double *B, double *C, const uint32_t n) {
       //#pragma clang loop vectorize(enable)
 
       //REMARK: loop step != 1, loopd doesn't vectorize (gcc)
-      for (size_t k = 0; k < n; k += 4) {
+      for (size_t k = 0; k < n; k += 1) {
 	//REMARK: does vectorize with clang (and with gcc (but unclear output with gcc))
 	// result1 += A[i * n + k] * B[j * n + k];
 	// result2 += A[(i + 1) * n + k] * B[j * n + k];
-- 
2.43.0


From d826b0edce2ee6162062b980be3a44a8f452c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 06/16] fix: kernel_transposed_blocked clips the last input
 chunk

When block_input does not divide N the last chunk read past the end of the
matrix rows (and of the matrix), adding foreign products to the result.
---
 src/reference_kernels/kernel.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reference_kernels/kernel.hpp b/src/reference_kernels/kernel.hpp
index 53fe568..e323f2b 100644
--- a/src/reference_kernels/kernel.hpp
+++ b/src/reference_kernels/kernel.hpp
@@ -3,6 +3,7 @@
 //#include "aligned_allocator.hpp"
 #include <boost/align/aligned_allocator.hpp>
 
+#include <algorithm>
 #include <vector>
 #include <iostream>
 
@@ -74,16 +75,17 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
   // recursive parallelization
   for (size_t k_block = 0; k_block < N; k_block += block_input) {
 
-    //        size_t k_max = std::min(k_block + block_input, N);
+    // the last chunk is shorter if block_input does not divide N
+    const size_t k_max = std::min(block_input, N - k_block);
 
     for (size_t i = 0; i < block_result; i++) {
-      for (size_t k = 0; k < block_input; k++) {
+      for (size_t k = 0; k < k_max; k++) {
         A_small[i * block_input + k] = A[(x + i) * N + k_block + k];
       }
     }
 
     for (size_t j = 0; j < block_result; j++) {
-      for (size_t k = 0; k < block_input; k++) {
+      for (size_t k = 0; k < k_max; k++) {
         B_small[j * block_input + k] = B[(y + j) * N + k_block + k];
       }
     }
@@ -108,7 +110,7 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
         T result_component_3_0 = 0.0;
         T result_component_3_1 = 0.0;
 
-        for (size_t k = 0; k < block_input; k++) {
+        for (size_t k = 0; k < k_max; k++) {
           result_component_0_0 += A_small[(i + 0) * block_input + k] *
                                   B_small[(j + 0) * block_input + k];
           result_component_0_1 += A_small[(i + 0) * block_input + k] *
-- 
2.43.0


From 7c379db4df95867ae02f67ecc028ba1c31ee0d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 07/16] fix: multiplier only uses the blocked kernel for
 multiples of 4

The blocked kernel computes four rows and two columns at a time; with a
submatrix size such as 6 it wrote beyond the result.
---
 src/variants/components/multiplier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variants/components/multiplier.cpp b/src/variants/components/multiplier.cpp
index 22acdd3..004dcd6 100644
--- a/src/variants/components/multiplier.cpp
+++ b/src/variants/components/multiplier.cpp
@@ -23,8 +23,8 @@ std::vector<double> multiplier::calculate_submatrix(std::uint64_t x,
   if (!transposed) {
     kernel::kernel(A, B, C, N, x, y, block_result);
   } else {
-    // no blocking?
-    if (block_input == 0 || block_result < 4) {
+    // no blocking? (the blocked kernel computes 4 rows at a time)
+    if (block_input == 0 || block_result % 4 != 0) {
       kernel::kernel_transposed(A, B, C, N, x, y, block_result);
     } else {
       kernel::kernel_transposed_blocked(A, B, C, N, x, y, block_result,
-- 
2.43.0


From 24d9a5f3fdf1b98f1d4c972574eaa771adc6a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 08/16] fix: distribute_recursively keeps odd blocks whole

Splitting an odd block into four blocks of half its (rounded down) size lost
its last row and column.
---
 src/variants/components/recursive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index a0c132b..8ea4d9f 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -43,7 +43,8 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
               << " blockSize: " << blockSize << std::endl
               << hpx::flush;
   }
-  if (blockSize <= block_result) {
+  // an odd block cannot be split into four equally sized blocks
+  if (blockSize <= block_result || blockSize % 2 != 0) {
     uint32_t comp_locality = hpx::get_locality_id();
     hpx::components::client<multiplier> multiplier;
     multiplier.connect_to("/multiplier#" + std::to_string(comp_locality));
-- 
2.43.0


From be8ec384853914a17f368a24a7030c7d911288e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 09/16] fix: create_schedule never splits odd work packages

Four packages of half the (rounded down) size do not cover an odd package:
its last row and column were never computed.
---
 src/variants/static_improved.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index 0647398..89ebf95 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -132,7 +132,8 @@ static_improved::create_schedule(size_t num_localities) {
       uint64_t smallest_work_difference = max_work - min_work;
       for (size_t j = 0; j < all_work[max_index].size(); j++) {
         matrix_multiply_work &w = all_work[max_index][j];
-        if (w.N <= this->min_work_size) {
+        // an odd package cannot be split into four equally sized packages
+        if (w.N <= this->min_work_size || w.N % 2 != 0) {
           continue;
         }
         // split work package between both locations
-- 
2.43.0


From 583835b73f736643d8dc8b730bd6e9ec94f949ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:13 +0000
Subject: [PATCH 10/16] fix: multRegister and multGPUASM use aligned AVX
 loads/stores on local buffers, so align the buffers to 32 bytes

The stack arrays only had the alignment of double; the aligned 32 byte accesses fault
(segmentation fault for n = 256, also with the flags of the Makefile).
---
 otherExperiments/multGPUASM.cpp   | 4 ++--
 otherExperiments/multRegister.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 362cc95..1c818d0 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -31,14 +31,14 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 
       for (size_t kBlock = 0; kBlock < n; kBlock += KCHUNK) {
 
-	double AA[BLOCKSIZE * KCHUNK];
+	alignas(32) double AA[BLOCKSIZE * KCHUNK];
 	for (size_t ii = 0; ii < BLOCKSIZE; ii++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    AA[ii * KCHUNK + k] = A[(i +  ii) * n + kBlock + k];
 	  }
 	}
 
-	double BB[BLOCKSIZE * KCHUNK];
+	alignas(32) double BB[BLOCKSIZE * KCHUNK];
 	for (size_t jj = 0; jj < BLOCKSIZE; jj++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    BB[jj * KCHUNK + k] = B[(j + jj) * n + kBlock + k];
diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index e06aa57..854bf06 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -18,7 +18,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
   for (size_t i = 0; i < n; i += BLOCKSIZEX) {
     for (size_t j = 0; j < n; j += BLOCKSIZEY) {
 
-      double result[BLOCKSIZEX * BLOCKSIZEY];
+      alignas(32) double result[BLOCKSIZEX * BLOCKSIZEY];
 
       for (size_t ii = 0; ii < BLOCKSIZEX; ii++) {
       	for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
@@ -38,7 +38,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 	  }
 	}
 
-	double BB[BLOCKSIZEY * KCHUNK];
+	alignas(32) double BB[BLOCKSIZEY * KCHUNK];
 	for (size_t k = 0; k < KCHUNK; k++) {
 	  for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
 	    BB[k * BLOCKSIZEY + jj] = B[(kBlock + k) * n + (j + jj)];
-- 
2.43.0


From 8a3bc7122641a4c8a6eff55d78edf9dfd8cb094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:17 +0000
Subject: [PATCH 11/16] fix: multRegister without FMA accumulates into the
 register it loaded

---
 otherExperiments/multRegister.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index 854bf06..223c4cf 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -77,7 +77,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 		  resultReg[iii * JJ_BLOCKSIZE + jjj] = _mm256_fmadd_pd(Aregister1, Bregister1, resultReg[iii * JJ_BLOCKSIZE + jjj]);
 #else
 		  __m256d temp = _mm256_mul_pd(Aregister1, Bregister1);
-		  resultReg[jjj * JJ_BLOCKSIZE + iii] = _mm256_add_pd(temp, resultReg[jjj * JJ_BLOCKSIZE + iii]);		  
+		  resultReg[iii * JJ_BLOCKSIZE + jjj] = _mm256_add_pd(temp, resultReg[iii * JJ_BLOCKSIZE + jjj]);		  
 #endif
 		}	      
 
-- 
2.43.0


From 62093443fb4b64b05e3d3b912f4d773dfe90ce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:17 +0000
Subject: [PATCH 12/16] fix: multGPUASM without FMA computes the product
 instead of zeros

---
 otherExperiments/multGPUASM.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 1c818d0..fcdc481 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -111,6 +111,26 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 	      resultChunk42 = _mm256_fmadd_pd(AAtemp4, BBtemp2, resultChunk42);
 	      resultChunk43 = _mm256_fmadd_pd(AAtemp4, BBtemp3, resultChunk43);
 	      resultChunk44 = _mm256_fmadd_pd(AAtemp4, BBtemp4, resultChunk44);
+	      #else
+	      resultChunk11 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp1), resultChunk11);
+	      resultChunk12 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp2), resultChunk12);
+	      resultChunk13 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp3), resultChunk13);
+	      resultChunk14 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp4), resultChunk14);
+
+	      resultChunk21 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp1), resultChunk21);
+	      resultChunk22 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp2), resultChunk22);
+	      resultChunk23 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp3), resultChunk23);
+	      resultChunk24 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp4), resultChunk24);
+
+	      resultChunk31 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp1), resultChunk31);
+	      resultChunk32 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp2), resultChunk32);
+	      resultChunk33 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp3), resultChunk33);
+	      resultChunk34 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp4), resultChunk34);
+
+	      resultChunk41 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp1), resultChunk41);
+	      resultChunk42 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp2), resultChunk42);
+	      resultChunk43 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp3), resultChunk43);
+	      resultChunk44 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp4), resultChunk44);
 	      #endif
 
 	      // resultChunk21 = _mm256_fmadd_pd(AAtemp2, BBtemp1, resultChunk21);
-- 
2.43.0


From 947a1de33616160958c73105608435b75a727f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:35 +0000
Subject: [PATCH 13/16] fix: kernel_tiled honours the transposed argument

The constructor accepts "transposed" (the application passes its default, true) and ignored it: with a transposed B the
result was A*B^T's mirror image, not the product.
---
 src/reference_kernels/kernel_tiled.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reference_kernels/kernel_tiled.cpp b/src/reference_kernels/kernel_tiled.cpp
index 160ecc8..137f934 100644
--- a/src/reference_kernels/kernel_tiled.cpp
+++ b/src/reference_kernels/kernel_tiled.cpp
@@ -106,7 +106,8 @@ kernel_tiled::kernel_tiled(size_t N, std::vector<double> &A_org,
   std::fill(B.begin(), B.end(), 0.0);
   for (size_t y = 0; y < N_org; y++) {
     for (size_t k = 0; k < N_org; k++) {
-      B.at(k * Y_size + y) = B_org.at(k * N + y);
+      B.at(k * Y_size + y) =
+          transposed ? B_org.at(y * N + k) : B_org.at(k * N + y);
     }
   }
 }
-- 
2.43.0


From 51bff03e0904072ec65c0460f43164d7f14949c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:46 +0000
Subject: [PATCH 14/16] fix: semi pads its matrices to whole kernel steps

The kernel computes 4 rows and 2 columns at a time and block_input products per step: for other sizes (N=2 in the tests) it
read and wrote past the end of the matrices.
---
 src/variants/semi.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/variants/semi.cpp b/src/variants/semi.cpp
index 1125f1a..78e9bb9 100644
--- a/src/variants/semi.cpp
+++ b/src/variants/semi.cpp
@@ -2,6 +2,8 @@
 
 #include "index_iterator.hpp"
 
+#include <algorithm>
+
 #include "hpx/parallel/algorithms/for_each.hpp"
 #include "hpx/parallel/algorithms/for_loop.hpp"
 #include "hpx/parallel/execution_policy.hpp"
@@ -28,7 +30,9 @@ std::vector<double> semi::matrix_multiply() {
   // N_fixed = N + 4 -> bit better, for unknown reasons,
   // Same for N + 8, little bit better for N + 16, N + 32 even better, N + 64
   // same performance
-  size_t N_fixed = N;
+  // whole steps of the kernel below, the padding stays zero
+  size_t N_fixed = std::max((N + 3) / 4 * 4,
+                            (N + block_input - 1) / block_input * block_input);
 
   std::vector<double> A_conflict(N_fixed * N_fixed);
   std::vector<double> B_conflict(N_fixed * N_fixed);
-- 
2.43.0


From d90e865ed55160b0029b57f150749bd7b582cb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:34 +0000
Subject: [PATCH 15/16] fix: combined no longer writes a shared flag from its
 parallel block calls

---
 src/variants/combined.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 406cc65..4e3791b 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -184,11 +184,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
     std::chrono::high_resolution_clock::time_point start =
         std::chrono::high_resolution_clock::now();
 
-    bool first = true;
-
     iterate_indices<3>(
-        policy, min, max, [&first, &C_padded, &A_trans, &B_padded,
-                           this](size_t l1_x, size_t l1_y, size_t l1_k) {
+        policy, min, max, [&C_padded, &A_trans, &B_padded, this](size_t l1_x, size_t l1_y, size_t l1_k) {
           size_t l1_block_x = l1_x / L1_X;
           size_t l1_block_y = l1_y / L1_Y;
           size_t C_base_index =
@@ -319,10 +316,6 @@ std::vector<double> combined::matrix_multiply(double &duration) {
             }
           }
 
-          if (first) {
-            first = false;
-          }
-
         });
     std::chrono::high_resolution_clock::time_point end =
         std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 3c51a51a608355e0e6ca49c7d3e65ebb87d1f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:34 +0000
Subject: [PATCH 16/16] fix: combined computes the product anew in every
 repetition

---
 src/variants/combined.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 4e3791b..4058b55 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -174,6 +174,9 @@ std::vector<double> combined::matrix_multiply(double &duration) {
 
   for (size_t rep = 0; rep < repetitions; rep++) {
 
+    // reset result before every repetition
+    std::fill(C_padded.begin(), C_padded.end(), 0.0);
+
     blocking_pseudo_execution_policy<size_t> policy(3);
     // specify with ascending cache level
     policy.set_final_steps({L1_X, L1_Y, L1_K_STEP});
-- 
2.43.0


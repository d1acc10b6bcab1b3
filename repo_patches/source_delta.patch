From b7ffd209ecf62f44fef79317c1dd9544e3d6265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 01/36] fix: add: pass arguments of scal_inplace::submit in the
 right order when alpha is zero

---
 src/starpu/add.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/add.cc b/src/starpu/add.cc
index 7e11b66..67326ed 100644
--- a/src/starpu/add.cc
+++ b/src/starpu/add.cc
@@ -130,7 +130,7 @@ void submit(Index nelems, T alpha, Handle src, T beta, Handle dst)
     // If beta is non-zero and alpha is zero then reduce to scal_inplace
     if(alpha == zero)
     {
-        scal_inplace::submit<T>(nelems, beta, dst);
+        scal_inplace::submit<T>(beta, nelems, dst);
         return;
     }
     // Access mode for the dst handle
-- 
2.43.0


From a02744a586bf38ed204dfce218bb78a8e7dae004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 02/36] fix: hypot: replace dst by its absolute value when
 alpha is zero and beta is one

---
 src/tensor/hypot.cc | 5 -----
 src/tile/hypot.cc   | 5 -----
 2 files changed, 10 deletions(-)

diff --git a/src/tensor/hypot.cc b/src/tensor/hypot.cc
index 4b656d9..56b5f74 100644
--- a/src/tensor/hypot.cc
+++ b/src/tensor/hypot.cc
@@ -42,11 +42,6 @@ void hypot_async(T alpha, const Tensor<T> &src, T beta, const Tensor<T> &dst)
                     "src.basetile_shape[i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0 && beta == 1.)
-    {
-        return;
-    }
     // Apply per-tile hypot asynchronously as needed
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < src.grid.nelems; ++i)
diff --git a/src/tile/hypot.cc b/src/tile/hypot.cc
index 5f0f237..e9340f5 100644
--- a/src/tile/hypot.cc
+++ b/src/tile/hypot.cc
@@ -37,11 +37,6 @@ void hypot_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst)
             throw std::runtime_error("dst.shape[i] != src.shape[i]");
         }
     }
-    // Do nothing if alpha is zero and beta is one
-    if(alpha == 0.0 && beta == 1.0)
-    {
-        return;
-    }
     // Insert corresponding task
     starpu::hypot::submit<T>(src.nelems, alpha, src, beta, dst);
 }
-- 
2.43.0


From b422dc6f727058fe03e557b963dce49f0b1cbc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 03/36] fix: add_fiber: scale dst by beta also when alpha is
 zero

---
 src/tensor/add_fiber.cc | 4 ++--
 src/tile/add_fiber.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 1a69f7f..2cc42a3 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -71,8 +71,8 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
                     "dst.basetile_shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index a943179..22fe557 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -61,8 +61,8 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
                     "dst.shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
-- 
2.43.0


From e16d067bbd9b2d6e902a9223e82104d3ec27ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 04/36] fix: tensor addcdiv accepted operands tiled differently
 (out-of-bounds tiles)

---
 src/tensor/addcdiv.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tensor/addcdiv.cc b/src/tensor/addcdiv.cc
index 6256e7d..4ecb7b9 100644
--- a/src/tensor/addcdiv.cc
+++ b/src/tensor/addcdiv.cc
@@ -25,14 +25,22 @@ template<typename T>
 void addcdiv_async(T val, T eps, const Tensor<T> &nom, const Tensor<T> &denom,
                    const Tensor<T> &src)
 {
-    if (nom.matrix_shape != denom.matrix_shape) {
+    if (nom.shape != denom.shape) {
         throw std::runtime_error("Nominator shape is not equal to denominator shape");
     }
 
-    if (src.matrix_shape != nom.matrix_shape) {
+    if (src.shape != nom.shape) {
         throw std::runtime_error("Nominator shape is not equal to source shape");
     }
 
+    if (nom.basetile_shape != denom.basetile_shape) {
+        throw std::runtime_error("Nominator base tile is not equal to denominator base tile");
+    }
+
+    if (src.basetile_shape != nom.basetile_shape) {
+        throw std::runtime_error("Nominator base tile is not equal to source base tile");
+    }
+
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
-- 
2.43.0


From ed71446ba9c8f0c4fbb0a756b614cc9dcbb9f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 05/36] fix: tile sqrt did not compare shapes of its operands
 (out-of-bounds access)

---
 src/tile/sqrt.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tile/sqrt.cc b/src/tile/sqrt.cc
index ee2713e..b8a5a6a 100644
--- a/src/tile/sqrt.cc
+++ b/src/tile/sqrt.cc
@@ -27,7 +27,12 @@ namespace tile
 template<typename T>
 void sqrt_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::sqrt::submit<T>(src.nelems, src, dst);
 }
 
-- 
2.43.0


From f82f0a9f2ff74feba81cdb0504f46b07ef47ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 06/36] fix: tile gelutanh did not compare shapes of its
 operands (out-of-bounds access)

---
 src/tile/gelutanh.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tile/gelutanh.cc b/src/tile/gelutanh.cc
index cb64aaa..20ae339 100644
--- a/src/tile/gelutanh.cc
+++ b/src/tile/gelutanh.cc
@@ -26,7 +26,12 @@ namespace tile
 template<typename T>
 void gelutanh_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::gelutanh::submit<T>(src.nelems, src, dst);
 }
 
-- 
2.43.0


From 95d2ab2779a8d92f507f540660a2fd6bacd0934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 07/36] fix: tile mask_scalar did not check its mask against
 the data (out-of-bounds access)

---
 src/tile/mask_scalar.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/tile/mask_scalar.cc b/src/tile/mask_scalar.cc
index a67a41f..86168ee 100644
--- a/src/tile/mask_scalar.cc
+++ b/src/tile/mask_scalar.cc
@@ -27,7 +27,24 @@ namespace tile
 template<typename T>
 void mask_scalar_async(const Tile<bool_t> &mask, T val, const Tile<T> &A)
 {
-    // Submit task without any arguments checked
+    // Check dimensions
+    if(A.ndim == 0)
+    {
+        throw std::runtime_error("A.ndim == 0");
+    }
+    if(mask.ndim != A.ndim-1)
+    {
+        throw std::runtime_error("mask.ndim != A.ndim-1");
+    }
+    // Check shapes
+    for(Index i = 0; i < mask.ndim; ++i)
+    {
+        if(mask.shape[i] != A.shape[i])
+        {
+            throw std::runtime_error("mask.shape[i] != A.shape[i]");
+        }
+    }
+    // Submit task
     starpu::mask_scalar::submit<T>(A.matrix_shape[A.ndim-1][0],
             A.shape[A.ndim-1], mask, val, A);
 }
-- 
2.43.0


From 131310144bc7b1b80671ed0a81b8d87e82b9c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 08/36] fix: tensor sumprod_slice accepted sources tiled
 differently

---
 src/tensor/sumprod_slice.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tensor/sumprod_slice.cc b/src/tensor/sumprod_slice.cc
index e1fa193..4a11ed3 100644
--- a/src/tensor/sumprod_slice.cc
+++ b/src/tensor/sumprod_slice.cc
@@ -30,6 +30,11 @@ void sumprod_slice_async(T alpha, const Tensor<T> &src1, const Tensor<T> &src2,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != "
+                "src2.basetile_shape");
+    }
     // Check dimensions
     if(src1.ndim != dst.ndim+1)
     {
-- 
2.43.0


From 7c21014b3b327f20384058e6be7ac740774c787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 09/36] fix: tensor sumprod_fiber accepted sources tiled
 differently

---
 src/tensor/sumprod_fiber.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tensor/sumprod_fiber.cc b/src/tensor/sumprod_fiber.cc
index eab79bf..40900ea 100644
--- a/src/tensor/sumprod_fiber.cc
+++ b/src/tensor/sumprod_fiber.cc
@@ -30,6 +30,11 @@ void sumprod_fiber_async(T alpha, const Tensor<T> &src1,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != "
+                "src2.basetile_shape");
+    }
     // Check dimensions
     if(dst.ndim != 1)
     {
-- 
2.43.0


From 2d20d21d6f6bcb2545886a2ff75e70a5bb44b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 10/36] fix: tensor embedding did not check axis, the dimension
 before it and the second dimension of vocab tiles

---
 src/tensor/embedding.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tensor/embedding.cc b/src/tensor/embedding.cc
index 68b1d72..cc4222d 100644
--- a/src/tensor/embedding.cc
+++ b/src/tensor/embedding.cc
@@ -34,8 +34,17 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -68,6 +77,10 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    if(vocab.shape[1] != vocab.basetile_shape[1])
+    {
+        throw std::runtime_error("vocab.shape[1] != vocab.basetile_shape[1]");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < embed.grid.nelems; ++i)
-- 
2.43.0


From 934dac12f544c53e75024ac063e17b6ca79e28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 11/36] fix: tensor embedding_backward did not check axis, the
 dimension before it and the second dimension of vocab tiles

---
 src/tensor/embedding_backward.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tensor/embedding_backward.cc b/src/tensor/embedding_backward.cc
index 16bf469..bb04ead 100644
--- a/src/tensor/embedding_backward.cc
+++ b/src/tensor/embedding_backward.cc
@@ -33,8 +33,17 @@ void embedding_backward_async(const Tensor<Index> &index,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
@@ -67,6 +76,10 @@ void embedding_backward_async(const Tensor<Index> &index,
         throw std::runtime_error("embed.basetile_shape[axis] % "
                 "vocab.basetile_shape[0] != 0");
     }
+    if(vocab.shape[1] != vocab.basetile_shape[1])
+    {
+        throw std::runtime_error("vocab.shape[1] != vocab.basetile_shape[1]");
+    }
     // Actual calculations
     int mpi_rank = starpu_mpi_world_rank();
     // Cycle over embedding tiles
-- 
2.43.0


From f4e9557dbe637e5e3e5be2ac12bfa01533e0deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 12/36] fix: tensor adam_step accepted operands tiled
 differently (out-of-bounds access)

---
 src/tensor/adam_step.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tensor/adam_step.cc b/src/tensor/adam_step.cc
index d1d3e7b..914ccea 100644
--- a/src/tensor/adam_step.cc
+++ b/src/tensor/adam_step.cc
@@ -26,20 +26,32 @@ void adam_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_d
                     const Tensor<T> &grad, const Tensor<T> &first_moment, const Tensor<T> &second_moment,
                     const Tensor<T> &p)
 {
-    if (p.matrix_shape != grad.matrix_shape)
+    if (p.shape != grad.shape)
     {
         throw std::runtime_error("Parameter shape is not equal to gradient shape");
     }
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("Parameter base tile is not equal to gradient base tile");
+    }
 
-    if (p.matrix_shape != first_moment.matrix_shape)
+    if (p.shape != first_moment.shape)
     {
         throw std::runtime_error("Parameter shape is not equal to first_moment shape");
     }
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter base tile is not equal to first_moment base tile");
+    }
 
-    if (p.matrix_shape != second_moment.matrix_shape)
+    if (p.shape != second_moment.shape)
     {
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter base tile is not equal to second_moment base tile");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
-- 
2.43.0


From 68a86a40116b1aaa0e28f7b43bf99b0c3a3e49bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 13/36] fix: tensor adamw_step accepted operands tiled
 differently (out-of-bounds access)

---
 src/tensor/adamw_step.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tensor/adamw_step.cc b/src/tensor/adamw_step.cc
index 1f51b84..94a2686 100644
--- a/src/tensor/adamw_step.cc
+++ b/src/tensor/adamw_step.cc
@@ -27,20 +27,32 @@ void adamw_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_
                     const Tensor<T> &grad, const Tensor<T> &first_moment, const Tensor<T> &second_moment,
                     const Tensor<T> &p)
 {
-    if (p.matrix_shape != grad.matrix_shape)
+    if (p.shape != grad.shape)
     {
         throw std::runtime_error("Parameter shape is not equal to gradient shape");
     }
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("Parameter base tile is not equal to gradient base tile");
+    }
 
-    if (p.matrix_shape != first_moment.matrix_shape)
+    if (p.shape != first_moment.shape)
     {
         throw std::runtime_error("Parameter shape is not equal to first_moment shape");
     }
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter base tile is not equal to first_moment base tile");
+    }
 
-    if (p.matrix_shape != second_moment.matrix_shape)
+    if (p.shape != second_moment.shape)
     {
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter base tile is not equal to second_moment base tile");
+    }
 
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
-- 
2.43.0


From 59257d60c37a301431d8fa9db90cbb993f162dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 14/36] fix: normalize kernel produced NaN for a slice of zeros

---
 src/kernel/normalize/cpu.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernel/normalize/cpu.cc b/src/kernel/normalize/cpu.cc
index ba64069..a30d933 100644
--- a/src/kernel/normalize/cpu.cc
+++ b/src/kernel/normalize/cpu.cc
@@ -73,8 +73,9 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
                 T tmp = std::fabs(mean) / rms;
-                // Check if rounding errors broke theoretical invariant
-                if(tmp >= one)
+                // Check if rounding errors broke theoretical invariant. Slice of
+                // zeros has no deviation and tmp is not a number
+                if(rms == 0 || tmp >= one)
                 {
                     dev = reps;
                 }
-- 
2.43.0


From 9198b58b9260bbe189594101f35d54293dd295bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 15/36] fix: tensor flash_maxsumexp did not check its operands
 (out-of-bounds access)

---
 src/tensor/flash_maxsumexp.cc | 92 +++++++++++++++--------------------
 1 file changed, 40 insertions(+), 52 deletions(-)

diff --git a/src/tensor/flash_maxsumexp.cc b/src/tensor/flash_maxsumexp.cc
index 152d17d..5ba0914 100644
--- a/src/tensor/flash_maxsumexp.cc
+++ b/src/tensor/flash_maxsumexp.cc
@@ -16,6 +16,8 @@
 #include "nntile/starpu/flash_maxsumexp.hh"
 #include <cmath>
 #include <limits>
+#include <stdexcept>
+#include <string>
 
 namespace nntile
 {
@@ -28,58 +30,44 @@ void flash_maxsumexp_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<bool_t> &mask, const Tensor<T> &maxsumexp,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check shapes and base tiles of all operands
+    auto check = [](const TensorTraits &x, const std::vector<Index> &shape,
+            const std::vector<Index> &basetile, const char *name)
+    {
+        if(x.shape != shape)
+        {
+            throw std::runtime_error(std::string("Wrong shape of ") + name);
+        }
+        if(x.basetile_shape != basetile)
+        {
+            throw std::runtime_error(std::string("Wrong base tile of ")
+                    + name);
+        }
+    };
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Head dimension is not tiled
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    // All tiles must be of the same size
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    const std::vector<Index> &sh = Q.shape, &bt = Q.basetile_shape;
+    check(K, sh, bt, "K");
+    check(mask, {sh[1], sh[1]}, {bt[1], bt[1]}, "mask");
+    check(maxsumexp, {2, sh[1], sh[2], sh[3]},
+            {2, bt[1], bt[2], bt[3]}, "maxsumexp");
+    check(tmp, {sh[1], sh[1], sh[2], sh[3]},
+            {bt[1], bt[1], bt[2], bt[3]}, "tmp");
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
-- 
2.43.0


From 984243fb62e792fd417c17078d383ed3bd074974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 16/36] fix: tensor flash_softmax_gemm did not check its
 operands (out-of-bounds access)

---
 src/tensor/flash_softmax_gemm.cc | 94 ++++++++++++++------------------
 1 file changed, 42 insertions(+), 52 deletions(-)

diff --git a/src/tensor/flash_softmax_gemm.cc b/src/tensor/flash_softmax_gemm.cc
index 2dd4782..5b95794 100644
--- a/src/tensor/flash_softmax_gemm.cc
+++ b/src/tensor/flash_softmax_gemm.cc
@@ -19,6 +19,8 @@
 #include "nntile/starpu/softmax_inplace.hh"
 #include <cmath>
 #include <limits>
+#include <stdexcept>
+#include <string>
 
 namespace nntile
 {
@@ -31,58 +33,46 @@ void flash_softmax_gemm_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<T> &maxsumexp, const Tensor<T> &dst,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check shapes and base tiles of all operands
+    auto check = [](const TensorTraits &x, const std::vector<Index> &shape,
+            const std::vector<Index> &basetile, const char *name)
+    {
+        if(x.shape != shape)
+        {
+            throw std::runtime_error(std::string("Wrong shape of ") + name);
+        }
+        if(x.basetile_shape != basetile)
+        {
+            throw std::runtime_error(std::string("Wrong base tile of ")
+                    + name);
+        }
+    };
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Head dimension is not tiled
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    // All tiles must be of the same size
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    const std::vector<Index> &sh = Q.shape, &bt = Q.basetile_shape;
+    check(K, sh, bt, "K");
+    check(V, sh, bt, "V");
+    check(mask, {sh[1], sh[1]}, {bt[1], bt[1]}, "mask");
+    check(maxsumexp, {2, sh[1], sh[2], sh[3]},
+            {2, bt[1], bt[2], bt[3]}, "maxsumexp");
+    check(dst, sh, bt, "dst");
+    check(tmp, {sh[1], sh[1], sh[2], sh[3]},
+            {bt[1], bt[1], bt[2], bt[3]}, "tmp");
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
-- 
2.43.0


From dd195ab152b6b3734a0c3f00ac663c81f5060418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 17/36] fix: tensor flash_softmax_gemm_backward did not check
 its operands (out-of-bounds access)

---
 src/tensor/flash_softmax_gemm_backward.cc | 101 +++++++++++-----------
 1 file changed, 49 insertions(+), 52 deletions(-)

diff --git a/src/tensor/flash_softmax_gemm_backward.cc b/src/tensor/flash_softmax_gemm_backward.cc
index b478d6e..95a91c5 100644
--- a/src/tensor/flash_softmax_gemm_backward.cc
+++ b/src/tensor/flash_softmax_gemm_backward.cc
@@ -17,6 +17,8 @@
 #include "nntile/starpu/flash_softmax_gemm_backward_dq_dk.hh"
 #include <cmath>
 #include <limits>
+#include <stdexcept>
+#include <string>
 
 namespace nntile
 {
@@ -31,58 +33,53 @@ void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
         const Tensor<T> &tmp, const Tensor<T> &tmp_grad,
         const Tensor<T> &tmp_sumprod_slice, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check shapes and base tiles of all operands
+    auto check = [](const TensorTraits &x, const std::vector<Index> &shape,
+            const std::vector<Index> &basetile, const char *name)
+    {
+        if(x.shape != shape)
+        {
+            throw std::runtime_error(std::string("Wrong shape of ") + name);
+        }
+        if(x.basetile_shape != basetile)
+        {
+            throw std::runtime_error(std::string("Wrong base tile of ")
+                    + name);
+        }
+    };
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    // Head dimension is not tiled
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    // All tiles must be of the same size
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    const std::vector<Index> &sh = Q.shape, &bt = Q.basetile_shape;
+    check(dQ, sh, bt, "dQ");
+    check(K, sh, bt, "K");
+    check(dK, sh, bt, "dK");
+    check(V, sh, bt, "V");
+    check(dV, sh, bt, "dV");
+    check(mask, {sh[1], sh[1]}, {bt[1], bt[1]}, "mask");
+    check(maxsumexp, {2, sh[1], sh[2], sh[3]},
+            {2, bt[1], bt[2], bt[3]}, "maxsumexp");
+    check(dst_grad, sh, bt, "dst_grad");
+    check(tmp, {sh[1], sh[1], sh[2], sh[3]},
+            {bt[1], bt[1], bt[2], bt[3]}, "tmp");
+    check(tmp_grad, {sh[1], sh[1], sh[2], sh[3]},
+            {bt[1], bt[1], bt[2], bt[3]}, "tmp_grad");
+    check(tmp_sumprod_slice, {sh[1], sh[2], sh[3]},
+            {bt[1], bt[2], bt[3]}, "tmp_sumprod_slice");
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
-- 
2.43.0


From 9806e1f4c960e4ad47a7062ef5ae04c033cfbd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 18/36] fix: block_cyclic divided by zero on a non-positive
 process grid dimension

---
 src/tensor/distributions.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tensor/distributions.cc b/src/tensor/distributions.cc
index 1c20048..04dc0b3 100644
--- a/src/tensor/distributions.cc
+++ b/src/tensor/distributions.cc
@@ -36,6 +36,14 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
     {
         throw std::runtime_error("Invalid starting rank");
     }
+    // Check mpi grid
+    for(Index i = 0; i < ndim; ++i)
+    {
+        if(mpi_grid[i] <= 0)
+        {
+            throw std::runtime_error("mpi_grid[i] <= 0");
+        }
+    }
     // Define TileTraits object to use its linear_to_index method
     const tile::TileTraits traits(tensor_grid);
     // Define nodes/ranks for all tiles in a block-cyclic manner
-- 
2.43.0


From 6317c723bca34c72c593ec9b11a1f2e2fce76613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 19/36] fix: block_cyclic read before the start of the index of
 a scalar grid

---
 src/tensor/distributions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/distributions.cc b/src/tensor/distributions.cc
index 04dc0b3..39599d3 100644
--- a/src/tensor/distributions.cc
+++ b/src/tensor/distributions.cc
@@ -58,8 +58,8 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
             index[j] %= mpi_grid[j];
         }
         // Obtain corresponding mpi rank
-        int mpi_rank = index[ndim-1];
-        for(Index j = ndim-2; j >= 0; --j)
+        Index mpi_rank = 0;
+        for(Index j = ndim-1; j >= 0; --j)
         {
             mpi_rank = mpi_rank*mpi_grid[j] + index[j];
         }
-- 
2.43.0


From c1059946b45de9a30f93b453d6da25a46e4e4784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 20/36] fix: block_cyclic overflowed on large process grids

---
 src/tensor/distributions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/distributions.cc b/src/tensor/distributions.cc
index 39599d3..70eba7a 100644
--- a/src/tensor/distributions.cc
+++ b/src/tensor/distributions.cc
@@ -61,7 +61,8 @@ std::vector<int> block_cyclic(const std::vector<Index> &tensor_grid,
         Index mpi_rank = 0;
         for(Index j = ndim-1; j >= 0; --j)
         {
-            mpi_rank = mpi_rank*mpi_grid[j] + index[j];
+            // Take the remainder on every step to avoid integer overflow
+            mpi_rank = (mpi_rank*mpi_grid[j]+index[j]) % max_rank;
         }
         ranks[i] = (mpi_rank+start_rank) % max_rank;
     }
-- 
2.43.0


From 0e5b2b23e5b8ef142a4b30b2317e56bf8da85891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 21/36] fix: HandleLocalData could be copied and then released
 its access twice

---
 include/nntile/starpu/config.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nntile/starpu/config.hh b/include/nntile/starpu/config.hh
index 3d7b619..660b3e2 100644
--- a/include/nntile/starpu/config.hh
+++ b/include/nntile/starpu/config.hh
@@ -302,6 +302,9 @@ public:
     {
         acquire(mode);
     }
+    //! Local access is released once, so it cannot be copied
+    HandleLocalData(const HandleLocalData &) = delete;
+    HandleLocalData &operator=(const HandleLocalData &) = delete;
     virtual ~HandleLocalData()
     {
         if(acquired)
-- 
2.43.0


From 867dcd854fb4ce1bad839c55517edd8c1f717156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 22/36] fix: flash attention tasks accepted sizes that do not
 fit CBLAS_INT (silently truncated)

---
 src/starpu/flash_maxsumexp.cc.in                      | 11 +++++++++++
 src/starpu/flash_softmax_gemm.cc.in                   | 11 +++++++++++
 src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in    | 11 +++++++++++
 .../flash_softmax_gemm_backward_sumprod_slice.cc.in   | 11 +++++++++++
 4 files changed, 44 insertions(+)

diff --git a/src/starpu/flash_maxsumexp.cc.in b/src/starpu/flash_maxsumexp.cc.in
index 15d89f2..1223174 100644
--- a/src/starpu/flash_maxsumexp.cc.in
+++ b/src/starpu/flash_maxsumexp.cc.in
@@ -290,6 +290,17 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
  * throws an std::runtime_error() exception.
  * */
 {
+    // Check that matrix sizes fit proper types for underlying CBLAS
+#ifdef NNTILE_USE_CBLAS
+    if(static_cast<CBLAS_INT>(seq) != seq)
+    {
+        throw std::runtime_error("flash_maxsumexp size seq does not fit CBLAS_INT");
+    }
+    if(static_cast<CBLAS_INT>(head) != head)
+    {
+        throw std::runtime_error("flash_maxsumexp size head does not fit CBLAS_INT");
+    }
+#endif // NNTILE_USE_CBLAS
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
     args->seq = seq;
diff --git a/src/starpu/flash_softmax_gemm.cc.in b/src/starpu/flash_softmax_gemm.cc.in
index d1bf461..3fd66e1 100644
--- a/src/starpu/flash_softmax_gemm.cc.in
+++ b/src/starpu/flash_softmax_gemm.cc.in
@@ -322,6 +322,17 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
  * throws an std::runtime_error() exception.
  * */
 {
+    // Check that matrix sizes fit proper types for underlying CBLAS
+#ifdef NNTILE_USE_CBLAS
+    if(static_cast<CBLAS_INT>(seq) != seq)
+    {
+        throw std::runtime_error("flash_softmax_gemm size seq does not fit CBLAS_INT");
+    }
+    if(static_cast<CBLAS_INT>(head) != head)
+    {
+        throw std::runtime_error("flash_softmax_gemm size head does not fit CBLAS_INT");
+    }
+#endif // NNTILE_USE_CBLAS
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
     args->seq = seq;
diff --git a/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in b/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
index 33765bd..18ab63f 100644
--- a/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
@@ -394,6 +394,17 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
  * throws an std::runtime_error() exception.
  * */
 {
+    // Check that matrix sizes fit proper types for underlying CBLAS
+#ifdef NNTILE_USE_CBLAS
+    if(static_cast<CBLAS_INT>(seq) != seq)
+    {
+        throw std::runtime_error("flash_softmax_gemm_backward_dq_dk size seq does not fit CBLAS_INT");
+    }
+    if(static_cast<CBLAS_INT>(head) != head)
+    {
+        throw std::runtime_error("flash_softmax_gemm_backward_dq_dk size head does not fit CBLAS_INT");
+    }
+#endif // NNTILE_USE_CBLAS
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
     args->seq = seq;
diff --git a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
index e206436..ce4c71d 100644
--- a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
@@ -365,6 +365,17 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
  * throws an std::runtime_error() exception.
  * */
 {
+    // Check that matrix sizes fit proper types for underlying CBLAS
+#ifdef NNTILE_USE_CBLAS
+    if(static_cast<CBLAS_INT>(seq) != seq)
+    {
+        throw std::runtime_error("flash_softmax_gemm_backward_sumprod_slice size seq does not fit CBLAS_INT");
+    }
+    if(static_cast<CBLAS_INT>(head) != head)
+    {
+        throw std::runtime_error("flash_softmax_gemm_backward_sumprod_slice size head does not fit CBLAS_INT");
+    }
+#endif // NNTILE_USE_CBLAS
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
     args->seq = seq;
-- 
2.43.0


From ba886b811ae9fb2a5de48a56cddcc07a7eb67f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 23/36] fix: FP16_to_FP32 layer generated its fp32 output as an
 fp16 tensor

---
 wrappers/python/nntile/layer/fp16_to_fp32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/layer/fp16_to_fp32.py b/wrappers/python/nntile/layer/fp16_to_fp32.py
index 3ecf37d..a65c1e9 100644
--- a/wrappers/python/nntile/layer/fp16_to_fp32.py
+++ b/wrappers/python/nntile/layer/fp16_to_fp32.py
@@ -36,9 +36,9 @@ class FP16_to_FP32(BaseLayer):
         # Get traits of X
         x_traits = TensorTraits(x.value.shape, x.value.basetile_shape)
         # Create Y with the same traits and distribution as X
-        y_value = Tensor_fp16(x_traits, x.value.distribution, next_tag)
+        y_value = Tensor_fp32(x_traits, x.value.distribution, next_tag)
         next_tag = y_value.next_tag
-        y_grad = Tensor_fp16(x_traits, x.value.distribution, next_tag)
+        y_grad = Tensor_fp32(x_traits, x.value.distribution, next_tag)
         next_tag = y_grad.next_tag
         y = TensorMoments(y_value, y_grad, True)
         # Create activation layer with all the provided tensors
-- 
2.43.0


From 2af4e5d74332ec42466716344f565207580f0c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 24/36] fix: Linear layer with fp32_convert_fp16 used names it
 never imported

---
 wrappers/python/nntile/layer/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/linear.py b/wrappers/python/nntile/layer/linear.py
index 74e8eff..9f89728 100644
--- a/wrappers/python/nntile/layer/linear.py
+++ b/wrappers/python/nntile/layer/linear.py
@@ -16,7 +16,8 @@ import nntile
 from nntile.tensor import TensorTraits, Tensor, TensorOrNone, TensorMoments, \
         TransOp, trans, notrans, copy_async, gemm_async, randn_async, \
         add_slice_async, add_fiber_async, sum_slice_async, sum_fiber_async, \
-        gemm_ex_async
+        gemm_ex_async, Tensor_fp16
+from nntile.nntile_core.tensor import fp32_to_fp16_async, fp16_to_fp32_async
 from nntile.layer.base_layer import BaseLayer
 import numpy as np
 from typing import List, Union, Optional
-- 
2.43.0


From 456318b0c6d1a4838ff5044108043b738bdbb8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 25/36] fix: CrossEntropy without output gradient failed in
 calc_async

---
 wrappers/python/nntile/loss/crossentropy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/loss/crossentropy.py b/wrappers/python/nntile/loss/crossentropy.py
index 855e718..f3167d9 100644
--- a/wrappers/python/nntile/loss/crossentropy.py
+++ b/wrappers/python/nntile/loss/crossentropy.py
@@ -93,7 +93,8 @@ class CrossEntropy:
             subtract_indexed_outputs_async(self.scale, self.y, \
                     self.model_output.grad)
         self.model_output.value.wont_use()
-        self.model_output.grad.wont_use()
+        if self.model_output.grad is not None:
+            self.model_output.grad.wont_use()
         self.maxsumexp.wont_use()
         self.logsumexp.wont_use()
         self.val.wont_use()
-- 
2.43.0


From 3eeecedcaf83b6dd6bb77c00edc245d1a08ea0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 26/36] fix: Adam with amsgrad divided by the bias correction
 it should multiply by

---
 wrappers/python/nntile/optimizer/adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index d1a0937..6e5e4c6 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -84,7 +84,7 @@ class Adam:
             if self.amsgrad:
                 nntile.tensor.maximum_async(self.second_moments[i], \
                         self.max_second_moments[i])
-                nntile.tensor.addcdiv_async(step_size/scale_factor, \
+                nntile.tensor.addcdiv_async(step_size*scale_factor, \
                         self.eps*scale_factor, self.first_moments[i], \
                         self.max_second_moments[i], p.value)
                 self.max_second_moments[i].wont_use()
-- 
2.43.0


From f2c79859425a4906beb45c042e3801a193313dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 27/36] fix: FusedAdam could not load the state it saved in
 fp32

---
 wrappers/python/nntile/optimizer/adam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 6e5e4c6..1f47b4c 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -215,8 +215,8 @@ class FusedAdam:
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
             self.second_moments[i].to_array(s_m)
             if dtype == "fp32":
-                first_moments.append(f_m.copy())
-                second_moments.append(s_m.copy())
+                first_moments.append(torch.tensor(f_m))
+                second_moments.append(torch.tensor(s_m))
             elif dtype == "fp16":
                 first_moments.append(torch.tensor(f_m, dtype=torch.float16))
                 second_moments.append(torch.tensor(s_m, dtype=torch.float16))
-- 
2.43.0


From 05730d9591eb592c4e9e471a9a53fdf9c2444c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 28/36] fix: Adam saved the last maximum second moment in place
 of each of them

---
 wrappers/python/nntile/optimizer/adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 1f47b4c..7360046 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -111,7 +111,7 @@ class Adam:
             self.second_moments[i].to_array(s_m)
             second_moments.append(s_m.copy())
         
-        for m_s_m_nntile in self.max_second_moments:
+        for i in range(len(self.max_second_moments)):
             m_s_m = np.array(np.zeros(self.max_second_moments[i].shape, dtype=self.dtype), order="F")
             self.max_second_moments[i].to_array(m_s_m)
             max_second_moments.append(m_s_m.copy())
-- 
2.43.0


From 3eb0af7b971880dfc67fb047ad62011088e458ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 29/36] fix: scatter_async refused fp64 tensors

---
 wrappers/python/nntile/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/tensor.py b/wrappers/python/nntile/tensor.py
index 7dbdb43..bff1a76 100644
--- a/wrappers/python/nntile/tensor.py
+++ b/wrappers/python/nntile/tensor.py
@@ -337,7 +337,7 @@ def scatter_async(x: TensorFloatOrInt, y: TensorFloatOrInt) -> None:
         raise TypeError
     if type(x) is core_tensor.Tensor_fp32:
         core_tensor.scatter_async_fp32(x, y)
-    elif type(x) is core_tensor.Tensor_fp32:
+    elif type(x) is core_tensor.Tensor_fp64:
         core_tensor.scatter_async_fp64(x, y)
     elif type(x) is core_tensor.Tensor_int64:
         core_tensor.scatter_async_int64(x, y)
-- 
2.43.0


From 7353b89a0a45a02e3852abf76a9e6ea2b397c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 30/36] fix: MlpMixer did not transpose a square weight of its
 first layer to and from PyTorch

---
 wrappers/python/nntile/model/mlp_mixer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/model/mlp_mixer.py b/wrappers/python/nntile/model/mlp_mixer.py
index 79c24fa..3134982 100644
--- a/wrappers/python/nntile/model/mlp_mixer.py
+++ b/wrappers/python/nntile/model/mlp_mixer.py
@@ -118,8 +118,10 @@ class MlpMixer(BaseModel):
         x_moments = TensorMoments(x, x_grad, x_grad_required)
   
         mlp_mixer_nntile = MlpMixer(x_moments, hidden_layer_dim, n_mixer_layers, n_classes, next_tag)
-        for p, p_torch in zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters()):
-            if p.value.shape[0] != p_torch.shape[0]:
+        for i, (p, p_torch) in enumerate(zip(mlp_mixer_nntile.parameters, \
+                torch_mlp_mixer.parameters())):
+            # Weight of the first linear layer is stored transposed
+            if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                 p.value.from_array(p_torch.detach().numpy().T)
             else:
                 p.value.from_array(p_torch.detach().numpy())
@@ -128,8 +130,10 @@ class MlpMixer(BaseModel):
 
     def to_torch(self, torch_mlp_mixer):
         with torch.no_grad():
-            for (p, p_torch) in zip(self.parameters, torch_mlp_mixer.parameters()):
-                if p.value.shape[0] != p_torch.shape[0]:
+            for i, (p, p_torch) in enumerate(zip(self.parameters, \
+                    torch_mlp_mixer.parameters())):
+                # Weight of the first linear layer is stored transposed
+                if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                     nntile_np = np.zeros(p.value.shape, dtype=np.float32, order="F")
                     p.value.to_array(nntile_np)
                     p_torch.copy_(torch.from_numpy(nntile_np.T))
-- 
2.43.0


From b246eed72387b239dc2844a21234c2cf7369ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 31/36] fix: Frob loss lacked get_val that the training
 pipeline calls

---
 wrappers/python/nntile/loss/frob.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wrappers/python/nntile/loss/frob.py b/wrappers/python/nntile/loss/frob.py
index b3e1f8b..4d9ecef 100644
--- a/wrappers/python/nntile/loss/frob.py
+++ b/wrappers/python/nntile/loss/frob.py
@@ -54,6 +54,10 @@ class Frob:
         loss = Frob(x, y, val, val2, tmp)
         return loss, next_tag
 
+    # Get value of the loss
+    def get_val(self, val_np):
+        self.val.to_array(val_np)
+
     # Get value and gradient if needed
     def calc_async(self):
         # Put X into gradient grad X
-- 
2.43.0


From 885dfe1a87214a56bbb11f4fea81fc79e3dfe07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 32/36] fix: BaseLayer forward and backward used an undefined
 name, and backward ran forward

---
 wrappers/python/nntile/layer/base_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/base_layer.py b/wrappers/python/nntile/layer/base_layer.py
index b5c0ae8..dc59efd 100644
--- a/wrappers/python/nntile/layer/base_layer.py
+++ b/wrappers/python/nntile/layer/base_layer.py
@@ -11,6 +11,7 @@
 # @author Aleksandr Mikhalev
 # @date 2023-05-06
 
+from nntile.nntile_core import starpu
 from nntile.tensor import Tensor, TensorMoments, randn_async
 import numpy as np
 from typing import List, Union
@@ -54,7 +55,7 @@ class BaseLayer(object):
         raise NotImplementedError
 
     def backward(self):
-        self.forward_async()
+        self.backward_async()
         starpu.wait_for_all()
 
     # Unregister layer weights and temporary tensors
-- 
2.43.0


From d94ccbd861a3ab3178ce29da9218813042c6e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 33/36] fix: BaseModel.append nested the lists of activations
 and parameters

---
 wrappers/python/nntile/model/base_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/model/base_model.py b/wrappers/python/nntile/model/base_model.py
index ed1a911..7aff4bc 100644
--- a/wrappers/python/nntile/model/base_model.py
+++ b/wrappers/python/nntile/model/base_model.py
@@ -33,9 +33,9 @@ class BaseModel:
 
     # Add a new layer with corresponding new activations
     def append(self, layer: BaseLayer):
-        self.activations.append(layer.activations_output)
+        self.activations.extend(layer.activations_output)
         self.layers.append(layer)
-        self.parameters.append(layer.parameters)
+        self.parameters.extend(layer.parameters)
 
     # Forward propagation
     def forward_async(self):
-- 
2.43.0


From 36a72864b190f92a2d7c3dc46335ba83bf27934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:34 +0000
Subject: [PATCH 34/36] fix: GAP backward overwrote the gradient of its input
 instead of adding to it

---
 wrappers/python/nntile/layer/mixer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 99d76a9..2e6ec96 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -67,7 +67,7 @@ class GAP(BaseLayer):
     def backward_async(self):
         alpha = 1 / (self.x.value.shape[0])
         transpose_async(1.0, self.y.grad, self.yT.grad, 1)
-        add_slice_async(alpha, self.yT.grad, 0.0, self.x.grad, 0)
+        add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
 
 
 class MixerMlp(BaseLayer):
-- 
2.43.0


From 9704de9b2249293e39aff0bf8038d3c3d9f6d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:40 +0000
Subject: [PATCH 35/36] fix: normalize CUDA kernel produced NaN for a slice of
 zeros

---
 src/kernel/normalize/cuda.cu | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernel/normalize/cuda.cu b/src/kernel/normalize/cuda.cu
index 786fdb7..e75060a 100644
--- a/src/kernel/normalize/cuda.cu
+++ b/src/kernel/normalize/cuda.cu
@@ -57,8 +57,9 @@ void cuda_kernel(Index m, Index n, Index k, Index l, T eps,
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
                 T tmp = ::fabs(mean) / rms;
-                // Check if rounding errors broke theoretical invariant
-                if(tmp >= one)
+                // Check if rounding errors broke theoretical invariant. Slice of
+                // zeros has no deviation and tmp is not a number
+                if(rms == 0 || tmp >= one)
                 {
                     dev = reps;
                 }
-- 
2.43.0


From 72e846056a9c5ccdb20abd25429c11aadd120919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:40 +0000
Subject: [PATCH 36/36] fix: norm_slice CUDA kernel did not write its output
 for a slice of zeros

---
 src/kernel/norm_slice/cuda.cu | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/kernel/norm_slice/cuda.cu b/src/kernel/norm_slice/cuda.cu
index 3a7e011..26fba89 100644
--- a/src/kernel/norm_slice/cuda.cu
+++ b/src/kernel/norm_slice/cuda.cu
@@ -59,22 +59,22 @@ void cuda_kernel(Index m, Index n, Index k, Index mk, T alpha, const T *src,
         {
             sum /= block_max[threadIdx.x+blockDim.x*threadIdx.y];
             atomicAdd(&block_sum[threadIdx.x+blockDim.x*threadIdx.y], sum*sum);
-            __syncthreads();
-            // Update output value
-            if(i2_start == 0)
+        }
+        __syncthreads();
+        // Update output value, even if all the source values are zeros
+        if(i2_start == 0)
+        {
+            // Output value
+            T &result = dst[i1*m+i0];
+            sum = block_max[threadIdx.x+blockDim.x*threadIdx.y];
+            sum *= ::sqrt(block_sum[threadIdx.x+blockDim.x*threadIdx.y]);
+            if(beta == zero)
+            {
+                result = ::fabs(alpha) * sum;
+            }
+            else
             {
-                // Output value
-                T &result = dst[i1*m+i0];
-                sum = block_max[threadIdx.x+blockDim.x*threadIdx.y];
-                sum *= ::sqrt(block_sum[threadIdx.x+blockDim.x*threadIdx.y]);
-                if(beta == zero)
-                {
-                    result = ::fabs(alpha) * sum;
-                }
-                else
-                {
-                    result = ::hypot(beta*result, alpha*sum);
-                }
+                result = ::hypot(beta*result, alpha*sum);
             }
         }
     }
-- 
2.43.0


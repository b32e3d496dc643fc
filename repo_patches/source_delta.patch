From 723339a1cdc7cd31adc9e62f73522d6cddb9c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:22 +0000
Subject: [PATCH 01/16] fix: compare whole pointers in the container overlap
 check

---
 lib/src/private/src/mli_check.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2298717..150aa09 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -243,8 +243,10 @@ bool mli_tensor_is_scalar (const mli_tensor * in) {
 }
 
 bool mli_chk_containers_not_overlapped(const mli_data_container & data1, const mli_data_container & data2) {
-    if ((data1.mem.i32 >= (data2.mem.i32 + (int)(data2.capacity))) ||
-        (data2.mem.i32 >= (data1.mem.i32 + (int)(data1.capacity)))) {
+    const int8_t* start1 = data1.mem.pi8;
+    const int8_t* start2 = data2.mem.pi8;
+    if ((start1 >= (start2 + data2.capacity)) ||
+        (start2 >= (start1 + data1.capacity))) {
         return true;
     }
     return false;
-- 
2.43.0


From 11bbb73fb016b4807b34c844b2277217c0377c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 02/16] fix: keep the full accumulator width when casting
 16-bit values to mli_acc40_t

---
 lib/src/pal/ref/mli_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pal/ref/mli_math.h b/lib/src/pal/ref/mli_math.h
index 5796b55..01de2ed 100644
--- a/lib/src/pal/ref/mli_math.h
+++ b/lib/src/pal/ref/mli_math.h
@@ -361,7 +361,7 @@ MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
 
 template <>
 MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int32_t)mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
+    return mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
 }
 
 template <>
-- 
2.43.0


From 181e7646487ec6e3c6fefeeb2f28f1d2510253b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 03/16] fix: do not copy a slice placed at a destination offset
 as one whole tensor

---
 lib/src/move/mli_mov_api.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 40f95c1..1559cf6 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -240,6 +240,8 @@ mli_status mli_mov_prepare(mli_mov_handle_t* h, const mli_tensor* src, const mli
         is_possible_in_single1d_transfer &= no_padding;
         is_possible_in_single1d_transfer &= (cfg->perm_dim[i] == i);
         is_possible_in_single1d_transfer &= (cfg->sub_sample_step[i] == 1);
+        // a slice that is placed at an offset can have the same shape as the source.
+        is_possible_in_single1d_transfer &= (cfg->offset[i] == 0) && (cfg->dst_offset[i] == 0);
         stride *= src->shape[i];
     }
 
-- 
2.43.0


From 0569bfdd83e34cf36efd9c725a7aa1f6bcec3519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 04/16] fix: keep acquired DMA channels inside the channel pool

---
 lib/src/move/mli_mov_api.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 1559cf6..5fdc1a6 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -386,8 +386,9 @@ mli_status mli_mov_acquire_handle(int num_ch, mli_mov_handle_t* h) {
     MLI_ASSERT(h != NULL);
     // find first available channel, and check if enough adjacent channels are available.
     for (int i = dma_pool.base_channel; i < dma_pool.base_channel + dma_pool.pool_size; i++) {
-        bool found = true;
-        for (int ch_cnt = 0; ch_cnt < num_ch; ch_cnt++) {
+        // the whole block needs to be inside the pool
+        bool found = (i + num_ch <= dma_pool.base_channel + dma_pool.pool_size);
+        for (int ch_cnt = 0; found && ch_cnt < num_ch; ch_cnt++) {
             found &= (dma_pool.channel_status[i + ch_cnt] == MLI_MOV_DMA_CH_AVAILABLE);
         }
         if (found) {
-- 
2.43.0


From e4b5f315a487559b2b15559e686b7426c0dce1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:10 +0000
Subject: [PATCH 05/16] fix: select GRU new-gate quantization parameters only
 for per-gate weights

---
 lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
index 1561878..a52b534 100644
--- a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
+++ b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
@@ -33,13 +33,18 @@ namespace ref {
 //========================================================================================
 
 static inline void inc_scales_for_new_gate(mli_element_params* params, int prev_gates) {
-	params->sa.scale.mem.pi16 += prev_gates;
-    params->sa.scale_frac_bits.mem.pi8 += prev_gates;
+    // Per-tensor quantization keeps the values themselves, not arrays of them
+    if (params->sa.dim >= 0) {
+        params->sa.scale.mem.pi16 += prev_gates;
+        params->sa.scale_frac_bits.mem.pi8 += prev_gates;
+    }
 }
 
 static inline void dec_scales_for_new_gate(mli_element_params* params, int prev_gates) {
-    params->sa.scale.mem.pi16 -= prev_gates;
-    params->sa.scale_frac_bits.mem.pi8 -= prev_gates;
+    if (params->sa.dim >= 0) {
+        params->sa.scale.mem.pi16 -= prev_gates;
+        params->sa.scale_frac_bits.mem.pi8 -= prev_gates;
+    }
 }
 
 template <typename io_T, typename w_T, typename b_T, typename acc_T, typename quant_T>
-- 
2.43.0


From 6336c01cde82716c85406edd0a82598d21c3aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:12 +0000
Subject: [PATCH 06/16] fix: move the data pointer of a float sub-tensor, not
 its bits read as a float

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index d9a9e69..1bf2195 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -148,7 +148,7 @@ mli_status mli_hlp_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
         out->data.mem.pi16 = in->data.mem.pi16 + size;
         break;
     case MLI_EL_FP_32:
-        out->data.mem.f32 = in->data.mem.f32 + size;
+        out->data.mem.pf32 = in->data.mem.pf32 + size;
         break;
     case MLI_EL_SA_32:
         out->data.mem.pi32 = in->data.mem.pi32 + size;
-- 
2.43.0


From 0d9b11b6392b687f4aeefaea633425b1b704c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:11 +0000
Subject: [PATCH 07/16] fix: keep the selected quantization parameters when a
 sub-tensor drops the quantized axis

---
 lib/src/helpers/src/mli_helpers.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 1bf2195..7a168cf 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -237,7 +237,18 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     out->el_params = in->el_params;
 
     if (isAsym){
-        if (out->el_params.sa.dim >= 0) {
+        if (out->el_params.sa.dim >= 0 && out_asym_dim < 0) {
+            // The quantized axis is removed: a single set of parameters is left
+            const int idx = cfg->offset[in->el_params.sa.dim];
+            const mli_element_params in_params = in->el_params;
+            out->el_params.sa.scale.mem.i16 = in_params.sa.scale.mem.pi16[idx];
+            out->el_params.sa.scale.capacity = 0;
+            out->el_params.sa.scale_frac_bits.mem.i8 = in_params.sa.scale_frac_bits.mem.pi8[idx];
+            out->el_params.sa.scale_frac_bits.capacity = 0;
+            out->el_params.sa.zero_point.mem.i16 = in_params.sa.zero_point.mem.pi16[idx];
+            out->el_params.sa.zero_point.capacity = 0;
+            out->el_params.sa.dim = -1;
+        } else if (out->el_params.sa.dim >= 0) {
             out->el_params.sa.scale.mem.pi16 += out_asym_offset;
             out->el_params.sa.scale_frac_bits.mem.pi8 += out_asym_offset;
             out->el_params.sa.dim = out_asym_dim;
-- 
2.43.0


From 9248eacd9456e5608607e0d171b75cb2cf360a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:34 +0000
Subject: [PATCH 08/16] fix: compute tensor extents in 64 bits when checking
 them against the capacity

---
 lib/src/private/src/mli_check.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 150aa09..7553b68 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -84,19 +84,23 @@ static MLI_FORCE_INLINE mli_status check_tensor_private(
     }
     if (fail) return MLI_STATUS_BAD_TENSOR;
 
-    int size = 1;
-    int previous_shape = 1;
-    int previous_mem_stride = 1;
+    // 64-bit arithmetic: products of 32-bit shapes and strides must not wrap around.
+    // The size saturates above any valid capacity, so that sums stay in range as well.
+    const int64_t size_limit = (int64_t)INT32_MAX + 1;
+    int64_t size = 1;
+    int64_t previous_shape = 1;
+    int64_t previous_mem_stride = 1;
     for (int i = rank - 1; i >= 0; i--) {
         fail |= MLI_CHECK(mem_stride[i] >= (previous_shape * previous_mem_stride), "Tensor mem stride too small");
         previous_shape = shape[i];
         previous_mem_stride = mem_stride[i];
         size += (previous_shape - 1) * previous_mem_stride;
+        size = MIN(size, size_limit);
     }
     size *= element_size;
 
     if (fail) return MLI_STATUS_BAD_TENSOR;
-    fail |= MLI_CHECK((int)capacity >= size, "Insufficient tensor capacity");
+    fail |= MLI_CHECK((int64_t)capacity >= size, "Insufficient tensor capacity");
     if (fail) return MLI_STATUS_NOT_ENGH_MEM;
     return MLI_STATUS_OK;
 }
-- 
2.43.0


From 97a2c02c1c2e7568c04eb4b81101cf373987779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:34 +0000
Subject: [PATCH 09/16] fix: reject group convolutions with more weight
 channels than input channels

---
 lib/src/private/src/mli_check.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 7553b68..561398c 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -761,8 +761,8 @@ mli_status mli_chk_group_conv2d_hwcn(
     fail |= MLI_CHECK(bias->shape[0] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch bias and weights");
 
     int group_count = in->shape[FMAP_C_DIM_HWC] / weights->shape[KRNL_D_DIM_HWCN];
-    fail |= MLI_CHECK(in->shape[FMAP_C_DIM_HWC] % weights->shape[KRNL_D_DIM_HWCN] == 0, "Input channel count must be multiple of group count");
-    fail |= MLI_CHECK(weights->shape[KRNL_C_DIM_HWCN] % group_count == 0, "Number of filters must be multiple of group count");
+    fail |= MLI_CHECK(group_count > 0 && in->shape[FMAP_C_DIM_HWC] % weights->shape[KRNL_D_DIM_HWCN] == 0, "Input channel count must be multiple of group count");
+    fail |= MLI_CHECK(group_count > 0 && weights->shape[KRNL_C_DIM_HWCN] % group_count == 0, "Number of filters must be multiple of group count");
     fail |= MLI_CHECK(out->shape[FMAP_C_DIM_HWC] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch out and weights");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
 
-- 
2.43.0


From 2374a76b0338fb9674693d82b4cfe78aff1dd29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:34 +0000
Subject: [PATCH 10/16] fix: require the output of permute to have the rank of
 its input

---
 lib/src/private/src/mli_check.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 561398c..90b47c0 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2657,6 +2657,7 @@ mli_status mli_chk_permute (const mli_tensor * in, const mli_permute_cfg * cfg,
 
     // Check config structure
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
+    if (MLI_CHECK(out->rank == in->rank, "Output rank must match input rank")) return MLI_STATUS_SHAPE_MISMATCH;
 
     for (int idx = 0; idx < (int)in->rank; idx++) {
         if (MLI_CHECK(cfg->perm_dim[idx] < in->rank, "Rank mismatch"))
-- 
2.43.0


From f9609669d80205ce696669cc7576ee638b638142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:34 +0000
Subject: [PATCH 11/16] fix: require the two-dimensional output argmax
 documents

---
 lib/src/private/src/mli_check.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 90b47c0..4038d4a 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2948,6 +2948,7 @@ mli_status mli_chk_argmax(const mli_tensor *in, const mli_argmax_cfg *cfg, mli_t
     if (fail) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check out shape
+    if (MLI_CHECK(out->rank == 2, "Out rank should equal 2")) return MLI_STATUS_SHAPE_MISMATCH;
     fail |= MLI_CHECK(out->shape[0] == dim_size, "Out shape[0] should equal dim size");
     fail |= MLI_CHECK((int)out->shape[1] == cfg->topk, "Out shape[1] should equal topk");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-- 
2.43.0


From cde1eb83364e140e22e4210b878db580b7c475f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:34 +0000
Subject: [PATCH 12/16] fix: keep the slice check of sub-tensors free of
 wrap-around

---
 lib/src/private/src/mli_check.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 4038d4a..4486510 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2821,7 +2821,7 @@ mli_status mli_chk_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     for (int i = 0; i < (int)in->rank; i++) {
         if (MLI_CHECK(cfg->offset[i] < in->shape[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
-        if (MLI_CHECK(cfg->offset[i] + cfg->size[i] <= in->shape[i], "bad config"))
+        if (MLI_CHECK(cfg->size[i] <= in->shape[i] - cfg->offset[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
     }
 
-- 
2.43.0


From c4211bd0049f0fc3934f510b47799ae7bec41520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:19 +0000
Subject: [PATCH 13/16] fix: keep the buffer offset of a dimension that is not
 tiled

A tile iterator whose configuration holds a single tile along a dimension moved
its buffer offset by one memory stride each time that dimension wrapped, so the
second tile of e.g. a 4x4 tensor cut along its columns started one row too far
and Move copied past the end of the buffer. Window configurations larger than a
dimension of one element folded the offset with a modulo, and dimensions beyond
the rank of the tensor were read out of bounds.
---
 include/mli_iterator.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 96f8092..7ef17ab 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -514,29 +514,29 @@ class BufferIterator {
                    const IteratorCfg<iterRank>& cfg)
         : m_buffer_offset{0} {
       m_buffer_size = 1;
+      for (uint32_t i = 0; i < iterRank; i++) {
+        m_first_offset_inc[i] = m_offset_inc[i] = m_last_offset_inc[i] = m_buffer_dec[i] = 0;
+      }
       for (uint32_t i = 0; i < iterRank; i++) {
         int32_t axis = cfg.get_order(i);
-        if (axis == kSkipIterDim) continue;
+        if (axis == kSkipIterDim || axis >= (int32_t)tensorRank) continue;
 
         uint32_t buffer_dim = MAX(cfg.get_size(axis), cfg.get_first_size(axis));
         // If tiles number equals to 0, that means attached buffer calculated for
         // full tensor, otherwise - for number of tiles. Also if dimension of the
         // tensor/tile is 1 or 0, that simply means that dimension doesn't exist
         // in terms of buffer, so offset must be 0.
-        if (cfg.get_buf_tiles_num() == 0 && full_tensor.get_dim(i) > 1) {
-          m_first_offset_inc[axis] = cfg.get_first_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
-          m_offset_inc[axis] = cfg.get_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
-          m_last_offset_inc[axis] = cfg.get_last_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
-
-        } else {
-          m_first_offset_inc[axis] = 0;
-          m_offset_inc[axis] = 0;
-          m_last_offset_inc[axis] = 0;
+        if (cfg.get_buf_tiles_num() != 0) {
           m_buffer_size *= buffer_dim;
+        } else if (full_tensor.get_dim(axis) > 1) {
+          m_first_offset_inc[axis] = cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
+          m_offset_inc[axis] = cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
+          m_last_offset_inc[axis] = cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
+          // a last increment that returns to the first tile needs no further correction
+          if (cfg.get_last_inc(axis) > 0) {
+            m_buffer_dec[axis] = full_tensor.get_dim(axis) * full_tensor.get_mem_stride(axis);
+          }
         }
-        m_buffer_dec[axis] = cfg.get_buf_tiles_num() == 0
-                             ? full_tensor.get_dim(axis) * full_tensor.get_mem_stride(axis)
-                             : buffer_dim * full_tensor.get_mem_stride(axis);
       }
     };
 
-- 
2.43.0


From 3c2b386b1bff24d6f1ea4936d3936bb593138016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:02 +0000
Subject: [PATCH 14/16] fix: derive the buffer offset of operand iterators from
 their own configuration

The constructor that derives a weights or zero-point iterator from an output
iterator built its buffer iterator before it changed the configuration, so the
buffer offset followed the output's increments along dimensions that the operand
does not advance in.
---
 include/mli_iterator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 7ef17ab..2717aca 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -781,6 +781,7 @@ class TensorIterator {
         }
       }
       if (iteration_order != nullptr) m_config.UpdateOrder(iteration_order);
+      m_buffer_itr = BufferIterator<buf_T, iterRank>(m_full_tensor, m_config);
 
       UpdateMemstrides();
       Reset();
-- 
2.43.0


From 910b3a8007f8a815b223cff5bb86bccc2c462f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:08 +0000
Subject: [PATCH 15/16] fix: keep first and regular increments apart when an
 axis is dropped

The constructor that removes an axis from an iterator configuration stored the
first increment as the regular one and the other way round.
---
 include/mli_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 2717aca..4c75b03 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -202,8 +202,8 @@ class IteratorCfg {
         m_first_size[j] = icfg.get_first_size(i);
         m_size[j] = icfg.get_size(i);
         m_last_size[j] = icfg.get_last_size(i);
-        m_pos_inc[j] = icfg.get_first_inc(i);
-        m_first_pos_inc[j] = icfg.get_inc(i);
+        m_pos_inc[j] = icfg.get_inc(i);
+        m_first_pos_inc[j] = icfg.get_first_inc(i);
         m_last_pos_inc[j] = icfg.get_last_inc(i);
         m_diff_code[j] = icfg.get_diff_code(i);
         j++;
-- 
2.43.0


From f115f96ce10037ce79aaac0d9e8dc274343839e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:08 +0000
Subject: [PATCH 16/16] fix: use the inner stride when Tensor::combine merges
 row-major axes

With reverse_order false the combined axis kept the stride of the outer axis, so
its elements were taken from the wrong places.
---
 include/mli_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index bd3b63e..874a70d 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -793,7 +793,7 @@ class Tensor {
           assert(mem_stride_[r] == (int)shape_[r+1]*mem_stride_[r+1]);
         }
         tns.set_dim(s, shape_[r]*shape_[r+1]);
-        tns.set_mem_stride(s, mem_stride_[r]);
+        tns.set_mem_stride(s, reverse_order ? mem_stride_[r] : mem_stride_[r+1]);
         ++r;
       }
       ++s;
-- 
2.43.0


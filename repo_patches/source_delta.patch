From 0e64d1823ece6332159374cc89cc238c2b569c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 01/63] fix: clip fused ReLU limits after the zero point is
 applied

With many fractional bits 1.0 and 6.0 do not fit the output container. They were replaced
by the container maximum before the zero point was added, which moved the limits into the
representable range (or -1.0 to -max for fx). Use the container span instead, so that the
final clipping always gives the container limit.
---
 lib/src/private/mli_prv_tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/mli_prv_tensor.h b/lib/src/private/mli_prv_tensor.h
index eac988c..cf1beea 100644
--- a/lib/src/private/mli_prv_tensor.h
+++ b/lib/src/private/mli_prv_tensor.h
@@ -976,7 +976,7 @@ mli_prv_get_relu_limits (const mli_relu_cfg * cfg, const mli_tensor * out) {
         break;
     case MLI_RELU_6:
         if (shift >= 0) {
-            six = (shift < 28) ? ((int32_t)6 << shift) / scale : max_val;
+            six = (shift < 28) ? ((int32_t)6 << shift) / scale : (max_val - min_val);
         }
         else {
             six = (shift > -3) ?((int32_t)6 >> (-shift)) / scale : 0;
@@ -988,7 +988,7 @@ mli_prv_get_relu_limits (const mli_relu_cfg * cfg, const mli_tensor * out) {
         break;
     case MLI_RELU_1:
         if (shift >= 0) {
-            one = (shift < 30) ? ((int32_t)1 << shift) / scale : max_val;
+            one = (shift < 30) ? ((int32_t)1 << shift) / scale : (max_val - min_val);
         }
         else {
             one = 0;
-- 
2.43.0


From fdea6b9a0ea1264908c59855265fa14db884f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 02/63] fix: keep all bits when casting int16_t to the 40 bit
 accumulator

The shifted value was truncated to 32 bits, so that an fx16 bias that needs more than
32 bits in the accumulator format wrapped around instead of being added.
---
 lib/src/pal/ref/mli_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pal/ref/mli_math.h b/lib/src/pal/ref/mli_math.h
index 5796b55..01de2ed 100644
--- a/lib/src/pal/ref/mli_math.h
+++ b/lib/src/pal/ref/mli_math.h
@@ -361,7 +361,7 @@ MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
 
 template <>
 MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int32_t)mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
+    return mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
 }
 
 template <>
-- 
2.43.0


From 03ba52758bc6afc283d1b0be9388670975b68672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 03/63] fix: accept a single-element tensor combined with a
 scalar in element-wise kernels

---
 lib/src/private/src/mli_check.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2298717..3528863 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1580,7 +1580,7 @@ mli_status mli_chk_eltwise (
     if (!mli_tensor_is_scalar(in1) && !mli_tensor_is_scalar(in2)) {
         fail |= MLI_CHECK(check_same_shape(in1, in2), "If both tensors are not scalar, their shapes must be the same");
     }
-    if (!mli_tensor_is_scalar(in1)) {
+    if (!mli_tensor_is_scalar(in1) || in2->rank == 0) {
         fail |= MLI_CHECK(check_same_shape(in1, out), "Output shape must match non-scalar input tensor");
     } else {
         fail |= MLI_CHECK(check_same_shape(in2, out), "Output shape must match non-scalar input tensor");
-- 
2.43.0


From 0c0eba19cfd9e92bd226e861d856556a6e9995d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 04/63] fix: do not truncate the output shift of fx8
 element-wise add and sub

---
 lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h b/lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h
index 3fa9774..99d4fce 100644
--- a/lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h
+++ b/lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h
@@ -336,7 +336,8 @@ void calc_convert_params(const mli_tensor* in1, const mli_tensor* in2, const mli
             max_shift = max_shift - 1;
             params.post_op_shift = in1->el_params.fx.frac_bits - out->el_params.fx.frac_bits;
         } else {
-            max_shift = 2 * max_shift - 1;
+            // aligned operands and their sum are kept in 32 bits for any input type
+            max_shift = sizeof(int32_t) * byte_size - 1;
             params.pre_op_shift1 = MIN(in1->el_params.fx.frac_bits -  in2->el_params.fx.frac_bits, 0);
             params.pre_op_shift2 = MIN(in2->el_params.fx.frac_bits -  in1->el_params.fx.frac_bits, 0);
             params.post_op_shift = MAX(in1->el_params.fx.frac_bits, in2->el_params.fx.frac_bits) - out->el_params.fx.frac_bits;
-- 
2.43.0


From 3f9002c10e45f3d97471ff55f5fc429087fcace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 05/63] fix: keep per-tensor weight scales intact in the sa8
 GRU cell

inc/dec_scales_for_new_gate stepped the scale pointers even for per-tensor
quantisation, where the union holds the scale by value.
---
 lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
index 1561878..dff1cea 100644
--- a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
+++ b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
@@ -33,11 +33,14 @@ namespace ref {
 //========================================================================================
 
 static inline void inc_scales_for_new_gate(mli_element_params* params, int prev_gates) {
-	params->sa.scale.mem.pi16 += prev_gates;
+    // per-tensor parameters are stored by value, there is no array to step through
+    if (params->sa.dim < 0) return;
+    params->sa.scale.mem.pi16 += prev_gates;
     params->sa.scale_frac_bits.mem.pi8 += prev_gates;
 }
 
 static inline void dec_scales_for_new_gate(mli_element_params* params, int prev_gates) {
+    if (params->sa.dim < 0) return;
     params->sa.scale.mem.pi16 -= prev_gates;
     params->sa.scale_frac_bits.mem.pi8 -= prev_gates;
 }
-- 
2.43.0


From 51b1f5fe209b73ea6d8adf65cc035d6df66bf4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:51 +0000
Subject: [PATCH 06/63] fix: keep the pooling border processing inside the
 output

When the padding covers more rows or columns than the output has (e.g. 1x1
input, 3x1 window, padding_top 2), pooling wrote out of the output tensor
bounds.
---
 lib/src/kernels/pooling/mli_krn_pool_hwc.h | 23 +++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/src/kernels/pooling/mli_krn_pool_hwc.h b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
index 81b0ad1..34202b8 100644
--- a/lib/src/kernels/pooling/mli_krn_pool_hwc.h
+++ b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
@@ -321,6 +321,11 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
     // (usually significantly smaller part of computations)
     //=======================================================================
     if (padding_top || padding_left || padding_bot || padding_right) {
+        // number of output rows and columns affected by padding (never more than the output has)
+        const int border_top = MIN(CEIL_DIV(padding_top, stride_height), (int)out.height);
+        const int border_bot = MIN(CEIL_DIV(padding_bot, stride_height), (int)out.height);
+        const int border_left = MIN(CEIL_DIV(padding_left, stride_width), (int)out.width);
+        const int border_right = MIN(CEIL_DIV(padding_right, stride_width), (int)out.width);
         for(int i = 0; i < 4; i ++) {
             rect_t area;
             auto in_ = in;
@@ -337,11 +342,11 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             if (i == 0) {
                 if (padding_top) {
                     area.row_beg = 0;
-                    area.row_end = CEIL_DIV(padding_top, stride_height);
+                    area.row_end = border_top;
                     area.clmn_beg = 0;
-                    area.clmn_end = out.width - CEIL_DIV(padding_right, stride_width);
+                    area.clmn_end = out.width - border_right;
                     // compensate for cases where kernel size is larger than input size
-                    area.clmn_end = MAX(CEIL_DIV(padding_left, stride_width), (int)area.clmn_end);
+                    area.clmn_end = MAX(border_left, (int)area.clmn_end);
                 } else {
                     continue;
                 }
@@ -349,8 +354,8 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             if (i == 1) {
                 if (padding_right) {
                     int row_beg = 0;
-                    int row_end = out.height - CEIL_DIV(padding_bot, stride_height);
-                    int clmn_beg = out.width - CEIL_DIV(padding_right, stride_width);
+                    int row_end = out.height - border_bot;
+                    int clmn_beg = out.width - border_right;
                     int clmn_end = out.width;
                     // rotate the right padding area to the top
                     area.clmn_beg = row_beg;
@@ -373,9 +378,9 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             }
             if (i == 2) {
                 if (padding_bot) {
-                    int row_beg = out.height - CEIL_DIV(padding_bot, stride_height);
+                    int row_beg = out.height - border_bot;
                     int row_end = out.height;
-                    int clmn_beg = CEIL_DIV(padding_left, stride_width);
+                    int clmn_beg = border_left;
                     int clmn_end = out.width;
                     // rotate the bottom padding area to the top
                     area.clmn_beg = out.width - clmn_end;
@@ -394,10 +399,10 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             }
             if (i == 3) {
                 if (padding_left) {
-                    int row_beg = CEIL_DIV(padding_top, stride_height);
+                    int row_beg = border_top;
                     int row_end = out.height;
                     int clmn_beg = 0;
-                    int clmn_end = CEIL_DIV(padding_left, stride_width);
+                    int clmn_end = border_left;
                     // rotate the left padding area to the top
                     area.clmn_beg = out.height - row_end;
                     area.clmn_end = out.height - row_beg;
-- 
2.43.0


From 97c78a0937c8ab5558ef90b6ae64727fd59cb54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:26 +0000
Subject: [PATCH 07/63] fix: keep the sa8 average pooling offset inside the
 accumulator

With a large output shift (small input to output scale ratio and/or large
window) the shifted offset saturated, so that even an all-zero input did not
give the output zero point.
---
 lib/src/kernels/pooling/mli_krn_pool_hwc.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/src/kernels/pooling/mli_krn_pool_hwc.h b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
index 34202b8..19d9a53 100644
--- a/lib/src/kernels/pooling/mli_krn_pool_hwc.h
+++ b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
@@ -34,6 +34,15 @@ typedef enum {
     SUMPOOL
 } pool_type;
 
+// The output offset is added in the 32 bit accumulator, shifted to the left by the output shift.
+// Limit the shift so that a 9 bit offset fits in the accumulator.
+static MLI_FORCE_INLINE void limit_avepool_shift(int16_t* mul, int* shift) {
+    constexpr int kMaxShift = 23;
+    const int excess = MAX(*shift - kMaxShift, 0);
+    *mul = mli_math_asr_rnd_fx<int16_t>(*mul, excess);
+    *shift -= excess;
+}
+
 template <pool_type type, typename i_T, typename o_T, int fixed_kernel_size, bool convert = false>
 static MLI_FORCE_INLINE void mli_krn_pool_hwc_nopad(
         const int row_beg,
@@ -74,6 +83,7 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_nopad(
                                         mli_math_mul_fx<int16_t, int32_t>(params->scale, mul), &norm_shift);
 #endif
             shift_value -= norm_shift;
+            limit_avepool_shift(&mul, &shift_value);
         } else {
             MLI_ASSERT(params->offset == 0);
             MLI_ASSERT(params->scale  == 1);
@@ -206,6 +216,7 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_compute_pad(
                                                             mli_math_mul_fx<int16_t, int32_t>(params->scale, mul), &norm_shift);
 #endif
                     shift_value -= norm_shift;
+                    limit_avepool_shift(&mul, &shift_value);
                 } else {
                     MLI_ASSERT(params->offset == 0);
                     MLI_ASSERT(params->scale  == 1);
-- 
2.43.0


From 7c3e0a78d316e0fb84059c490104c15e994402bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:23 +0000
Subject: [PATCH 08/63] fix: data move with an offset must not use the
 whole-tensor copy

---
 lib/src/move/mli_mov_api.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 40f95c1..f9c3ccb 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -240,6 +240,7 @@ mli_status mli_mov_prepare(mli_mov_handle_t* h, const mli_tensor* src, const mli
         is_possible_in_single1d_transfer &= no_padding;
         is_possible_in_single1d_transfer &= (cfg->perm_dim[i] == i);
         is_possible_in_single1d_transfer &= (cfg->sub_sample_step[i] == 1);
+        is_possible_in_single1d_transfer &= (cfg->offset[i] == 0) && (cfg->dst_offset[i] == 0);
         stride *= src->shape[i];
     }
 
-- 
2.43.0


From ea084a6497ae5657b829438bfc8b9e449e9e94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:17 +0000
Subject: [PATCH 09/63] fix: do not hand out DMA channels beyond the end of the
 pool

---
 lib/src/move/mli_mov_api.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index f9c3ccb..e37311d 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -384,7 +384,9 @@ mli_status mli_mov_acquire_handle(int num_ch, mli_mov_handle_t* h) {
     mli_status retval = MLI_STATUS_NOT_ENGH_MEM; // TODO: add status for not enough dma channels
     MLI_ASSERT(h != NULL);
     // find first available channel, and check if enough adjacent channels are available.
-    for (int i = dma_pool.base_channel; i < dma_pool.base_channel + dma_pool.pool_size; i++) {
+    // a block of channels must not reach beyond the end of the pool.
+    const int pool_end = dma_pool.base_channel + dma_pool.pool_size;
+    for (int i = dma_pool.base_channel; i < pool_end && i + num_ch <= pool_end; i++) {
         bool found = true;
         for (int ch_cnt = 0; ch_cnt < num_ch; ch_cnt++) {
             found &= (dma_pool.channel_status[i + ch_cnt] == MLI_MOV_DMA_CH_AVAILABLE);
-- 
2.43.0


From 631d9488fef975df5a50a3f32e3cab75d5518542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 10/63] fix: a transfer must not call the callback registered
 for another handle

---
 lib/src/move/mli_mov_api.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index e37311d..21c6d43 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -314,7 +314,8 @@ mli_status mli_mov_start(mli_mov_handle_t* h, const mli_tensor* src, const mli_m
     {
     // in case DMA is not used, but direct copy was done, set state to DONE, and call callback.
         h->state = MLI_MOV_STATE_DONE;
-        if (callbacktable[h->dma_ch].cb != NULL) {
+        // a handle without channels owns no entry of the callback table.
+        if (h->num_ch > 0 && callbacktable[h->dma_ch].cb != NULL) {
             callbacktable[h->dma_ch].cb(callbacktable[h->dma_ch].cookie);
         }
     }
@@ -416,6 +417,8 @@ mli_status mli_mov_release_handle(mli_mov_handle_t* h) {
 
     for (int ch_cnt = 0; ch_cnt < h->num_ch; ch_cnt++) {
         dma_pool.channel_status[h->dma_ch + ch_cnt] = MLI_MOV_DMA_CH_AVAILABLE;
+        // the next owner of the channel must not see the callback of this one.
+        callbacktable[h->dma_ch + ch_cnt].cb = NULL;
     }
     h->state = MLI_MOV_STATE_INVALID;
     h->dma_ch = 0;
-- 
2.43.0


From 7321c62b734d74e11575e6289fe78e7dc160799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:26 +0000
Subject: [PATCH 11/63] fix: check the data move configuration for every
 element type

---
 lib/src/private/src/mli_check.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 3528863..de03924 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2829,6 +2829,15 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
     if (stat != MLI_STATUS_OK) return stat;
 
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
+    //check that the configurations are valid
+    for (uint32_t i=0; i < in->rank; i++) {
+        if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+    }
     if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
         bool fail = false;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
@@ -2846,16 +2855,6 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
                     && (out->el_params.sa.scale_frac_bits.mem.pi8 == nullptr),
                     "El_params data for out tensor wasn`t initialized in a consistent way");
 
-        //check that the configurations are valid
-        for (uint32_t i=0; i < in->rank; i++) {
-            if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-        }
-
         int32_t in_dim = in->el_params.sa.dim;
         int32_t out_dim = 0;
         for (int dim = 0; dim < (int)in->rank; dim++) {
-- 
2.43.0


From 0611b5343081e28f9dc30b2de31c1e5f978f172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:20 +0000
Subject: [PATCH 12/63] fix: compare full addresses when checking tensors for
 overlap

---
 lib/src/private/src/mli_check.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index de03924..2fdd975 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -243,8 +243,11 @@ bool mli_tensor_is_scalar (const mli_tensor * in) {
 }
 
 bool mli_chk_containers_not_overlapped(const mli_data_container & data1, const mli_data_container & data2) {
-    if ((data1.mem.i32 >= (data2.mem.i32 + (int)(data2.capacity))) ||
-        (data2.mem.i32 >= (data1.mem.i32 + (int)(data1.capacity)))) {
+    // Addresses have to be compared in full: pointers might be wider than 32 bits.
+    const uintptr_t start1 = (uintptr_t)data1.mem.pi8;
+    const uintptr_t start2 = (uintptr_t)data2.mem.pi8;
+    if ((start1 >= (start2 + data2.capacity)) ||
+        (start2 >= (start1 + data1.capacity))) {
         return true;
     }
     return false;
-- 
2.43.0


From 9021be56da2401cb1ca6809a4f90ff885ff121c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:20 +0000
Subject: [PATCH 13/63] fix: report the status of a float conversion

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index d9a9e69..83e35df 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -284,7 +284,7 @@ mli_status mli_hlp_convert_tensor(const mli_tensor * src, mli_tensor * dst) {
             ret = MLI_STATUS_TYPE_MISMATCH;
         }
     }
-    return MLI_STATUS_OK;
+    return ret;
 }
 
 const char* mli_hlp_compile_options_string() {
-- 
2.43.0


From e9e08e0135cf4cc3323c63fac75ef43737a59d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:20 +0000
Subject: [PATCH 14/63] fix: use the data pointer of a float tensor in
 point_to_subtensor

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 83e35df..54d8d5c 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -148,7 +148,7 @@ mli_status mli_hlp_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
         out->data.mem.pi16 = in->data.mem.pi16 + size;
         break;
     case MLI_EL_FP_32:
-        out->data.mem.f32 = in->data.mem.f32 + size;
+        out->data.mem.pf32 = in->data.mem.pf32 + size;
         break;
     case MLI_EL_SA_32:
         out->data.mem.pi32 = in->data.mem.pi32 + size;
-- 
2.43.0


From eb616d57452815a37e6bea9c44d02f35c917dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 15/63] fix: keep valid parameters when a subtensor drops its
 quantization axis

---
 lib/src/helpers/src/mli_helpers.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 54d8d5c..f3bdebc 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -237,11 +237,22 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     out->el_params = in->el_params;
 
     if (isAsym){
-        if (out->el_params.sa.dim >= 0) {
+        if (out_asym_dim >= 0) {
             out->el_params.sa.scale.mem.pi16 += out_asym_offset;
             out->el_params.sa.scale_frac_bits.mem.pi8 += out_asym_offset;
             out->el_params.sa.dim = out_asym_dim;
             out->el_params.sa.zero_point.mem.pi16 += out_asym_offset;
+        } else if (in->el_params.sa.dim >= 0) {
+            // The quantization axis had a size of 1 and has been removed:
+            // its only set of parameters applies to the whole output tensor.
+            const uint32_t idx = cfg->offset[in->el_params.sa.dim];
+            out->el_params.sa.scale.mem.i16 = mli_hlp_tensor_scale(in, idx);
+            out->el_params.sa.scale.capacity = 0;
+            out->el_params.sa.scale_frac_bits.mem.i8 = mli_hlp_tensor_scale_shift(in, idx);
+            out->el_params.sa.scale_frac_bits.capacity = 0;
+            out->el_params.sa.zero_point.mem.i16 = mli_hlp_tensor_zero_offset(in, idx);
+            out->el_params.sa.zero_point.capacity = 0;
+            out->el_params.sa.dim = -1;
         }
     }
     return MLI_STATUS_OK;
-- 
2.43.0


From 89109382b5e20555a0b3ecdf56c3fb862bef7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 16/63] fix: shrink the parameter capacities of a subtensor
 with its offset

---
 lib/src/helpers/src/mli_helpers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index f3bdebc..f317cd7 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -239,9 +239,12 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     if (isAsym){
         if (out_asym_dim >= 0) {
             out->el_params.sa.scale.mem.pi16 += out_asym_offset;
+            out->el_params.sa.scale.capacity -= out_asym_offset * sizeof(int16_t);
             out->el_params.sa.scale_frac_bits.mem.pi8 += out_asym_offset;
+            out->el_params.sa.scale_frac_bits.capacity -= out_asym_offset * sizeof(int8_t);
             out->el_params.sa.dim = out_asym_dim;
             out->el_params.sa.zero_point.mem.pi16 += out_asym_offset;
+            out->el_params.sa.zero_point.capacity -= out_asym_offset * sizeof(int16_t);
         } else if (in->el_params.sa.dim >= 0) {
             // The quantization axis had a size of 1 and has been removed:
             // its only set of parameters applies to the whole output tensor.
-- 
2.43.0


From a005d863650731731b5d0fdef8ff03011090a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 17/63] fix: reject subtensor ranks that would drop dimensions
 larger than 1

---
 lib/src/private/src/mli_check.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2fdd975..8f13497 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2814,12 +2814,16 @@ mli_status mli_chk_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     if (MLI_CHECK(cfg->sub_tensor_rank <= in->rank, "incorrect number of coordinates"))
         return MLI_STATUS_BAD_FUNC_CFG;
 
+    uint32_t removable_dims = 0;
     for (int i = 0; i < (int)in->rank; i++) {
         if (MLI_CHECK(cfg->offset[i] < in->shape[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
         if (MLI_CHECK(cfg->offset[i] + cfg->size[i] <= in->shape[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
+        if (cfg->size[i] == 1) removable_dims++;
     }
+    if (MLI_CHECK(cfg->sub_tensor_rank + removable_dims >= in->rank, "Only dimensions of size 1 can be removed"))
+        return MLI_STATUS_BAD_FUNC_CFG;
 
     return MLI_STATUS_OK;
 }
-- 
2.43.0


From 833bd7b53cebd9c20b06a287c2ab7c89da6c8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 18/63] fix: saturate and round large values when quantizing
 floats

---
 lib/src/pal/ref/mli_math.h | 960 +++++++++++++++++++------------------
 1 file changed, 484 insertions(+), 476 deletions(-)

diff --git a/lib/src/pal/ref/mli_math.h b/lib/src/pal/ref/mli_math.h
index 01de2ed..be4a80d 100644
--- a/lib/src/pal/ref/mli_math.h
+++ b/lib/src/pal/ref/mli_math.h
@@ -1,476 +1,484 @@
-/*
-* Copyright 2020-2022, Synopsys, Inc.
-* All rights reserved.
-*
-* This source code is licensed under the BSD-3-Clause license found in
-* the LICENSE file in the root directory of this source tree.
-*
-*/
-
-#ifndef _REF_MLI_MATH_H_
-#define _REF_MLI_MATH_H_
-
-#include <limits>
-#include <type_traits>
-#include "mli_debug.h"
-
-typedef int32_t mli_acc32_t;
-typedef int64_t mli_acc40_t;
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits);
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_limit_fx(T sign) {
-    return sign < (T)0 ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asr_pos_nbits_fx(T x, int nbits)
-{
-    int nbits_max = sizeof(T) * 8 - 1;
-    // This function is internal to this file
-    // and is required to avoid compiler issues.
-    if (nbits > nbits_max)
-        return x < (T)0 ? -1 : 0;
-    return x >> nbits;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asr_fx(T x, int nbits)
-{
-    int nbits_max = sizeof(T) * 8 - 1;
-    int nbits_min = 0;
-    if (nbits > nbits_max)
-        return x < (T)0 ? -1 : 0;
-    if (nbits < nbits_min)
-        return mli_math_asl_fx<T>(x, (-nbits));
-    return x >> nbits;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits)
-{
-    int inp_size = sizeof(T) * 8;
-    T hi = 0;
-
-    if (nbits < 0)
-        return mli_math_asr_pos_nbits_fx<T>(x, (-nbits));
-
-    if (nbits > (inp_size - 1))
-        return x != (T)0 ? mli_math_limit_fx<T>(x) : 0;
-
-    hi = x >> ((inp_size - 1) - nbits);
-    if (hi == (T)0 || hi == (T)-1)
-        return x << nbits;
-
-    return mli_math_limit_fx<T>(hi);
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asr_rnd_fx(T x, int nbits)
-{
-    using unsigned_T = typename std::make_unsigned<T>::type;
-    T r = 0;
-    unsigned_T one = 1u;
-    int nbits_max = sizeof(T) * 8 - 1;
-    int nbits_min = 0;
-
-    if (nbits < nbits_min)
-        return mli_math_asl_fx<T>(x, (-nbits));
-    if (nbits == nbits_min)
-        return x;
-
-    if (nbits > nbits_max)
-        return 0;
-
-    // Rounding up:
-    // if the most significant deleted bit is 1, add 1 to the remaining bits.
-#ifdef ROUND_MODE_UP
-    T round = (T)((one << nbits) >> 1);
-    r = mli_math_add_fx<T>(x, round);
-    r = mli_math_asr_fx<T>(r, nbits);
-#endif
-
-    // Convergent: rounding with half-way value rounded to even value.
-    // If the most significant deleted bit is 1, and 
-    // either the least significant of the remaining bits
-    // or at least one other deleted bit is 1, add 1 to the remaining bits.
-#ifdef ROUND_MODE_CONVERGENT
-    r = mli_math_asr_fx<T>(x, nbits);
-    T last_deleted_mask = (T)((one << nbits) >> 1);
-    if (((x & last_deleted_mask) != (T)0) && 
-            (((r & (T)1) != (T)0) ||  ((x & (last_deleted_mask-(T)1))!= (T)0))) {
-        return mli_math_add_fx<T>(r, 1);
-    }
-#endif
-
-    return r;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asl_rnd_fx(T x, int nbits)
-{
-    return mli_math_asr_rnd_fx<T>(x, -nbits);
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_neg_fx(T x) {
-    return x == std::numeric_limits<T>::lowest() ? std::numeric_limits<T>::max() : -x;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_sat_fx(T x, unsigned nbits)
-{
-    return mli_math_asr_fx<T>(mli_math_asl_fx<T>(x, nbits), nbits);
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_abs_fx(T x)
-{    
-    return x >= (T)0 ? x : mli_math_neg_fx(x);
-}
-
-template <typename T, typename o_T>
-MLI_FORCE_INLINE o_T mli_math_norm_fx(T x)
-{
-    o_T inp_size = sizeof(T) * 8;
-    T hi = x < (T)0 ? (T)-1 : (T)0;
-    o_T r = 0;
-
-    if (x == (T)0)
-        return inp_size - 1;
-
-    while ((x >> r) != hi)
-        r++;
-    return (inp_size - 1) - r;
-}
-
-template<typename in_T, typename out_T>
-MLI_FORCE_INLINE out_T mli_math_norm_cast_fx(in_T val , int32_t *norm_shift) {
-    int32_t cast_shift = (sizeof(in_T) - sizeof(out_T)) * 8;
-    int32_t norm = mli_math_norm_fx<in_T, int32_t>(val);
-    *norm_shift = cast_shift - norm;
-    return mli_math_cast_fx<in_T, out_T>(val, *norm_shift);
-}
-
-// Addition of two fx operands with saturation
-//========================================================================
-template <typename T>
-MLI_FORCE_INLINE T mli_math_add_fx(T L, T R) {
-    if ((R > 0) && (L > std::numeric_limits<T>::max() - R)) // `L + R` would overflow
-        return std::numeric_limits<T>::max();
-    if ((R < 0) && (L < std::numeric_limits<T>::lowest() - R)) // `L + R` would underflow
-        return std::numeric_limits<T>::lowest();
-    return L + R;
-}
-
-// Subtraction of two fx operands with saturation
-//========================================================================
-template <typename T>
-MLI_FORCE_INLINE T mli_math_sub_fx(T L, T R) {
-    if ((R < 0) && (L > std::numeric_limits<T>::max() + R)) // `L - R` would overflow
-        return std::numeric_limits<T>::max();
-    if ((R > 0) && (L < std::numeric_limits<T>::lowest() + R)) // `L - R` would underflow
-        return std::numeric_limits<T>::lowest();
-    return L - R;
-}
-
-// Maximum of two fx operands
-//========================================================================
-template <typename io_T>
-MLI_FORCE_INLINE io_T mli_math_max_fx(io_T L, io_T R) {
-    return (L > R) ? L : R;
-}
-
-template <typename l_T, typename r_T>
-MLI_FORCE_INLINE l_T mli_math_max_fx(l_T L, r_T R) {
-    return (L > R) ? L : R;
-}
-
-// Minimum of two fx operands
-//========================================================================
-template <typename io_T>
-MLI_FORCE_INLINE io_T mli_math_min_fx(io_T L, io_T R) {
-     return (L < R) ? L : R;
-}
-
-// Multiply two operands
-//========================================================================
-template <typename in_T, typename acc_T>
-MLI_FORCE_INLINE acc_T mli_math_mul_fx(in_T L, in_T R) {
-    return L * R;
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mul_fx_high(int32_t L, int32_t R) {
-    // this function takes the MSB part of the result. (L * R) >> 31
-    // in optimized code check if mpyfr instruction is used here.
-    return (mli_acc32_t)(((int64_t)L * (int64_t)R + (int64_t)(1<<30)) >> 31);
-}
-
-template <>
-MLI_FORCE_INLINE int64_t mli_math_mul_fx(int32_t L, int32_t R) {
-    // Result of multiplication is fractional number (shifted left by 1)
-    // To return correct result we shift it right afterward
-    int64_t acc = (int64_t)L * (int64_t)R;
-    return (int64_t) acc;
-}
-
-// Cast scalar to/from void pointer
-//========================================================================
-template < typename out_T > 
-MLI_FORCE_INLINE out_T mli_math_cast_ptr_to_scalar_fx(void *src) {
-    // REMARK: Need to check from C/Cpp standard point of view
-    return static_cast < out_T > ((intptr_t) (src));
-}
-
-template < typename in_T > 
-MLI_FORCE_INLINE void *mli_math_cast_scalar_to_ptr_fx(in_T src) {
-    // REMARK: Need to check from C/Cpp standard point of view
-    intptr_t out_upcast = src;
-    return static_cast < void *>((intptr_t *) out_upcast);
-}
-
-// Comparators
-//========================================================================
-template < typename io_T > 
-MLI_FORCE_INLINE bool mli_prv_less_than_1(io_T value, uint8_t frac_bits) {
-    if (frac_bits >= sizeof(io_T) * 8 - 1)
-        return true;
-
-    io_T unit = (io_T) 1 << frac_bits;
-    return (value < unit);
-}
-
-// Accumulator shift
-//========================================================================
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_acc_ashift_fx(mli_acc32_t acc, int shift_right) {
-    return mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc40_t mli_math_acc_ashift_fx(mli_acc40_t acc, int shift_right) {
-    return mli_math_asr_rnd_fx<mli_acc40_t>(acc, shift_right);
-}
-
-// Arithmetic shift (right is default, left on the negative val)
-//========================================================================
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_ashift_right_fx(int8_t in_val, int shift_right) {
-    int8_t shifted_in_val = mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
-    return shifted_in_val;
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_ashift_right_fx(int16_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int32_t mli_math_ashift_right_fx(int32_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<int32_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int64_t mli_math_ashift_right_fx(int64_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
-}
-
-// Multiply and cast float to accum
-//========================================================================
-
-MLI_FORCE_INLINE int32_t mli_math_float_scale(float value, float scale) {
-    const float round_val = value > 0 ? 0.5f : -0.5f;
-    return (int32_t)(value * scale + round_val);
-}
-
-// Cast accum to output type
-//========================================================================
-template <>
-MLI_FORCE_INLINE int8_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
-    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-    temp = mli_math_asl_fx<int32_t>(temp, 24);
-    return (int8_t) (temp >> 24);
-}
-
-template <> 
-MLI_FORCE_INLINE int16_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
-    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-    temp = mli_math_asl_fx<mli_acc32_t>(temp, 16);
-    return (int16_t) mli_math_sat_fx<mli_acc32_t>(mli_math_asr_fx<mli_acc32_t>(temp, 16), 16);
-}
-
-template <> MLI_FORCE_INLINE mli_acc32_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
-    return (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-}
-
-// Cast value to output type (including accumulator type)
-//========================================================================
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int8_t)mli_math_sat_fx<int16_t>(mli_math_asr_rnd_fx<int16_t>(in_val, shift_right), 8);
-}
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(int8_t in_val, int shift_right) {
-    return (int8_t)mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int8_t in_val, int shift_right) {
-    return (int16_t)mli_math_asr_rnd_fx<int16_t>((int16_t)in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int16_t)mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
-    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, shift_right);
-    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
-}
-
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val) {
-    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, 24);
-    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
-    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
-    return (int16_t)mli_math_sat_fx<int32_t>(temp, 16);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val) {
-    return (int16_t)mli_math_sat_fx<int32_t>(in_val, 16);
-}
-
-template <>
-MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
-    return (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(int64_t in_val, int shift_right) {
-    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>((int64_t)in_val, shift_right);
-    return (int8_t)mli_math_sat_fx<int64_t>(temp, 56);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val, int shift_right) {
-    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
-    return (int16_t)mli_math_sat_fx<int64_t>(temp, 48);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val) {
-    return (int16_t)mli_math_sat_fx<int64_t>(in_val, 48);
-}
-
-template <>
-MLI_FORCE_INLINE int32_t mli_math_cast_fx(int64_t in_val, int shift_right) {
-    in_val = mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
-    return (int32_t)mli_math_sat_fx<int64_t>(in_val, 32);
-}
-
-template <>
-MLI_FORCE_INLINE float mli_math_cast_fx(int32_t in_val, int shift_right) {
-    return (float)in_val / (float)(1 << shift_right);
-}
-
-
-// Multipliers used to apply scale factors in asymetric data types
-//========================================================================
-template <typename acc_T, bool asym_data>
-MLI_FORCE_INLINE mli_acc32_t mli_math_scale_mul(mli_acc32_t accu, int32_t mul) {
-    if (asym_data) {
-        return accu = mli_math_mul_fx_high<int32_t, int32_t>(accu, mul);
-    }else{
-        return accu;
-    }
-}
-
-template <typename b_T, typename acc_T, bool asym_data>
-MLI_FORCE_INLINE acc_T mli_math_init_accu(b_T bias, int32_t bias_mul, int bias_shift) {
-    acc_T accu = mli_math_mul_fx<b_T, acc_T>(bias, asym_data ? 2 : 1); // extra factor of 2 needed because scale mul cannot multiply by 1.
-    accu = mli_math_acc_ashift_fx(accu, -bias_shift);
-    accu = mli_math_scale_mul<acc_T, asym_data>(accu, bias_mul);
-    return accu;
-}
-
-template<typename io_T, typename lr_T>
-MLI_FORCE_INLINE io_T mli_math_bound_range_fx(io_T in, lr_T L, lr_T R) {
-    io_T out;
-    out = mli_math_max_fx(in, L);
-    out = mli_math_min_fx(out, R);
-    return out;
-}
-
-
-// Multiply-and-accumulate operands
-//========================================================================
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int8_t R) {
-    return acc + (mli_acc32_t) (L * R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int16_t R) {
-    return acc + (mli_acc32_t) (L * R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int8_t R) {
-    return acc + (mli_acc32_t)(L * (int16_t)R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int16_t R) {
-    return acc + (mli_acc32_t)((int16_t)L * R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc40_t mli_math_mac_fx(mli_acc40_t acc, int16_t L, int16_t R) {
-    return acc + (mli_acc40_t) ((int32_t)L * (int32_t)R);
-}
-
-// Number of lanes in a vector
-//========================================================================
-template <typename T>
-MLI_FORCE_INLINE int get_number_lanes() {
-    int lanes = 0;
-    if (  std::is_same<T, int8_t>::value
-       || std::is_same<T, int16_t>::value
-       || std::is_same<T, int32_t>::value
-       || std::is_same<T, mli_acc40_t>::value
-       || std::is_same<T, int64_t>::value
-       || std::is_same<T, uint8_t>::value
-       || std::is_same<T, uint16_t>::value
-       || std::is_same<T, uint32_t>::value
-       || std::is_same<T, uint64_t>::value) {
-        lanes = 1;
-    }
-    MLI_ASSERT(lanes > 0);
-    return lanes;
-}
-
-template <typename T>
-MLI_FORCE_INLINE int get_number_lanes(T dummy) {
-    return get_number_lanes<T>();
-}
-
-#endif // _REF_MLI_MATH_H_
+/*
+* Copyright 2020-2022, Synopsys, Inc.
+* All rights reserved.
+*
+* This source code is licensed under the BSD-3-Clause license found in
+* the LICENSE file in the root directory of this source tree.
+*
+*/
+
+#ifndef _REF_MLI_MATH_H_
+#define _REF_MLI_MATH_H_
+
+#include <limits>
+#include <type_traits>
+#include "mli_debug.h"
+
+typedef int32_t mli_acc32_t;
+typedef int64_t mli_acc40_t;
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits);
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_limit_fx(T sign) {
+    return sign < (T)0 ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asr_pos_nbits_fx(T x, int nbits)
+{
+    int nbits_max = sizeof(T) * 8 - 1;
+    // This function is internal to this file
+    // and is required to avoid compiler issues.
+    if (nbits > nbits_max)
+        return x < (T)0 ? -1 : 0;
+    return x >> nbits;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asr_fx(T x, int nbits)
+{
+    int nbits_max = sizeof(T) * 8 - 1;
+    int nbits_min = 0;
+    if (nbits > nbits_max)
+        return x < (T)0 ? -1 : 0;
+    if (nbits < nbits_min)
+        return mli_math_asl_fx<T>(x, (-nbits));
+    return x >> nbits;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits)
+{
+    int inp_size = sizeof(T) * 8;
+    T hi = 0;
+
+    if (nbits < 0)
+        return mli_math_asr_pos_nbits_fx<T>(x, (-nbits));
+
+    if (nbits > (inp_size - 1))
+        return x != (T)0 ? mli_math_limit_fx<T>(x) : 0;
+
+    hi = x >> ((inp_size - 1) - nbits);
+    if (hi == (T)0 || hi == (T)-1)
+        return x << nbits;
+
+    return mli_math_limit_fx<T>(hi);
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asr_rnd_fx(T x, int nbits)
+{
+    using unsigned_T = typename std::make_unsigned<T>::type;
+    T r = 0;
+    unsigned_T one = 1u;
+    int nbits_max = sizeof(T) * 8 - 1;
+    int nbits_min = 0;
+
+    if (nbits < nbits_min)
+        return mli_math_asl_fx<T>(x, (-nbits));
+    if (nbits == nbits_min)
+        return x;
+
+    if (nbits > nbits_max)
+        return 0;
+
+    // Rounding up:
+    // if the most significant deleted bit is 1, add 1 to the remaining bits.
+#ifdef ROUND_MODE_UP
+    T round = (T)((one << nbits) >> 1);
+    r = mli_math_add_fx<T>(x, round);
+    r = mli_math_asr_fx<T>(r, nbits);
+#endif
+
+    // Convergent: rounding with half-way value rounded to even value.
+    // If the most significant deleted bit is 1, and 
+    // either the least significant of the remaining bits
+    // or at least one other deleted bit is 1, add 1 to the remaining bits.
+#ifdef ROUND_MODE_CONVERGENT
+    r = mli_math_asr_fx<T>(x, nbits);
+    T last_deleted_mask = (T)((one << nbits) >> 1);
+    if (((x & last_deleted_mask) != (T)0) && 
+            (((r & (T)1) != (T)0) ||  ((x & (last_deleted_mask-(T)1))!= (T)0))) {
+        return mli_math_add_fx<T>(r, 1);
+    }
+#endif
+
+    return r;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asl_rnd_fx(T x, int nbits)
+{
+    return mli_math_asr_rnd_fx<T>(x, -nbits);
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_neg_fx(T x) {
+    return x == std::numeric_limits<T>::lowest() ? std::numeric_limits<T>::max() : -x;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_sat_fx(T x, unsigned nbits)
+{
+    return mli_math_asr_fx<T>(mli_math_asl_fx<T>(x, nbits), nbits);
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_abs_fx(T x)
+{    
+    return x >= (T)0 ? x : mli_math_neg_fx(x);
+}
+
+template <typename T, typename o_T>
+MLI_FORCE_INLINE o_T mli_math_norm_fx(T x)
+{
+    o_T inp_size = sizeof(T) * 8;
+    T hi = x < (T)0 ? (T)-1 : (T)0;
+    o_T r = 0;
+
+    if (x == (T)0)
+        return inp_size - 1;
+
+    while ((x >> r) != hi)
+        r++;
+    return (inp_size - 1) - r;
+}
+
+template<typename in_T, typename out_T>
+MLI_FORCE_INLINE out_T mli_math_norm_cast_fx(in_T val , int32_t *norm_shift) {
+    int32_t cast_shift = (sizeof(in_T) - sizeof(out_T)) * 8;
+    int32_t norm = mli_math_norm_fx<in_T, int32_t>(val);
+    *norm_shift = cast_shift - norm;
+    return mli_math_cast_fx<in_T, out_T>(val, *norm_shift);
+}
+
+// Addition of two fx operands with saturation
+//========================================================================
+template <typename T>
+MLI_FORCE_INLINE T mli_math_add_fx(T L, T R) {
+    if ((R > 0) && (L > std::numeric_limits<T>::max() - R)) // `L + R` would overflow
+        return std::numeric_limits<T>::max();
+    if ((R < 0) && (L < std::numeric_limits<T>::lowest() - R)) // `L + R` would underflow
+        return std::numeric_limits<T>::lowest();
+    return L + R;
+}
+
+// Subtraction of two fx operands with saturation
+//========================================================================
+template <typename T>
+MLI_FORCE_INLINE T mli_math_sub_fx(T L, T R) {
+    if ((R < 0) && (L > std::numeric_limits<T>::max() + R)) // `L - R` would overflow
+        return std::numeric_limits<T>::max();
+    if ((R > 0) && (L < std::numeric_limits<T>::lowest() + R)) // `L - R` would underflow
+        return std::numeric_limits<T>::lowest();
+    return L - R;
+}
+
+// Maximum of two fx operands
+//========================================================================
+template <typename io_T>
+MLI_FORCE_INLINE io_T mli_math_max_fx(io_T L, io_T R) {
+    return (L > R) ? L : R;
+}
+
+template <typename l_T, typename r_T>
+MLI_FORCE_INLINE l_T mli_math_max_fx(l_T L, r_T R) {
+    return (L > R) ? L : R;
+}
+
+// Minimum of two fx operands
+//========================================================================
+template <typename io_T>
+MLI_FORCE_INLINE io_T mli_math_min_fx(io_T L, io_T R) {
+     return (L < R) ? L : R;
+}
+
+// Multiply two operands
+//========================================================================
+template <typename in_T, typename acc_T>
+MLI_FORCE_INLINE acc_T mli_math_mul_fx(in_T L, in_T R) {
+    return L * R;
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mul_fx_high(int32_t L, int32_t R) {
+    // this function takes the MSB part of the result. (L * R) >> 31
+    // in optimized code check if mpyfr instruction is used here.
+    return (mli_acc32_t)(((int64_t)L * (int64_t)R + (int64_t)(1<<30)) >> 31);
+}
+
+template <>
+MLI_FORCE_INLINE int64_t mli_math_mul_fx(int32_t L, int32_t R) {
+    // Result of multiplication is fractional number (shifted left by 1)
+    // To return correct result we shift it right afterward
+    int64_t acc = (int64_t)L * (int64_t)R;
+    return (int64_t) acc;
+}
+
+// Cast scalar to/from void pointer
+//========================================================================
+template < typename out_T > 
+MLI_FORCE_INLINE out_T mli_math_cast_ptr_to_scalar_fx(void *src) {
+    // REMARK: Need to check from C/Cpp standard point of view
+    return static_cast < out_T > ((intptr_t) (src));
+}
+
+template < typename in_T > 
+MLI_FORCE_INLINE void *mli_math_cast_scalar_to_ptr_fx(in_T src) {
+    // REMARK: Need to check from C/Cpp standard point of view
+    intptr_t out_upcast = src;
+    return static_cast < void *>((intptr_t *) out_upcast);
+}
+
+// Comparators
+//========================================================================
+template < typename io_T > 
+MLI_FORCE_INLINE bool mli_prv_less_than_1(io_T value, uint8_t frac_bits) {
+    if (frac_bits >= sizeof(io_T) * 8 - 1)
+        return true;
+
+    io_T unit = (io_T) 1 << frac_bits;
+    return (value < unit);
+}
+
+// Accumulator shift
+//========================================================================
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_acc_ashift_fx(mli_acc32_t acc, int shift_right) {
+    return mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc40_t mli_math_acc_ashift_fx(mli_acc40_t acc, int shift_right) {
+    return mli_math_asr_rnd_fx<mli_acc40_t>(acc, shift_right);
+}
+
+// Arithmetic shift (right is default, left on the negative val)
+//========================================================================
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_ashift_right_fx(int8_t in_val, int shift_right) {
+    int8_t shifted_in_val = mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
+    return shifted_in_val;
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_ashift_right_fx(int16_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int32_t mli_math_ashift_right_fx(int32_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<int32_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int64_t mli_math_ashift_right_fx(int64_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
+}
+
+// Multiply and cast float to accum
+//========================================================================
+
+MLI_FORCE_INLINE int32_t mli_math_float_scale(float value, float scale) {
+    const float round_val = value > 0 ? 0.5f : -0.5f;
+    const float scaled_val = value * scale;
+    // Floats outside of this range are integers already: adding round_val might only change them.
+    const float integer_only_range = 8388608.0f; // 2^23
+    // Conversion of values out of int32_t range is undefined. Saturate.
+    const float int32_range = 2147483648.0f; // 2^31
+    if (scaled_val >= int32_range) return INT32_MAX;
+    if (scaled_val <= -int32_range) return INT32_MIN;
+    if (scaled_val >= integer_only_range || scaled_val <= -integer_only_range) return (int32_t)scaled_val;
+    return (int32_t)(scaled_val + round_val);
+}
+
+// Cast accum to output type
+//========================================================================
+template <>
+MLI_FORCE_INLINE int8_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
+    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+    temp = mli_math_asl_fx<int32_t>(temp, 24);
+    return (int8_t) (temp >> 24);
+}
+
+template <> 
+MLI_FORCE_INLINE int16_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
+    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+    temp = mli_math_asl_fx<mli_acc32_t>(temp, 16);
+    return (int16_t) mli_math_sat_fx<mli_acc32_t>(mli_math_asr_fx<mli_acc32_t>(temp, 16), 16);
+}
+
+template <> MLI_FORCE_INLINE mli_acc32_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
+    return (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+}
+
+// Cast value to output type (including accumulator type)
+//========================================================================
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(int16_t in_val, int shift_right) {
+    return (int8_t)mli_math_sat_fx<int16_t>(mli_math_asr_rnd_fx<int16_t>(in_val, shift_right), 8);
+}
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(int8_t in_val, int shift_right) {
+    return (int8_t)mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int8_t in_val, int shift_right) {
+    return (int16_t)mli_math_asr_rnd_fx<int16_t>((int16_t)in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int16_t in_val, int shift_right) {
+    return (int16_t)mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
+    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, shift_right);
+    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
+}
+
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val) {
+    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, 24);
+    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
+    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
+    return (int16_t)mli_math_sat_fx<int32_t>(temp, 16);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val) {
+    return (int16_t)mli_math_sat_fx<int32_t>(in_val, 16);
+}
+
+template <>
+MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
+    return (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(int64_t in_val, int shift_right) {
+    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>((int64_t)in_val, shift_right);
+    return (int8_t)mli_math_sat_fx<int64_t>(temp, 56);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val, int shift_right) {
+    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
+    return (int16_t)mli_math_sat_fx<int64_t>(temp, 48);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val) {
+    return (int16_t)mli_math_sat_fx<int64_t>(in_val, 48);
+}
+
+template <>
+MLI_FORCE_INLINE int32_t mli_math_cast_fx(int64_t in_val, int shift_right) {
+    in_val = mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
+    return (int32_t)mli_math_sat_fx<int64_t>(in_val, 32);
+}
+
+template <>
+MLI_FORCE_INLINE float mli_math_cast_fx(int32_t in_val, int shift_right) {
+    return (float)in_val / (float)(1 << shift_right);
+}
+
+
+// Multipliers used to apply scale factors in asymetric data types
+//========================================================================
+template <typename acc_T, bool asym_data>
+MLI_FORCE_INLINE mli_acc32_t mli_math_scale_mul(mli_acc32_t accu, int32_t mul) {
+    if (asym_data) {
+        return accu = mli_math_mul_fx_high<int32_t, int32_t>(accu, mul);
+    }else{
+        return accu;
+    }
+}
+
+template <typename b_T, typename acc_T, bool asym_data>
+MLI_FORCE_INLINE acc_T mli_math_init_accu(b_T bias, int32_t bias_mul, int bias_shift) {
+    acc_T accu = mli_math_mul_fx<b_T, acc_T>(bias, asym_data ? 2 : 1); // extra factor of 2 needed because scale mul cannot multiply by 1.
+    accu = mli_math_acc_ashift_fx(accu, -bias_shift);
+    accu = mli_math_scale_mul<acc_T, asym_data>(accu, bias_mul);
+    return accu;
+}
+
+template<typename io_T, typename lr_T>
+MLI_FORCE_INLINE io_T mli_math_bound_range_fx(io_T in, lr_T L, lr_T R) {
+    io_T out;
+    out = mli_math_max_fx(in, L);
+    out = mli_math_min_fx(out, R);
+    return out;
+}
+
+
+// Multiply-and-accumulate operands
+//========================================================================
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int8_t R) {
+    return acc + (mli_acc32_t) (L * R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int16_t R) {
+    return acc + (mli_acc32_t) (L * R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int8_t R) {
+    return acc + (mli_acc32_t)(L * (int16_t)R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int16_t R) {
+    return acc + (mli_acc32_t)((int16_t)L * R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc40_t mli_math_mac_fx(mli_acc40_t acc, int16_t L, int16_t R) {
+    return acc + (mli_acc40_t) ((int32_t)L * (int32_t)R);
+}
+
+// Number of lanes in a vector
+//========================================================================
+template <typename T>
+MLI_FORCE_INLINE int get_number_lanes() {
+    int lanes = 0;
+    if (  std::is_same<T, int8_t>::value
+       || std::is_same<T, int16_t>::value
+       || std::is_same<T, int32_t>::value
+       || std::is_same<T, mli_acc40_t>::value
+       || std::is_same<T, int64_t>::value
+       || std::is_same<T, uint8_t>::value
+       || std::is_same<T, uint16_t>::value
+       || std::is_same<T, uint32_t>::value
+       || std::is_same<T, uint64_t>::value) {
+        lanes = 1;
+    }
+    MLI_ASSERT(lanes > 0);
+    return lanes;
+}
+
+template <typename T>
+MLI_FORCE_INLINE int get_number_lanes(T dummy) {
+    return get_number_lanes<T>();
+}
+
+#endif // _REF_MLI_MATH_H_
-- 
2.43.0


From b0de383d790f0b062af1b4a8ae5d6c46dccfa52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:34 +0000
Subject: [PATCH 19/63] fix: reject float conversions from or to unsupported
 element types

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index f317cd7..e66b756 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -292,7 +292,7 @@ mli_status mli_hlp_convert_tensor(const mli_tensor * src, mli_tensor * dst) {
             ret = mli::hlp::convert_float_data<int16_t>(src, dst, mode);
         } else if (src->el_type == MLI_EL_SA_32 || dst->el_type == MLI_EL_SA_32) {
             ret = mli::hlp::convert_float_data<int32_t>(src, dst, mode);
-        } else if (src->el_type == MLI_EL_FP_32 || dst->el_type == MLI_EL_FP_32) {
+        } else if (src->el_type == MLI_EL_FP_32 && dst->el_type == MLI_EL_FP_32) {
             ret = mli::hlp::convert_float_data<float>(src, dst, mode);
         } else {
             ret = MLI_STATUS_TYPE_MISMATCH;
-- 
2.43.0


From 3d1698c43d47800ea4b47f8446b5cf60ece41e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 20/63] fix: compute the required tensor capacity in 64 bits
 when checking tensors

---
 lib/src/private/src/mli_check.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 8f13497..19d4b80 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -84,19 +84,19 @@ static MLI_FORCE_INLINE mli_status check_tensor_private(
     }
     if (fail) return MLI_STATUS_BAD_TENSOR;
 
-    int size = 1;
-    int previous_shape = 1;
-    int previous_mem_stride = 1;
+    // 64 bits: shapes and strides are only known to fit in 32 bits each.
+    int64_t size = 1;
+    int64_t previous_shape = 1;
+    int64_t previous_mem_stride = 1;
     for (int i = rank - 1; i >= 0; i--) {
         fail |= MLI_CHECK(mem_stride[i] >= (previous_shape * previous_mem_stride), "Tensor mem stride too small");
         previous_shape = shape[i];
         previous_mem_stride = mem_stride[i];
         size += (previous_shape - 1) * previous_mem_stride;
     }
-    size *= element_size;
 
     if (fail) return MLI_STATUS_BAD_TENSOR;
-    fail |= MLI_CHECK((int)capacity >= size, "Insufficient tensor capacity");
+    fail |= MLI_CHECK(capacity >= (uint64_t)size * element_size, "Insufficient tensor capacity");
     if (fail) return MLI_STATUS_NOT_ENGH_MEM;
     return MLI_STATUS_OK;
 }
-- 
2.43.0


From 5779bc511127a33721590d0696ea511de419b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 21/63] fix: check the rank of the argmax output

---
 lib/src/private/src/mli_check.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 19d4b80..601493b 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2947,6 +2947,8 @@ mli_status mli_chk_argmax(const mli_tensor *in, const mli_argmax_cfg *cfg, mli_t
     if (fail) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check out shape
+    fail |= MLI_CHECK(out->rank == 2, "Wrong output rank");
+    if (fail) return MLI_STATUS_SHAPE_MISMATCH;
     fail |= MLI_CHECK(out->shape[0] == dim_size, "Out shape[0] should equal dim size");
     fail |= MLI_CHECK((int)out->shape[1] == cfg->topk, "Out shape[1] should equal topk");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-- 
2.43.0


From ed88faee3498b8855ba634348ab201e1d6d307de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 22/63] fix: check the rank of the permute output

---
 lib/src/private/src/mli_check.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 601493b..2db4e6e 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2655,6 +2655,9 @@ mli_status mli_chk_permute (const mli_tensor * in, const mli_permute_cfg * cfg,
     // Check config structure
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
+    if (MLI_CHECK(out->rank == in->rank, "Wrong output rank"))
+        return MLI_STATUS_SHAPE_MISMATCH;
+
     for (int idx = 0; idx < (int)in->rank; idx++) {
         if (MLI_CHECK(cfg->perm_dim[idx] < in->rank, "Rank mismatch"))
             return MLI_STATUS_BAD_FUNC_CFG;
-- 
2.43.0


From eb55029178a1391a5875a812db363ed1a7af7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 23/63] fix: apply PReLU and L2 normalization to the whole
 tensor for any negative axis

---
 lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h | 2 +-
 lib/src/kernels/transform/mli_krn_prelu.cc                | 6 +++---
 lib/src/private/src/mli_check.cc                          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
index 4785a94..9400ec7 100644
--- a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
@@ -192,7 +192,7 @@ static MLI_FORCE_INLINE mli_status mli_krn_l2_normalize_run(const mli_tensor *in
     }
 
     /* Per Tensor Case */
-    if ( cfg->axis == -1 ) {
+    if ( cfg->axis < 0 ) {
         int shape = mli_prv_squash_tensor_to_one_dim(in, out);
         if (shape) {
             int norm_shift;
diff --git a/lib/src/kernels/transform/mli_krn_prelu.cc b/lib/src/kernels/transform/mli_krn_prelu.cc
index 16749cc..88f1ad8 100644
--- a/lib/src/kernels/transform/mli_krn_prelu.cc
+++ b/lib/src/kernels/transform/mli_krn_prelu.cc
@@ -26,7 +26,7 @@ mli_status mli_krn_prelu_fx8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int8_t>(in, slope_coeff, cfg, out);
@@ -41,7 +41,7 @@ mli_status mli_krn_prelu_fx16(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx16(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int16_t>(in, slope_coeff, cfg, out);
@@ -56,7 +56,7 @@ mli_status mli_krn_prelu_sa8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_sa8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_sa8_run(in, slope_coeff, cfg, out);
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2db4e6e..3358e49 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1934,7 +1934,7 @@ mli_status mli_chk_prelu (
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         // Check that slope tensors is valid scalar
         stat = MLI_CHECK_STATUS(mli_chk_scalar_tensor (slope_coeff), "Slope should be scalar tensor");
     } else {
@@ -1952,7 +1952,7 @@ mli_status mli_chk_prelu (
     if (MLI_CHECK(cfg->axis < (int)in->rank, "Wrong Axis Configuration")) return MLI_STATUS_BAD_FUNC_CFG;
     fail |= MLI_CHECK(check_inner_most_dimension_is_one(in),
                       "Memory stride of the innermost dimension should be equal to 1 for the input tensor");
-    if (cfg->axis != -1) {
+    if (cfg->axis >= 0) {
         fail |= MLI_CHECK(check_inner_most_dimension_is_one(slope_coeff),
                       "Memory stride of the innermost dimension should be equal to 1 for the slope_coeff tensor");
         /* slope tensor must be of the same shape of input tensor at axis and others should be 1 */
-- 
2.43.0


From 13e76a2687040a8cd9558ca12bd185c843d0c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 24/63] fix: do not read past the shape of a tensor of invalid
 rank

---
 lib/src/private/src/mli_check.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 3358e49..e2fffe8 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -238,6 +238,7 @@ mli_status mli_chk_scalar_tensor (const mli_tensor * in) {
 bool mli_tensor_is_scalar (const mli_tensor * in) {
     if (in == NULL) return false;
     if (in->rank == 0) return true;
+    if (in->rank > MLI_MAX_RANK) return false;
     if (mli_prv_count_elem_num(in) == 1) return true;
     return false;
 }
-- 
2.43.0


From 151fca38023203c5fb0a8c9e4711bb2d06132a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 25/63] fix: avoid wrap-around when checking the region of a
 sub-tensor

---
 lib/src/private/src/mli_check.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index e2fffe8..1cfc058 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2822,7 +2822,7 @@ mli_status mli_chk_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     for (int i = 0; i < (int)in->rank; i++) {
         if (MLI_CHECK(cfg->offset[i] < in->shape[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
-        if (MLI_CHECK(cfg->offset[i] + cfg->size[i] <= in->shape[i], "bad config"))
+        if (MLI_CHECK(cfg->size[i] <= in->shape[i] - cfg->offset[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
         if (cfg->size[i] == 1) removable_dims++;
     }
-- 
2.43.0


From a2bc88237f8007406b3f2420b30164ad3aa9d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 26/63] fix: do not divide by zero when checking group
 convolution shapes

---
 lib/src/private/src/mli_check.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 1cfc058..85d01fe 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -756,10 +756,12 @@ mli_status mli_chk_group_conv2d_hwcn(
     fail |= MLI_CHECK(out->rank == 3, "Wrong output rank");
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
     fail |= MLI_CHECK(bias->rank == 1, "Wrong bias rank");
+    if (fail) return MLI_STATUS_SHAPE_MISMATCH;
     fail |= MLI_CHECK(bias->shape[0] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch bias and weights");
 
     int group_count = in->shape[FMAP_C_DIM_HWC] / weights->shape[KRNL_D_DIM_HWCN];
     fail |= MLI_CHECK(in->shape[FMAP_C_DIM_HWC] % weights->shape[KRNL_D_DIM_HWCN] == 0, "Input channel count must be multiple of group count");
+    if (fail) return MLI_STATUS_SHAPE_MISMATCH;
     fail |= MLI_CHECK(weights->shape[KRNL_C_DIM_HWCN] % group_count == 0, "Number of filters must be multiple of group count");
     fail |= MLI_CHECK(out->shape[FMAP_C_DIM_HWC] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch out and weights");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-- 
2.43.0


From 82503ae217f7b5356e61d39d3b496793b749cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 27/63] fix: treat any negative quantization axis as per-tensor
 quantization

---
 lib/src/bricks/impl/mli_krn_rnn_dense_op_ref.h | 4 ++--
 lib/src/move/mli_mov_api.cc                    | 2 +-
 lib/src/private/src/mli_check.cc               | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/bricks/impl/mli_krn_rnn_dense_op_ref.h b/lib/src/bricks/impl/mli_krn_rnn_dense_op_ref.h
index 1e169eb..abc748d 100644
--- a/lib/src/bricks/impl/mli_krn_rnn_dense_op_ref.h
+++ b/lib/src/bricks/impl/mli_krn_rnn_dense_op_ref.h
@@ -42,7 +42,7 @@ static inline void adjust_weights_scale_for_rnn_dense(
 static inline void adjust_weights_scale_for_rnn_dense(
     s8asym_quant_specific_params* params,
     s8asym_quant_specific_params* initial_params) {
-	if (initial_params->weight_dim != -1) {
+	if (initial_params->weight_dim >= 0) {
         params->weight_scales++;
         params->weight_shifts++;
     }
@@ -59,7 +59,7 @@ static inline void adjust_weights_scale_back_for_rnn_dense(
     s8asym_quant_specific_params* params,
     s8asym_quant_specific_params* initial_params,
     int gates) {
-	if(initial_params->weight_dim != -1) {
+	if(initial_params->weight_dim >= 0) {
         params->weight_scales -= gates;
         params->weight_shifts -= gates;
     }
diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 21c6d43..6b54f3e 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -133,7 +133,7 @@ mli_status mli_mov_prepare(mli_mov_handle_t* h, const mli_tensor* src, const mli
         dst->mem_stride[i] = 0;
     }
 
-    if ((src->el_type == MLI_EL_SA_8 || src->el_type == MLI_EL_SA_32) && (src->el_params.sa.dim != -1)) {
+    if ((src->el_type == MLI_EL_SA_8 || src->el_type == MLI_EL_SA_32) && (src->el_params.sa.dim >= 0)) {
         for (int dim = 0; dim < rank; dim++) {
             if (pdim[dim] == src->el_params.sa.dim) {
                 dst->el_params.sa.dim = dim;
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 85d01fe..31cf54d 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2851,7 +2851,7 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
         if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
             return MLI_STATUS_BAD_FUNC_CFG;
     }
-    if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
+    if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim >= 0)) {
         bool fail = false;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
             fail |= MLI_CHECK((out->el_params.sa.scale.mem.pi16 == in->el_params.sa.scale.mem.pi16)
-- 
2.43.0


From 02da2c21c742d1ef20d0d7ab443a0373975d2407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 28/63] fix: reject in-place conversion between containers of
 different size

---
 lib/src/private/src/mli_check.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 31cf54d..9eeb3a7 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2762,7 +2762,7 @@ mli_status mli_chk_convert_tensor(const mli_tensor *in, mli_tensor *out) {
     if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
 
     // Check when output data points to the same memory as input, they have an equal container size.
-    if (mli_hlp_tensor_data_ptr_cmp(in, out))
+    if (in->data.mem.pi8 == out->data.mem.pi8)
         fail |= MLI_CHECK(mli_hlp_tensor_element_size(in) == mli_hlp_tensor_element_size(out) && check_mem_stride_matches(in, out),
                           "In-place computation is permitted only when tensors have the same container size and mem_stride.");
     if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
-- 
2.43.0


From 14db23bdfae6dd0f91d56411622ec580f6d65a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 29/63] fix: weights zero points of every output channel in MLI
 3.0 convolutions

The kernels documented as sum(in * (w - w_zp)) used the zero point of the first channel for all
channels (depthwise) or ignored it (general and transpose convolution), and the padding term did
not account for the input channels.
---
 lib/src/bricks/impl/mli_prv_quant_ref.h       | 34 +++++++++++++++++--
 lib/src/bricks/mli_prv_quant_decl.h           |  8 +++++
 .../impl/mli_krn_convolution_ref.h            | 14 ++++++--
 3 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/lib/src/bricks/impl/mli_prv_quant_ref.h b/lib/src/bricks/impl/mli_prv_quant_ref.h
index 2071d0f..e7b425f 100644
--- a/lib/src/bricks/impl/mli_prv_quant_ref.h
+++ b/lib/src/bricks/impl/mli_prv_quant_ref.h
@@ -135,6 +135,7 @@ MLI_FORCE_INLINE void define_quant_params(const mli_tensor *in, const mli_tensor
 template <>
 MLI_FORCE_INLINE void define_quant_params(const mli_tensor *in, const mli_tensor  *weights, const mli_tensor  *bias,
                                 const mli_tensor *out, int_quant_specific_params* params) {
+    params->weights_offsets = nullptr;
     if (in->el_params.sa.dim >= 0) {
         // per axis quantization
         params->in_offset = in->el_params.sa.zero_point.mem.pi16[0];
@@ -186,6 +187,15 @@ MLI_FORCE_INLINE void adjust_quant_params(fx_quant_specific_params* in, int krn_
     return;
 }
 
+template <>
+MLI_FORCE_INLINE void adjust_quant_params(int_quant_specific_params* params, int krn_idx) {
+    // weights zero point can be different across output channels
+    if (params->weights_offsets != nullptr) {
+        params->weights_offset = params->weights_offsets[krn_idx];
+    }
+    return;
+}
+
 MLI_FORCE_INLINE int16_t quant_params_get_weigths_zeropoint(s8asym_quant_specific_params* params) {
     return params->weights_offset;
 }
@@ -360,6 +370,23 @@ MLI_FORCE_INLINE mli_acc32_t in_additive(
     }
 }
 
+template <>
+MLI_FORCE_INLINE mli_acc32_t in_additive(
+        const MLI_PTR(int8_t) __restrict in, mli_acc32_t init_accum,
+        const int_quant_specific_params* quant_params,
+        const int width, const int height, const int ch, int col_step, int row_step, int ch_step) {
+    // returns -(wights_zero_point * cumsum(input))
+    if (quant_params->weights_offset != 0) {
+        for (int c = 0; c < ch; c++) {
+            init_accum = reduce_sum2D(in, -quant_params->weights_offset, init_accum, width, height, /*channels = */0, col_step, row_step);
+            in += ch_step;
+        }
+        return init_accum;
+    } else {
+        return init_accum;
+    }
+}
+
 //==========================================================================
 // Calculation of zero points additive (zp_add) in
 // dot_prod_asym = dot_prod_gen + w_add + in_add + zp_add + bias_add
@@ -705,9 +732,10 @@ MLI_FORCE_INLINE void define_quant_params(
         // not supported yet
         MLI_ASSERT(false);
     } else {
-        // If only weights zero points are all zero
-        params->weights_offset = get_per_channel_zp<w_T>(
-            weights.zp, weights.t.get_dim(weights.quant_axis))[0];
+        // weights zero point of a specific output channel is selected by adjust_quant_params()
+        params->weights_offsets = get_per_channel_zp<w_T>(
+            weights.zp, weights.t.get_dim(weights.quant_axis));
+        params->weights_offset = params->weights_offsets[0];
     }
 }
 
diff --git a/lib/src/bricks/mli_prv_quant_decl.h b/lib/src/bricks/mli_prv_quant_decl.h
index 866669f..cff07d1 100644
--- a/lib/src/bricks/mli_prv_quant_decl.h
+++ b/lib/src/bricks/mli_prv_quant_decl.h
@@ -80,6 +80,7 @@ struct fx_quant_specific_params {
 struct int_quant_specific_params {
     int16_t in_offset;
     int16_t weights_offset;
+    const int8_t* weights_offsets; // zero points per output channel, nullptr if weights_offset is common for all of them
 };
 
 typedef union _conv_math_params {
@@ -114,6 +115,8 @@ template <>
 MLI_FORCE_INLINE void adjust_quant_params(s8asym_quant_specific_params* params, int krn_idx);
 template <>
 MLI_FORCE_INLINE void adjust_quant_params(fx_quant_specific_params* in, int krn_idx);
+template <>
+MLI_FORCE_INLINE void adjust_quant_params(int_quant_specific_params* params, int krn_idx);
 
 MLI_FORCE_INLINE int16_t quant_params_get_weigths_zeropoint(s8asym_quant_specific_params* params);
 
@@ -172,6 +175,11 @@ MLI_FORCE_INLINE mli_acc32_t in_additive(const MLI_PTR(int8_t) __restrict in,
         mli_acc32_t init_accum, const s8asym_quant_specific_params* quant_params,
         const int width, const int height, const int ch, int col_step, int row_step, int ch_step);
 
+template <>
+MLI_FORCE_INLINE mli_acc32_t in_additive(const MLI_PTR(int8_t) __restrict in,
+        mli_acc32_t init_accum, const int_quant_specific_params* quant_params,
+        const int width, const int height, const int ch, int col_step, int row_step, int ch_step);
+
 template <typename acc_T, typename quant_T>
 MLI_FORCE_INLINE acc_T zp_additive(const quant_T*,
         acc_T init_accum, const int);
diff --git a/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h b/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
index 44ee99b..376ff3c 100644
--- a/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
+++ b/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
@@ -106,8 +106,14 @@ MLI_FORCE_INLINE void convolution2D(
                           weights.col_mem_stride, weights.row_mem_stride, weights.in_ch_mem_stride,
                           &accu);
 
+                if (!has_bias) {
+                    // weights zero point can be different across output channels
+                    mli::krn::adjust_quant_params(&quant_params, out_ch_idx);
+                }
+
                 accu = mli::krn::in_additive(in_ptr , accu, &quant_params, clmns, rows, in.ch,
-                                       in.col_mem_stride, in.row_mem_stride, in.ch_mem_stride);
+                                       in.col_mem_stride * dilation_width, in.row_mem_stride * dilation_height,
+                                       in.ch_mem_stride);
 
                 o_T out_val;
 
@@ -164,7 +170,7 @@ MLI_FORCE_INLINE void convolution2D(
                         // out_val = 0 - (-out_val - sum_i(w_zp*x_zp))
                         accu = ::mli::krn::ref::zp_additive(
                             &quant_params, mli_math_sub_fx<acc_T>(zero, accu),
-                            (weights_full.kernel_height * weights_full.kernel_width) - (clmns * rows));
+                            ((weights_full.kernel_height * weights_full.kernel_width) - (clmns * rows)) * in.ch);
                         accu = mli_math_sub_fx<acc_T>(zero, accu);
                     }
 
@@ -256,6 +262,10 @@ MLI_FORCE_INLINE void depthwise_convolution2D(
                 accu = mli::krn::dotprod2D(in_ptr, w_ptr, accu, clmns, rows,
                                            in.col_mem_stride * dilation_width, in.row_mem_stride * dilation_height,
                                            weights.col_mem_stride, weights.row_mem_stride);
+                if (!has_bias) {
+                    // weights zero point can be different across output channels
+                    mli::krn::adjust_quant_params(&quant_params, out_ch_idx);
+                }
                 accu  = mli::krn::in_additive(in_ptr, accu, &quant_params,
                                               clmns, rows,
                                               in.col_mem_stride * dilation_width,
-- 
2.43.0


From c9f1655ae05afc457b1c70354e5a5bbc096b778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:21 +0000
Subject: [PATCH 30/63] fix: weights zero points in MLI 3.0 fully connected

Zero points encoded by EncodeWeightsAndZeroPts are 8 bit but were read as 16 bit, and the zero
point of the first output channel was used for all of them.
---
 include/internal/mli_ref_private_types.hpp    |  2 +
 .../impl/mli_krn_fully_connected_runtime.cc   | 59 +++++++++----------
 2 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/include/internal/mli_ref_private_types.hpp b/include/internal/mli_ref_private_types.hpp
index 9856d89..5e68dfc 100644
--- a/include/internal/mli_ref_private_types.hpp
+++ b/include/internal/mli_ref_private_types.hpp
@@ -174,6 +174,8 @@ struct FullyConnectedMetadata {
     mli_tensor input;
     mli_tensor weights;
     mli_tensor output;
+    InternalBuffer weights_zp;  // one zero point for all output channels or one per output channel
+    bool weights_zp_per_channel;
 };
 
 class MovePrivateData : public PrivateData {
diff --git a/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc b/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc
index 9df7a55..0a4f44f 100644
--- a/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc
+++ b/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc
@@ -95,31 +95,16 @@ FullyConnected::FullyConnected(void* kernel_private_data_buffer,
     tsr.mem_stride[0] = private_data.weights_ic_stride;
     tsr.mem_stride[1] = private_data.weights_oc_stride;
 
-    // weights zero point should have the same size as the tensor they belong to.
-    uint32_t wtszp_elem_size = sizeof(int16_t);
-    uint32_t wtszp_size = private_data.wtszp_buffer.get_size();
-
-    // per-channel quantization
-    // TODO: change zp to support both int8_t and int16_t (now zero int16_t value casted to int8_t and back to int16_t here )
-    if (wtszp_size / wtszp_elem_size > 1) {
-      MLI_ASSERT(private_data.qt_wtszp_axis < MLI_MAX_RANK);
-      MLI_ASSERT(private_data.weights_oc == wtszp_size / wtszp_elem_size);
-      tsr.el_params.sa.dim = private_data.qt_wtszp_axis;
-
-      tsr.el_params.sa.zero_point.capacity = wtszp_size;
-      InternalBuffer wtszp_internal(private_data.wtszp_buffer, membases, num_mems);
-      wtszp_internal.set_elem_size(sizeof(int16_t));
-      tsr.el_params.sa.zero_point.mem.pi16 = wtszp_internal.get_ptr<int16_t>();
-    } else {
-      // per-tensor quantization
-      MLI_ASSERT(1 == wtszp_size / wtszp_elem_size);
-      tsr.el_params.sa.dim = private_data.qt_wtszp_axis;
-      tsr.el_params.sa.zero_point.capacity = 0;
-
-      InternalBuffer wtszp_internal(private_data.wtszp_buffer, membases, num_mems);
-      wtszp_internal.set_elem_size(sizeof(int16_t));
-      tsr.el_params.sa.zero_point.mem.i16 = wtszp_internal.read<int16_t>(0);
-    }
+    // Zero points are selected for each output channel in Issue(): they are 8 bit if encoded together with
+    // weights (EncodeWeightsAndZeroPts) and 16 bit if encoded separately (EncodeWtsZeroPts).
+    tsr.el_params.sa.dim = -1;
+    tsr.el_params.sa.zero_point.capacity = 0;
+    tsr.el_params.sa.zero_point.mem.i16 = 0;
+    MLI_ASSERT(private_data.qt_wtszp_axis < MLI_MAX_RANK);
+    m_metadata.weights_zp = InternalBuffer(private_data.wtszp_buffer, membases, num_mems);
+    m_metadata.weights_zp_per_channel = private_data.qt_wtszp_axis >= 0;
+    MLI_ASSERT(m_metadata.weights_zp.get_size() / m_metadata.weights_zp.get_elem_size() >=
+               (m_metadata.weights_zp_per_channel ? private_data.weights_oc : 1));
   }
 }
 
@@ -129,11 +114,25 @@ mli_status FullyConnected::Issue() {
       m_o_elem_size == sizeof(int32_t)) {
         mli_fully_connected_cfg cfg = { MLI_RELU_NONE };
         MLI_ASSERT(cfg.relu.type == MLI_RELU_NONE);
-        ::mli::krn::fully_connected_prepare_and_run<
-            int8_t, int8_t, int32_t, int32_t, mli_8x8_accu_t,
-            ::mli::krn::int_quant_specific_params, true>(
-            &m_metadata.input, &m_metadata.weights,
-            /* bias */ nullptr, &cfg, &m_metadata.output);
+        // Each output channel has its own zero point of weights
+        for (uint32_t oc = 0; oc < m_metadata.weights.shape[1]; ++oc) {
+          mli_tensor weights = m_metadata.weights;
+          weights.shape[1] = 1;
+          weights.data.mem.pi8 += (int32_t)oc * weights.mem_stride[1];
+          const uint32_t zp_idx = m_metadata.weights_zp_per_channel ? oc : 0;
+          weights.el_params.sa.zero_point.mem.i16 =
+              (m_metadata.weights_zp.get_elem_size() == sizeof(int8_t))
+              ? m_metadata.weights_zp.read<int8_t>(zp_idx) : m_metadata.weights_zp.read<int16_t>(zp_idx);
+
+          mli_tensor output = m_metadata.output;
+          output.shape[1] = 1;
+          output.data.mem.pi32 += (int32_t)oc * output.mem_stride[1];
+          ::mli::krn::fully_connected_prepare_and_run<
+              int8_t, int8_t, int32_t, int32_t, mli_8x8_accu_t,
+              ::mli::krn::int_quant_specific_params, true>(
+              &m_metadata.input, &weights,
+              /* bias */ nullptr, &cfg, &output);
+        }
   } else {
     // datatype is not supported yet
     return MLI_STATUS_NOT_SUPPORTED;
-- 
2.43.0


From 5f67e4b47430fd6c08533e3766804c366225c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:21 +0000
Subject: [PATCH 31/63] fix: zero point range, output strides and right tile
 offsets of MLI 3.0 MatMul

---
 lib/src/kernels/convolution/mli_krn_matmul_ref.hpp  | 13 ++++++++-----
 .../kernels/convolution/mli_krn_matmul_runtime.cc   |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
index 126205f..be40911 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
+++ b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
@@ -45,8 +45,9 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   MLI_ASSERT(encoded_params.get_elem_size() == sizeof(int8_t));
   MLI_ASSERT(encoded_params.get_size() == kMatMulRank);
 
-  in1_t val1;
-  in2_t val2;
+  // difference between value and zero point doesn't fit into the input type
+  out_t val1;
+  out_t val2;
   out_t acc;
 
   /**
@@ -60,17 +61,19 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   uint32_t left_w = in_left.get_dim(kMatMulWidthDim);
   int32_t left_mem_strides[kMatMulRank];
   int32_t right_mem_strides[kMatMulRank];
+  int32_t out_mem_strides[kMatMulRank];
   in_left.get_mem_strides(left_mem_strides);
   in_right.get_mem_strides(right_mem_strides);
+  output.get_mem_strides(out_mem_strides);
   for(uint32_t left_height_index = 0; left_height_index < left_h; ++left_height_index) {
     for (uint32_t right_width_index = 0; right_width_index < right_w; ++right_width_index) {
       acc = 0;
       for (uint32_t left_width_index = 0, right_height_index = 0; left_width_index < left_w; ++left_width_index, ++right_height_index) {
-          val1 = in_left.template read<in1_t>(left_height_index * left_mem_strides[0] + left_width_index) - in_left_zp;
-          val2 = in_right.template read<in2_t>(right_height_index * right_mem_strides[0] + right_width_index) - in_right_zp;
+          val1 = in_left.template read<in1_t>(left_height_index * left_mem_strides[0] + left_width_index * left_mem_strides[1]) - in_left_zp;
+          val2 = in_right.template read<in2_t>(right_height_index * right_mem_strides[0] + right_width_index * right_mem_strides[1]) - in_right_zp;
           acc += val1 * val2;
       }
-        output.template write<out_t>( left_height_index * right_w + right_width_index, static_cast<out_t>(acc) );
+        output.template write<out_t>( left_height_index * out_mem_strides[0] + right_width_index * out_mem_strides[1], static_cast<out_t>(acc) );
     }
   }
 }
diff --git a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
index b4acf02..81b610d 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
@@ -92,7 +92,7 @@ void MatMul::GetIOSizesAndOffsets(uint32_t input_left_size[kMatMulRank], uint32_
                                   int32_t output_offsets[kMatMulRank]) const{
   
   m_input_left.get_pos(input_left_offsets);
-  m_input_left.get_pos(input_right_offsets);
+  m_input_right.get_pos(input_right_offsets);
   m_output.get_pos(output_offsets);
   
   m_tile_input_left.get_dims(input_left_size);
-- 
2.43.0


From a3f4ef9f3c4eb233d652f426556a6c5a90090c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 32/63] fix: process every batch of an MLI 3.0 depthwise
 convolution tile

The tensors handed to the kernel kept pointing at the first batch, so every
other batch of a tile was left unwritten.
---
 .../kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
index 0ad28b2..90bfda5 100644
--- a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
@@ -82,8 +82,6 @@ mli_status DepthwiseConv2d::Issue() {
     InternalBuffer out_buf = m_tile_output.get_buf();
     InternalBuffer curr_inp_buf(inp_buf);
     InternalBuffer curr_out_buf(out_buf);
-    m_tile_input.set_buf(curr_inp_buf);
-    m_tile_output.set_buf(curr_out_buf);
 
     QTensor<InternalBuffer, kDepthwiseIORank> qinput{
       m_tile_input, m_metadata.inpzp_buffer, m_metadata.inp_quant_axis};
@@ -92,6 +90,8 @@ mli_status DepthwiseConv2d::Issue() {
 
 
     for (uint32_t i = 0; i < m_tile_batch_size; i++) {
+      qinput.t.set_buf(curr_inp_buf);
+      m_tile_output.set_buf(curr_out_buf);
       conv2d_prepare_and_run<int8_t, int8_t, int32_t, mli_8x8_accu_t, LAYOUT_HWC,
                             ::mli::CONV_DEPTHWISE, kDepthwiseIORank,
                             kDepthwiseWRank, DwConv2DConfig>(
-- 
2.43.0


From 5e7909334825f3ad5530e76320bfaf7f2bb8ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 33/63] fix: buffer iterator of tensors with fewer dimensions
 than the iterator

---
 include/mli_iterator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 96f8092..ddb101e 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -514,16 +514,21 @@ class BufferIterator {
                    const IteratorCfg<iterRank>& cfg)
         : m_buffer_offset{0} {
       m_buffer_size = 1;
+      for (uint32_t i = 0; i < iterRank; i++) {
+        m_first_offset_inc[i] = m_offset_inc[i] = m_last_offset_inc[i] = 0;
+        m_buffer_dec[i] = 0;
+      }
       for (uint32_t i = 0; i < iterRank; i++) {
         int32_t axis = cfg.get_order(i);
-        if (axis == kSkipIterDim) continue;
+        // iteration dimensions which are skipped or which the tensor doesn't have never move the offset
+        if (axis == kSkipIterDim || axis >= (int32_t)tensorRank) continue;
 
         uint32_t buffer_dim = MAX(cfg.get_size(axis), cfg.get_first_size(axis));
         // If tiles number equals to 0, that means attached buffer calculated for
         // full tensor, otherwise - for number of tiles. Also if dimension of the
         // tensor/tile is 1 or 0, that simply means that dimension doesn't exist
         // in terms of buffer, so offset must be 0.
-        if (cfg.get_buf_tiles_num() == 0 && full_tensor.get_dim(i) > 1) {
+        if (cfg.get_buf_tiles_num() == 0 && full_tensor.get_dim(axis) > 1) {
           m_first_offset_inc[axis] = cfg.get_first_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
           m_offset_inc[axis] = cfg.get_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
           m_last_offset_inc[axis] = cfg.get_last_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
-- 
2.43.0


From 3a2ce47e9a3dd4e8bebd874d0d770a47839c30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:31 +0000
Subject: [PATCH 34/63] fix: rescale of 8-bit values and from 32-bit to 32-bit
 values

---
 .../conversion/impl/mli_krn_rescale_ref.hpp   |  5 +++--
 .../conversion/mli_krn_rescale_runtime.cc     | 19 +++++++------------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp b/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
index 39fa599..bead770 100644
--- a/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
@@ -29,8 +29,9 @@ static MLI_FORCE_INLINE o_T rescale_value(
     constexpr int max_shift_left = -63;
     int32_t shift = MAX(max_shift_left, MIN(shift_right, max_shift_right));
 
-    i_T value = mli_math_sub_fx(in_val, in_bias);
-    int64_t scaled_value = mli_math_mul_fx<int32_t, int64_t> (static_cast<int32_t>(value),
+    // difference of two 8-bit values doesn't fit into 8 bits
+    const int32_t value = mli_math_sub_fx(static_cast<int32_t>(in_val), static_cast<int32_t>(in_bias));
+    int64_t scaled_value = mli_math_mul_fx<int32_t, int64_t> (value,
                                                               static_cast<int32_t>(scale));
     scaled_value = mli_math_ashift_right_fx(scaled_value, shift);
     scaled_value = mli_math_add_fx(scaled_value, static_cast<int64_t>(out_bias));
diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index 855e7cb..c9660ee 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -177,11 +177,6 @@ mli_status Rescale::Issue() {
             else if (out_elem_size == sizeof(int16_t)) {
                 MLI_ASSERT(0);
             }
-            break;
-        case (sizeof(int16_t)):
-            if (out_elem_size == sizeof(int8_t)) {
-                MLI_ASSERT(0);
-            }
             else if (out_elem_size == sizeof(int32_t)) {
               mli_krn::mli_krn_rescale<int32_t, int32_t>(&m_tile_metadata.input,
                                                          &m_tile_metadata.in_bias,
@@ -206,13 +201,13 @@ mli_status Rescale::Issue() {
                 MLI_ASSERT(0);
             }
             else if (out_elem_size == sizeof(int32_t)) {
-              mli_krn::mli_krn_rescale<int32_t, int32_t>(&m_tile_metadata.input,
-                                                         &m_tile_metadata.in_bias,
-                                                         &m_tile_metadata.scale,
-                                                         &m_tile_metadata.shift,
-                                                         &m_tile_metadata.out_bias,
-                                                         m_tile_metadata.rescale_axis,
-                                                         &m_tile_metadata.output);
+              mli_krn::mli_krn_rescale<int8_t, int32_t>(&m_tile_metadata.input,
+                                                        &m_tile_metadata.in_bias,
+                                                        &m_tile_metadata.scale,
+                                                        &m_tile_metadata.shift,
+                                                        &m_tile_metadata.out_bias,
+                                                        m_tile_metadata.rescale_axis,
+                                                        &m_tile_metadata.output);
             }
             break;
         default:
-- 
2.43.0


From 7c3b47830f48095237fc1e65212307a94c07a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:16 +0000
Subject: [PATCH 35/63] fix: single tile iterator of tensors with fewer
 dimensions than the iterator

---
 include/mli_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index ddb101e..5513573 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -61,8 +61,8 @@ class IteratorCfg {
         m_diff_code[i] = SZ0_SZ0_SZ0;
       }
       for (uint32_t i = tensorRank; i < iterRank; ++i) {
-        m_order[i] = i;
-        m_count[i] = kSkipIterDim;
+        m_order[i] = kSkipIterDim;
+        m_count[i] = 1;
         m_size[i] = m_first_size[i] = m_last_size[i] = 0;
         m_pos_inc[i] = m_first_pos_inc[i] = m_last_pos_inc[i] = 0;
         m_diff_code[i] = SZ0_SZ0_SZ0;
-- 
2.43.0


From b56730f4fcf6a0be1630af0403b51caea4a9d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 36/63] fix: element types of 8-bit input and 32-bit output
 biases of rescale

The bias tensors were typed SA_32/SA_8 whatever their data, which trips the
checks of builds with assertions.
---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index c9660ee..e5caf92 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -99,7 +99,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.in_bias.data.mem.pi8 = encoded_params_internal.get_ptr<int8_t>();
       }
       encoded_params_internal.inc(m_tile_param_max_size);
-      m_tile_metadata.in_bias.el_type = MLI_EL_SA_32;
+      m_tile_metadata.in_bias.el_type = MLI_EL_SA_8;
     }
     else {
         MLI_ASSERT(0);
@@ -151,7 +151,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.out_bias.rank = 1;
         m_tile_metadata.out_bias.data.mem.pi32 = encoded_params_internal.get_ptr<int32_t>();
       }
-      m_tile_metadata.out_bias.el_type = MLI_EL_SA_8;
+      m_tile_metadata.out_bias.el_type = MLI_EL_SA_32;
     }
     else {
         MLI_ASSERT(0);
-- 
2.43.0


From c0903796667059254ca4da643a1a6e9bc89dc3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 37/63] fix: ranks accepted by the reductions in builds with
 assertions

Tensors of lower ranks are supported and extended to the maximum rank, the
assertions rejected all of them.
---
 lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp | 4 ++--
 lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp b/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp
index 5755b75..ec1f0ac 100644
--- a/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp
@@ -32,8 +32,8 @@ mli_status MLI_FORCE_INLINE mli_reduce_max(const mli_tensor *in,
 
     constexpr int kMaxSupportedRank = 4;
 
-    MLI_ASSERT(kMaxSupportedRank <= in_prv.rank);
-    MLI_ASSERT(kMaxSupportedRank <= out_prv.rank);
+    MLI_ASSERT(kMaxSupportedRank >= in_prv.rank);
+    MLI_ASSERT(kMaxSupportedRank >= out_prv.rank);
 
     // for tensors with rank less than kMaxSupportedRank, the tensor is automatically extended to the  kMaxSupportedRank but with dim = 0
     // any dim = 0 should be dim = 1 to be able to go inside it 
diff --git a/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp b/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp
index eab7db3..e7e502c 100644
--- a/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp
@@ -32,8 +32,8 @@ mli_status MLI_FORCE_INLINE mli_reduce_sum(const mli_tensor *in,
     auto in_prv = mli_prv_get_generic_tensor<MLI_PTR(io_T)>(in);
     auto out_prv = mli_prv_get_generic_tensor<MLI_OUT_PTR(io_T)>(out);
 
-    MLI_ASSERT(static_cast<int>(kReduceSumRank) <= in_prv.rank);
-    MLI_ASSERT(static_cast<int>(kReduceSumRank) <= out_prv.rank);
+    MLI_ASSERT(static_cast<int>(kReduceSumRank) >= in_prv.rank);
+    MLI_ASSERT(static_cast<int>(kReduceSumRank) >= out_prv.rank);
 
     // for tensors with rank less than kReduceSumRank, the tensor is automatically extended to the  kReduceSumRank but with dim = 0
     // any dim = 0 should be dim = 1 to be able to go inside it 
-- 
2.43.0


From 9883e814ff1b22986e52e87dd691380892c01bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:46 +0000
Subject: [PATCH 38/63] fix: element-wise operators used uninitialised shift
 parameters

The run-time objects are built in memory supplied by the user; the
quantization parameters of the tile tensors were never set.
---
 include/api/mli_ref_runtime_api.hpp | 30 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/api/mli_ref_runtime_api.hpp b/include/api/mli_ref_runtime_api.hpp
index d57471f..7f1f968 100644
--- a/include/api/mli_ref_runtime_api.hpp
+++ b/include/api/mli_ref_runtime_api.hpp
@@ -460,9 +460,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -516,9 +516,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -572,9 +572,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -629,9 +629,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -685,9 +685,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
-- 
2.43.0


From 40fef4a67d1f5742faf38bb517f101d4b9540a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:00 +0000
Subject: [PATCH 39/63] fix: PReLU parameters along an axis other than the
 channels

The size and the layout of the encoded parameters always followed the
channel dimension, whatever axis was configured.
---
 lib/src/kernels/transform/mli_krn_prelu_compiler.cc | 10 ++++++----
 lib/src/kernels/transform/mli_krn_prelu_runtime.cc  |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/src/kernels/transform/mli_krn_prelu_compiler.cc b/lib/src/kernels/transform/mli_krn_prelu_compiler.cc
index 1a3b7bf..29c11ec 100644
--- a/lib/src/kernels/transform/mli_krn_prelu_compiler.cc
+++ b/lib/src/kernels/transform/mli_krn_prelu_compiler.cc
@@ -64,7 +64,8 @@ Prelu_CS::Prelu_CS(const lib_mli::PlatformDescription pd,
     output.get_mem_strides(out_stride);
     
     // size_in_bytes = No.of elements multplied by params elements' sizes
-    m_encoded_params_buffer_size = in_shape[io_rank - 1] *
+    const uint32_t params_dim = cfg.axis < 0 ? io_rank - 1 : cfg.axis;
+    m_encoded_params_buffer_size = in_shape[params_dim] *
             (sizeof(int32_t) + sizeof(int16_t) + sizeof(int16_t) + sizeof(int8_t) + sizeof(int8_t) + sizeof(int8_t));
 }
 
@@ -93,9 +94,10 @@ mli_status Prelu_CS::GetKernelPrivateData( void *kernel_private_data_buffer ) {
     opaque_obj.output = m_output;
     opaque_obj.encoded_params_buffer = m_encoded_params;
     
-    opaque_obj.tile_params_max_elem_num = (uint32_t) MAX(m_input.get_config().get_first_inc(io_rank - 1),
-                                                         m_input.get_config().get_inc(io_rank - 1));
-    if (!opaque_obj.tile_params_max_elem_num) opaque_obj.tile_params_max_elem_num = m_input.get_tensor().get_dim(kGroupTensorChannelDim);
+    const uint32_t params_dim = m_config.axis < 0 ? io_rank - 1 : m_config.axis;
+    opaque_obj.tile_params_max_elem_num = (uint32_t) MAX(m_input.get_config().get_first_inc(params_dim),
+                                                         m_input.get_config().get_inc(params_dim));
+    if (!opaque_obj.tile_params_max_elem_num) opaque_obj.tile_params_max_elem_num = m_input.get_tensor().get_dim(params_dim);
     MLI_ASSERT(opaque_obj.tile_params_max_elem_num > 0);
     // Prelu configuration
     opaque_obj.prelu_axis = m_config.axis;
diff --git a/lib/src/kernels/transform/mli_krn_prelu_runtime.cc b/lib/src/kernels/transform/mli_krn_prelu_runtime.cc
index caf1fbc..4aba515 100644
--- a/lib/src/kernels/transform/mli_krn_prelu_runtime.cc
+++ b/lib/src/kernels/transform/mli_krn_prelu_runtime.cc
@@ -127,7 +127,8 @@ mli_status Prelu::Update() {
 
 void Prelu::GetIOSizesAndOffsets(uint32_t &enc_param_size, uint32_t &inp_bias_offset, uint32_t &posscale_offset, uint32_t &negscale_offset,
                                  uint32_t &posshift_offset, uint32_t &negshift_offset, uint32_t &out_bias_offset) {
-  enc_param_size = m_tile_metadata.input.get_dim(kGroupTensorChannelDim);
+  const int32_t axis = m_tile_metadata.prelu_axis;
+  enc_param_size = m_tile_metadata.input.get_dim(axis < 0 ? kGroupTensorChannelDim : axis);
   inp_bias_offset = 0;
   posscale_offset = m_tile_param_max_size * sizeof(int32_t);
   negscale_offset = posscale_offset + m_tile_param_max_size * sizeof(int16_t);
-- 
2.43.0


From 3dfca93de983c34718e4611d4268e32d0346659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 40/63] fix: bilinear resize read before the input for offsets
 beyond one pixel

---
 lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp b/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
index 13b722d..fb3b996 100644
--- a/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
@@ -40,13 +40,13 @@ mli_status mli_resize_bilinear(const mli_tensor* in, const ResizeOpConfig& cfg,
             row_int = row_fx >> cfg.shift;
             delta_row_fx = row_fx - (row_int << cfg.shift);
             input_row0_int = MIN(MAX(row_int, 0), in_prv.shape[kTensorHeightDim] - 1);
-            input_row1_int = MIN(row_int + 1, in_prv.shape[kTensorHeightDim] - 1);
+            input_row1_int = MIN(MAX(row_int + 1, 0), in_prv.shape[kTensorHeightDim] - 1);
             for (w = 0; w < out_prv.shape[kTensorWidthDim]; w++) {
                 col_fx = w * cfg.stride[1] + cfg.offset[1];
                 col_int = col_fx >> cfg.shift;
                 delta_col_fx = col_fx - (col_int << cfg.shift);
                 input_col0_int = MIN(MAX(col_int, 0), in_prv.shape[kTensorWidthDim] - 1);
-                input_col1_int = MIN(col_int + 1, in_prv.shape[kTensorWidthDim] - 1);
+                input_col1_int = MIN(MAX(col_int + 1, 0), in_prv.shape[kTensorWidthDim] - 1);
                 for (c = 0; c < out_prv.shape[kTensorChannelDim]; c++) {
                     // read the nearest 4 input values around the output point
                     v00 = mli_prv_tensor_read(in_prv, b, input_row0_int, input_col0_int, c);
-- 
2.43.0


From ee3a3c5b629375baeb18fdb474d359600996cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 41/63] fix: limits of the resize parameters overflowed for
 shift 11 in builds with assertions

---
 lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc | 2 +-
 lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc b/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
index 0da0183..daeacbc 100644
--- a/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
+++ b/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
@@ -30,7 +30,7 @@ ResizeBilinear_CS::ResizeBilinear_CS(const lib_mli::PlatformDescription pd,
   }
  
   // resizing factor is limited to x16 upscaling
-  const int16_t val_16_fx = 16 << cfg.shift;
+  const int32_t val_16_fx = 16 << cfg.shift;
   MLI_ASSERT(m_cfg.stride[0] < val_16_fx);
   MLI_ASSERT(m_cfg.stride[1] < val_16_fx);
 
diff --git a/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc b/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
index 2f04745..c321992 100644
--- a/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
+++ b/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
@@ -31,7 +31,7 @@ void run_mli_resize_bilinear_standalone(const mli_tensor* in, const ResizeOpConf
     MLI_ASSERT(cfg.stride[1] > (1 << (cfg.shift - 4)));
   }
   // resizing factor is limited to x16 upscaling
-  const int16_t val_16_fx = 16 << cfg.shift;
+  const int32_t val_16_fx = 16 << cfg.shift;
   MLI_ASSERT(cfg.stride[0] < val_16_fx);
   MLI_ASSERT(cfg.stride[1] < val_16_fx);
 
-- 
2.43.0


From d04059452204d1bc6a5f7eba9a78d4ab3b7994e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:59 +0000
Subject: [PATCH 42/63] fix: PReLU chose the wrong branch when value minus bias
 overflows

---
 lib/src/kernels/transform/impl/mli_krn_prelu_ref.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
index 906d347..2d9266c 100644
--- a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
@@ -431,7 +431,7 @@ static MLI_FORCE_INLINE void compute_prelu_per_axis(
                         const int param_idx = pos[prelu_axis];
                         i_T in_val = mli_prv_tensor_read<i_T>(in, pos[0], pos[1], pos[2], pos[3], pos[4]);
                         o_T out_val;
-                        if(in_val - in_bias[param_idx] >= 0) {
+                        if(in_val >= in_bias[param_idx]) {
                             out_val = scale_value(in_val, in_bias[param_idx],
                                                   out_bias[param_idx], posscale[param_idx],
                                                   posshift[param_idx]);
@@ -470,7 +470,7 @@ static MLI_FORCE_INLINE void compute_prelu_per_tensor(
                     for (pos[4] = 0; pos[4] < in.get_dim(4); pos[4]++) {
                         i_T in_val = mli_prv_tensor_read<i_T>(in, pos[0], pos[1], pos[2], pos[3], pos[4]);
                         o_T out_val;
-                        if(in_val - in_bias >= 0) {
+                        if(in_val >= in_bias) {
                             out_val = scale_value(in_val, in_bias,
                                                   out_bias, posscale, posshift);
                         } else {
-- 
2.43.0


From a246adee4c118317e97656009864ebad37af553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 43/63] fix: permute run-time object ignored 16-bit tensors

---
 lib/src/kernels/diverse/mli_krn_permute_runtime.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
index c103cc5..9079af7 100644
--- a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
+++ b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
@@ -114,6 +114,18 @@ mli_status Permute::Issue() {
             }
             break;
 
+        case (sizeof(int16_t)):
+            for(uint32_t i = 0; i < kPermuteRank; i++) {
+                cfg.perm_dim[i] = m_perm_dim[i];
+            }
+            if(sa_el_type == true) {
+                mli_ref::mli_krn_permute_run<int16_t, true>(&m_metadata.m_tile_input, &cfg, &m_metadata.m_tile_output);
+            }
+            else {
+                mli_ref::mli_krn_permute_run<int16_t, false>(&m_metadata.m_tile_input, &cfg, &m_metadata.m_tile_output);
+            }
+            break;
+
         case (sizeof(int8_t)):
             for(uint32_t i = 0; i < kPermuteRank; i++) {
                 cfg.perm_dim[i] = m_perm_dim[i];
-- 
2.43.0


From 22b9121112349861ac4fd76d927f02b748083914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 44/63] fix: permute used uninitialised quantization parameters

---
 include/internal/mli_ref_private_types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/internal/mli_ref_private_types.hpp b/include/internal/mli_ref_private_types.hpp
index 5e68dfc..df2f9b1 100644
--- a/include/internal/mli_ref_private_types.hpp
+++ b/include/internal/mli_ref_private_types.hpp
@@ -295,8 +295,8 @@ struct PermuteMetadata
 {
     TensorIterator<OffsetBuffer, kPermuteRank, kPermuteIterRank> m_input;
     TensorIterator<OffsetBuffer, kPermuteRank, kPermuteIterRank> m_output;
-    mli_tensor m_tile_input;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input{};
+    mli_tensor m_tile_output{};
 };
 
 class ReduceSumPrivateData : public PrivateData {
-- 
2.43.0


From 918cf256ce7916bc7199966153e1cc60aade627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:45 +0000
Subject: [PATCH 45/63] fix: zero increments moved the buffer offset of tensor
 iterators

---
 include/mli_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 5513573..d6d9dcb 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -529,9 +529,9 @@ class BufferIterator {
         // tensor/tile is 1 or 0, that simply means that dimension doesn't exist
         // in terms of buffer, so offset must be 0.
         if (cfg.get_buf_tiles_num() == 0 && full_tensor.get_dim(axis) > 1) {
-          m_first_offset_inc[axis] = cfg.get_first_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
-          m_offset_inc[axis] = cfg.get_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
-          m_last_offset_inc[axis] = cfg.get_last_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
+          m_first_offset_inc[axis] = cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
+          m_offset_inc[axis] = cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
+          m_last_offset_inc[axis] = cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
 
         } else {
           m_first_offset_inc[axis] = 0;
-- 
2.43.0


From 382e0732735d15f24e81e9a344c9c948778f0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 46/63] fix: buffer offset at the end of a dimension which is
 reset by its last increment

---
 include/mli_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index d6d9dcb..4f64ed6 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -539,9 +539,9 @@ class BufferIterator {
           m_last_offset_inc[axis] = 0;
           m_buffer_size *= buffer_dim;
         }
-        m_buffer_dec[axis] = cfg.get_buf_tiles_num() == 0
-                             ? full_tensor.get_dim(axis) * full_tensor.get_mem_stride(axis)
-                             : buffer_dim * full_tensor.get_mem_stride(axis);
+        // only an increment past the end of the dimension has to be taken back at the end
+        if (m_last_offset_inc[axis] > 0)
+          m_buffer_dec[axis] = full_tensor.get_dim(axis) * full_tensor.get_mem_stride(axis);
       }
     };
 
-- 
2.43.0


From 89774ec5b1192831bf9275995c2fec1f66d36a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 47/63] fix: move of whole tensors without iterator
 configuration copied one element

---
 include/api/mli_ref_compiler_api.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/api/mli_ref_compiler_api.hpp b/include/api/mli_ref_compiler_api.hpp
index a308817..f957266 100644
--- a/include/api/mli_ref_compiler_api.hpp
+++ b/include/api/mli_ref_compiler_api.hpp
@@ -870,8 +870,8 @@ class Move_CS : public lib_mli::Move_CS {
   Move_CS(const lib_mli::PlatformDescription pd,
           const Tensor<NoBuffer, kMoveRank> src,
           const Tensor<NoBuffer, kMoveRank> dst,
-          const IteratorCfg<kMoveIterRank> src_it_cfg = IteratorCfg<kMoveIterRank>(),
-          const IteratorCfg<kMoveIterRank> dst_it_cfg = IteratorCfg<kMoveIterRank>());
+          const IteratorCfg<kMoveIterRank> src_it_cfg,
+          const IteratorCfg<kMoveIterRank> dst_it_cfg);
 
   /**
    * @brief Constructor to create a Move compiler support object.
-- 
2.43.0


From bd7faca75ca83f7643dcbf48abed482c097c2c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 48/63] fix: buffers attached to move through the deprecated
 interface were ignored

---
 include/api/mli_ref_compiler_api.hpp | 3 ---
 lib/src/move/mli_mov_compiler.cc     | 4 ++--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/api/mli_ref_compiler_api.hpp b/include/api/mli_ref_compiler_api.hpp
index f957266..c35ef4f 100644
--- a/include/api/mli_ref_compiler_api.hpp
+++ b/include/api/mli_ref_compiler_api.hpp
@@ -910,9 +910,6 @@ private:
   TensorIterator<OffsetBuffer, kMoveRank, kMoveIterRank> m_src_it;
   TensorIterator<OffsetBuffer, kMoveRank, kMoveIterRank> m_dst_it;
 
-  OffsetBuffer m_src_offset_buf;
-  OffsetBuffer m_dst_offset_buf;
-
 };
 
 class Add_CS : public lib_mli::Add_CS {
diff --git a/lib/src/move/mli_mov_compiler.cc b/lib/src/move/mli_mov_compiler.cc
index 7ac4e36..1c8d218 100644
--- a/lib/src/move/mli_mov_compiler.cc
+++ b/lib/src/move/mli_mov_compiler.cc
@@ -53,8 +53,8 @@ mli_status Move_CS::GetKernelPrivateData(void *kernel_private_data_buffer) {
 
 mli_status Move_CS::AttachBufferOffsets(const Tensor<OffsetBuffer, kMoveRank> &src,
                                         const Tensor<OffsetBuffer, kMoveRank> &dst) {
-  m_src_offset_buf = src.get_buf();
-  m_dst_offset_buf = dst.get_buf();
+  m_src_it.set_buf(src.get_buf());
+  m_dst_it.set_buf(dst.get_buf());
 
   assert(src.get_elem_size() == dst.get_elem_size());
 
-- 
2.43.0


From 24526ccf17ede17de2e74376dd149bc86600584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:41 +0000
Subject: [PATCH 49/63] fix: padding of tiles of the 3.0 sum pooling was
 dropped after the first tile

---
 lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc b/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
index afd86a2..71036c9 100644
--- a/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
+++ b/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
@@ -137,11 +137,18 @@ void SumPool2D::UpdateTilePaddings() {
   m_input.get_pos(tile_input_offsets);
 
   const auto& input_it_cfg = m_input.get_config();
-  if (tile_input_offsets[kTensorHeightDim]) m_tile_cfg.padding_top = 0;
+
+  int32_t tile_idx[kPoolRank];
+  m_input.get_tile_idx(tile_idx);
+
+  // padding which is left of the first tiles after the input was advanced by their increments
+  const uint32_t used_top = input_it_cfg.get_inc(kTensorHeightDim) * tile_idx[kTensorHeightDim];
+  const uint32_t used_left = input_it_cfg.get_inc(kTensorWidthDim) * tile_idx[kTensorWidthDim];
+  m_tile_cfg.padding_top = m_cfg.padding_top > used_top ? m_cfg.padding_top - used_top : 0;
+  m_tile_cfg.padding_left = m_cfg.padding_left > used_left ? m_cfg.padding_left - used_left : 0;
   if (tile_input_offsets[kTensorHeightDim] + (int32_t) input_it_cfg.get_size(kTensorHeightDim) < (int32_t)m_input.get_dim(kTensorHeightDim)) {
     m_tile_cfg.padding_bottom = 0;
   }
-  if (tile_input_offsets[kTensorWidthDim]) m_tile_cfg.padding_left = 0;
   if (tile_input_offsets[kTensorWidthDim] + (int32_t) input_it_cfg.get_size(kTensorWidthDim) < (int32_t)m_input.get_dim(kTensorWidthDim)) {
     m_tile_cfg.padding_right = 0;
   }
-- 
2.43.0


From ef742bea5424bf3110d41fe40336cfc4a1470df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:41 +0000
Subject: [PATCH 50/63] fix: first tile of reduce-max had the shape of the full
 tensor

---
 lib/src/kernels/conversion/mli_reduce_max_runtime.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
index 8540068..e722b5a 100644
--- a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
+++ b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
@@ -33,6 +33,7 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     m_reduce_axis = private_buffer.reduce_axis;
 
     // construct Input tensor
+    const auto input_tile_tensor = m_input.GetSubTensor();
     m_tile_input.rank = private_buffer.io_rank;
     InternalBuffer input_internal(private_buffer.input.get_buf(), membases, num_mems);
     if(m_in_elem_size == sizeof(int32_t)){
@@ -49,12 +50,13 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     }
 
     for(unsigned int i = 0; i < m_tile_input.rank ; i++){
-        m_tile_input.shape[i] = private_buffer.input.get_dim(i);
+        m_tile_input.shape[i] = input_tile_tensor.get_dim(i);
         m_tile_input.mem_stride[i] = private_buffer.input.get_mem_stride(i);
     }
 
 
     // construct Output tensor
+    const auto output_tile_tensor = m_output.GetSubTensor();
     m_tile_output.rank = private_buffer.io_rank;
     InternalBuffer output_internal(private_buffer.output.get_buf(), membases, num_mems);
     if(m_out_elem_size == sizeof(int32_t)){
@@ -71,7 +73,7 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     }
     
     for(unsigned int i = 0; i < m_tile_output.rank ; i++){
-        m_tile_output.shape[i] = private_buffer.output.get_dim(i);
+        m_tile_output.shape[i] = output_tile_tensor.get_dim(i);
         m_tile_output.mem_stride[i] = private_buffer.output.get_mem_stride(i);
     }
 }
-- 
2.43.0


From 06a28556ef0249c680545503625c144f949bc7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:41 +0000
Subject: [PATCH 51/63] fix: input tiles of transposed convolutions whose
 outputs overlap

---
 lib/src/helpers/src/mli_helpers_30.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/helpers/src/mli_helpers_30.cc b/lib/src/helpers/src/mli_helpers_30.cc
index bb72e5b..95d9117 100644
--- a/lib/src/helpers/src/mli_helpers_30.cc
+++ b/lib/src/helpers/src/mli_helpers_30.cc
@@ -18,12 +18,16 @@ DeconvTensorIteratorTuple GetDeconvTensorIterators(Tensor<NoBuffer, kTransposeCo
   auto in_tensor_it_cfg = in_tensor_it.get_config();
 
   // TODO: fix this it some how better than just disabling tiling
-  if (in_tensor_it_cfg.get_last_size(kGroupTensorHeightDim) < weights_tensor.get_dim(kKernelHeightDim)) {
+  // output tiles would overlap (or leave gaps) if the kernel is not as large as the stride: every one of them
+  // has contributions of its own input tile only
+  if (in_tensor_it_cfg.get_last_size(kGroupTensorHeightDim) < weights_tensor.get_dim(kKernelHeightDim) ||
+      effective_kernel_size[kGroupTensorHeightDim] != stride[kGroupTensorHeightDim]) {
     const int32_t disable_mask[kTransposeConvIORank]{ 0, 1, 0, 0, 0 };
     in_tensor_it_cfg.template DisableTiling<NoBuffer, kTransposeConvIOIterRank>(disable_mask, in_tensor_it.get_tensor());
     in_tensor_it_cfg.SetCount(1, kGroupTensorHeightDim);
   }
-  if (in_tensor_it_cfg.get_last_size(kGroupTensorWidthDim) < weights_tensor.get_dim(kKernelWidthDim)) {
+  if (in_tensor_it_cfg.get_last_size(kGroupTensorWidthDim) < weights_tensor.get_dim(kKernelWidthDim) ||
+      effective_kernel_size[kGroupTensorWidthDim] != stride[kGroupTensorWidthDim]) {
     const int32_t disable_mask[kTransposeConvIORank]{ 0, 0, 1, 0, 0 };
     in_tensor_it_cfg.template DisableTiling<NoBuffer, kTransposeConvIOIterRank>(disable_mask, in_tensor_it.get_tensor());
     in_tensor_it_cfg.SetCount(1, kGroupTensorWidthDim);
-- 
2.43.0


From 4a5f5daac96ce44e2fdec6f3141c5216e223bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:44 +0000
Subject: [PATCH 52/63] fix: announced size of the run-time object of the
 no-operation kernel was 0

---
 include/api/mli_ref_compiler_api.hpp | 5 ++++-
 lib/src/private/src/mli_runtime.cc   | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/api/mli_ref_compiler_api.hpp b/include/api/mli_ref_compiler_api.hpp
index c35ef4f..d6cdcc9 100644
--- a/include/api/mli_ref_compiler_api.hpp
+++ b/include/api/mli_ref_compiler_api.hpp
@@ -23,7 +23,10 @@ using lib_mli::NoBuffer;
 class Conv2DPrivateData;
 class Pool2DPrivateData;
 
-class Nop_CS : public lib_mli::Nop_CS {};
+class Nop_CS : public lib_mli::Nop_CS {
+public:
+    unsigned GetRuntimeObjectSize() const override;
+};
 
 class Conv2d_CS : public lib_mli::Conv2d_CS {
 public:
diff --git a/lib/src/private/src/mli_runtime.cc b/lib/src/private/src/mli_runtime.cc
index d25ffd2..bfe1937 100644
--- a/lib/src/private/src/mli_runtime.cc
+++ b/lib/src/private/src/mli_runtime.cc
@@ -219,6 +219,10 @@ ExecutionInterface* ExecutionInterface::Create(
     return obj;
 }
 
+unsigned ref::Nop_CS::GetRuntimeObjectSize() const {
+    return sizeof(Nop);
+}
+
 mli_status SynchronizationInterface::WaitEvent(int32_t mask) {
     return MLI_STATUS_OK;
 }
-- 
2.43.0


From 9901a7c3089089827a7242c83219c97328bfe859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 53/63] fix: slice without position dropped the offset of the
 tensor

---
 include/mli_types.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index bd3b63e..123949c 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -720,6 +720,7 @@ class Tensor {
     
   Tensor<buf_T, maxRank> slice(uint32_t size[]) {
     Tensor<buf_T, maxRank> slice_tens(buf_, size, mem_stride_, rank_);
+    slice_tens.set_offs(offset_);
     return slice_tens;
   }
 
-- 
2.43.0


From be026fb2cdab8252aebb740d3e56619229abc68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 54/63] fix: stride of the combined dimension of a tensor in
 direct order

---
 include/mli_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index 123949c..7761f53 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -794,7 +794,7 @@ class Tensor {
           assert(mem_stride_[r] == (int)shape_[r+1]*mem_stride_[r+1]);
         }
         tns.set_dim(s, shape_[r]*shape_[r+1]);
-        tns.set_mem_stride(s, mem_stride_[r]);
+        tns.set_mem_stride(s, reverse_order ? mem_stride_[r] : mem_stride_[r+1]);
         ++r;
       }
       ++s;
-- 
2.43.0


From 5e99c8bf722572f2f60c9425ef9f0ac5cebd128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 55/63] fix: offset of the tensor was kept in old elements by
 ConvertGran

---
 include/mli_types.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index 7761f53..9b4958d 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -819,6 +819,8 @@ class Tensor {
     buf_.set_elem_size(new_vector_size);
     buf_.set_size(buf_.get_size()*old_vector_size/new_vector_size);
     assert(mem_stride_[tns_dim] == 1);
+    assert(offset_ * old_vector_size % new_vector_size == 0);
+    offset_ = offset_ * old_vector_size / new_vector_size;
     shape_[tns_dim] = CEIL_DIV(shape_[tns_dim] * old_vector_size, new_vector_size);
     if (rank_ > 1) {
       int32_t oldstride = mem_stride_[reverse_order ? tns_dim + 1 : tns_dim - 1];
-- 
2.43.0


From fe0c65af18413353328bbfc1d73c41e296c4b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 56/63] fix: first and middle increments were swapped when an
 axis of iterator config is dropped

---
 include/mli_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 4f64ed6..a1bc15a 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -202,8 +202,8 @@ class IteratorCfg {
         m_first_size[j] = icfg.get_first_size(i);
         m_size[j] = icfg.get_size(i);
         m_last_size[j] = icfg.get_last_size(i);
-        m_pos_inc[j] = icfg.get_first_inc(i);
-        m_first_pos_inc[j] = icfg.get_inc(i);
+        m_pos_inc[j] = icfg.get_inc(i);
+        m_first_pos_inc[j] = icfg.get_first_inc(i);
         m_last_pos_inc[j] = icfg.get_last_inc(i);
         m_diff_code[j] = icfg.get_diff_code(i);
         j++;
-- 
2.43.0


From fb792e851f0052da7ecf4689dccdb4b3e01b7fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 57/63] fix: iteration order of transposed iterators was wrong
 for non-involutive permutations

---
 include/mli_iterator.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index a1bc15a..ef662bd 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -338,6 +338,12 @@ class IteratorCfg {
     IteratorCfg<iterRank> transpose_order(uint32_t new_order[]) const {
         // create a transposed Iterator, reordering the dimensions
         IteratorCfg<iterRank> iter;
+        // new position of each of the old axes
+        uint32_t pos[iterRank];
+        for (uint32_t axis = 0; axis < iterRank; axis++) {
+          assert(new_order[axis] >= 0 && new_order[axis] < iterRank);
+          pos[new_order[axis]] = axis;
+        }
         // change order of axes
         uint32_t c = 0;
         for (uint32_t axis = 0; axis < iterRank; axis++) {
@@ -345,7 +351,7 @@ class IteratorCfg {
           // axis can only be selected once
           assert((c & (1 << new_order[axis])) == 0);
           c |= (1 << new_order[axis]);
-          iter.m_order[axis] = m_order[axis] < 0 ? -1 : new_order[m_order[axis]];
+          iter.m_order[axis] = m_order[axis] < 0 ? -1 : pos[m_order[axis]];
           iter.m_count[axis] = m_count[axis];
           iter.m_size[axis] = m_size[axis];
           iter.m_first_size[axis] = m_first_size[axis];
@@ -355,6 +361,7 @@ class IteratorCfg {
           iter.m_last_pos_inc[axis] = m_last_pos_inc[axis];
           iter.m_diff_code[axis] = m_diff_code[axis];
         }
+        iter.m_buf_tiles_num = m_buf_tiles_num;
         return iter;
     }
 
-- 
2.43.0


From b7667652d43953c89046bcdaf76fd8bcd3091a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 58/63] fix: shrinked buffer was multiplied by number of tiles
 once per dimension

---
 include/mli_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index ef662bd..83dff01 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -865,8 +865,8 @@ class TensorIterator {
         } else {
           dims[m_config.get_order(i)] = CEIL_RND(dimsz, align);
         }
-        if (!cyclic) dims[0] *= nTiles;
       }
+      if (!cyclic) dims[0] *= nTiles;
       Tensor<buf_T, tensorRank> new_tensor(m_full_tensor.get_buf(), dims, tensorRank);
       for (uint32_t i = 0; i < tensorRank; ++i) m_full_tensor.set_mem_stride(i, new_tensor.get_mem_stride(i));
       m_config.ShrinkCfg(cyclic);
-- 
2.43.0


From b16e2186cfaa271058c5a145cc1de9a6f866d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 59/63] fix: offset of weights iterators was moved with
 increments of the output

---
 include/mli_iterator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 83dff01..e6353b3 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -793,6 +793,7 @@ class TensorIterator {
         }
       }
       if (iteration_order != nullptr) m_config.UpdateOrder(iteration_order);
+      m_buffer_itr = BufferIterator<buf_T, iterRank>(m_full_tensor, m_config);
 
       UpdateMemstrides();
       Reset();
-- 
2.43.0


From 23a8e413abf46b4346c5d323dfda32e41c087119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 60/63] fix: offset in buffer of full tensor was wrapped by
 size of tile

---
 include/mli_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index e6353b3..065194b 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -544,7 +544,7 @@ class BufferIterator {
           m_first_offset_inc[axis] = 0;
           m_offset_inc[axis] = 0;
           m_last_offset_inc[axis] = 0;
-          m_buffer_size *= buffer_dim;
+          if (cfg.get_buf_tiles_num() != 0) m_buffer_size *= buffer_dim;
         }
         // only an increment past the end of the dimension has to be taken back at the end
         if (m_last_offset_inc[axis] > 0)
-- 
2.43.0


From b7a8443f14dcbc0f7cc8277deb4c3a69b3f0c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 61/63] fix: reset of the tensor iterator kept the offset

---
 include/mli_iterator.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 065194b..25e44cd 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -519,7 +519,7 @@ class BufferIterator {
     template <uint32_t tensorRank, class src_buf_T>
     BufferIterator(const Tensor<src_buf_T, tensorRank>& full_tensor,
                    const IteratorCfg<iterRank>& cfg)
-        : m_buffer_offset{0} {
+        : m_buffer_offset{0}, m_first_offset{0} {
       m_buffer_size = 1;
       for (uint32_t i = 0; i < iterRank; i++) {
         m_first_offset_inc[i] = m_offset_inc[i] = m_last_offset_inc[i] = 0;
@@ -567,7 +567,14 @@ class BufferIterator {
         m_last_offset_inc[i] = cfg.get_last_inc(i)>0 ? cfg.get_last_inc(i) * full_tensor.get_mem_stride(i) :full_tensor.get_mem_stride(i);
         m_buffer_dec[i] = full_tensor.get_dim(i) * full_tensor.get_mem_stride(i);
       }
-      m_buffer_offset = buffer_offset;
+      m_buffer_offset = m_first_offset = buffer_offset;
+    }
+
+    /**
+     * @brief Return to the offset of the first tile
+     */
+    void Reset() {
+      m_buffer_offset = m_first_offset;
     }
 
     /**
@@ -630,6 +637,7 @@ class BufferIterator {
 
   int32_t m_buffer_offset;                  /**< Offset in elements inside attached memory
                                                  buffer */
+  int32_t m_first_offset;                   /**< Offset of the first tile */
   int32_t m_buffer_size;
 
 };
@@ -909,6 +917,7 @@ class TensorIterator {
       for (uint32_t i = 0; i < iterRank; i++) {
         m_pos[i] = m_tile_idx[i] = 0;
       }
+      m_buffer_itr.Reset();
       m_offset = m_buffer_itr.GetBufferOffset();
       return MLI_STATUS_OK;
     }
-- 
2.43.0


From b8462101df58af4ce6fc11e27d004e178ca6b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 62/63] fix: end of iteration was not reported when the last
 iteration dimension is skipped

---
 include/mli_iterator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 25e44cd..8a57a8a 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -979,6 +979,8 @@ class TensorIterator {
             ++m_tile_idx[r];
             break;
           }
+        } else if (r == iterRank - 1) {
+          done = true;
         }
       }
       return done;
@@ -1005,6 +1007,8 @@ class TensorIterator {
             ++m_tile_idx[r];
             break;
           }
+        } else if (r == iterRank - 1) {
+          done = true;
         }
       }
       return done;
-- 
2.43.0


From 6d1bdd8de75ba4c94f41c1eef44c6161f3c59ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:46 +0000
Subject: [PATCH 63/63] fix: iterator config could not be set from a config of
 smaller rank

---
 include/mli_iterator.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 8a57a8a..c0f8781 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -316,15 +316,15 @@ class IteratorCfg {
         assert(N <= iterRank);
         uint32_t i = 0;
         for (; i < N; ++i) {
-          m_order[i] = in.m_order[i];
-          m_count[i] = in.m_count[i];
-          m_size[i] = in.m_size[i];
-          m_first_size[i] = in.m_first_size[i];
-          m_last_size[i] = in.m_last_size[i];
-          m_pos_inc[i] = in.m_pos_inc[i];
-          m_first_pos_inc[i] = in.m_first_pos_inc[i];
-          m_last_pos_inc[i] = in.m_last_pos_inc[i];
-          m_diff_code[i] = in.m_diff_code[i];
+          m_order[i] = in.get_order(i);
+          m_count[i] = in.get_count(i);
+          m_size[i] = in.get_size(i);
+          m_first_size[i] = in.get_first_size(i);
+          m_last_size[i] = in.get_last_size(i);
+          m_pos_inc[i] = in.get_inc(i);
+          m_first_pos_inc[i] = in.get_first_inc(i);
+          m_last_pos_inc[i] = in.get_last_inc(i);
+          m_diff_code[i] = in.get_diff_code(i);
         }
         for (; i < iterRank; ++i) {
           m_count[i] = 1;
@@ -333,6 +333,7 @@ class IteratorCfg {
           m_pos_inc[i] = m_first_pos_inc[i] = m_last_pos_inc[i] = 0;
           m_diff_code[i] = SZ0_SZ0_SZ0;
         }
+        m_buf_tiles_num = in.get_buf_tiles_num();
     }
 
     IteratorCfg<iterRank> transpose_order(uint32_t new_order[]) const {
-- 
2.43.0


From 32783580dd7fa178c1411e12ed92f1cb263071b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 01/54] fix: keep the shifted fx16 bias in the 40-bit
 accumulator type

mli_math_cast_fx<int16_t, mli_acc40_t> truncated the left-shifted value to
32 bits, so that a bias with a shift above 16 wrapped around before it was
added to the wide accumulator.
---
 lib/src/pal/ref/mli_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pal/ref/mli_math.h b/lib/src/pal/ref/mli_math.h
index 5796b55..01de2ed 100644
--- a/lib/src/pal/ref/mli_math.h
+++ b/lib/src/pal/ref/mli_math.h
@@ -361,7 +361,7 @@ MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
 
 template <>
 MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int32_t)mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
+    return mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
 }
 
 template <>
-- 
2.43.0


From aed2548a3e6ab56aea745d1c3c04db4543f5fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 02/54] fix: clip to the container range when the ReLU limit
 exceeds 32 bits

For many fractional bits the limit of ReLU6/ReLU1 was replaced by the
container's maximum before the zero point was added, so that the resulting
limit was shifted by the zero point into the representable range.
---
 lib/src/private/mli_prv_tensor.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/mli_prv_tensor.h b/lib/src/private/mli_prv_tensor.h
index eac988c..c8d4618 100644
--- a/lib/src/private/mli_prv_tensor.h
+++ b/lib/src/private/mli_prv_tensor.h
@@ -968,6 +968,8 @@ mli_prv_get_relu_limits (const mli_relu_cfg * cfg, const mli_tensor * out) {
     // One and six are not casted to 16bit directly, only after comparison with min_val and max_val and all of them are int.
     // Min val and max val always fit to container range, while six and one don't have to.
     // when six doesn't fit in the container range, it will be clipped to the container range.
+    // A value beyond any container range (with any zero point added) stands for those which exceed 32 bits.
+    const int out_of_range = (int32_t)1 << 29;
 
     switch (cfg->type) {
     case MLI_RELU_GEN:
@@ -976,7 +978,7 @@ mli_prv_get_relu_limits (const mli_relu_cfg * cfg, const mli_tensor * out) {
         break;
     case MLI_RELU_6:
         if (shift >= 0) {
-            six = (shift < 28) ? ((int32_t)6 << shift) / scale : max_val;
+            six = (shift < 28) ? ((int32_t)6 << shift) / scale : out_of_range;
         }
         else {
             six = (shift > -3) ?((int32_t)6 >> (-shift)) / scale : 0;
@@ -988,7 +990,7 @@ mli_prv_get_relu_limits (const mli_relu_cfg * cfg, const mli_tensor * out) {
         break;
     case MLI_RELU_1:
         if (shift >= 0) {
-            one = (shift < 30) ? ((int32_t)1 << shift) / scale : max_val;
+            one = (shift < 30) ? ((int32_t)1 << shift) / scale : out_of_range;
         }
         else {
             one = 0;
-- 
2.43.0


From 58f5e08a94e21be69d234fba6485c48473ef938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 03/54] fix: keep pooling border areas inside the output when
 the kernel exceeds the input

---
 lib/src/kernels/pooling/mli_krn_pool_hwc.h | 24 +++++++++++++---------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/lib/src/kernels/pooling/mli_krn_pool_hwc.h b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
index 81b0ad1..7fe5114 100644
--- a/lib/src/kernels/pooling/mli_krn_pool_hwc.h
+++ b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
@@ -321,6 +321,12 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
     // (usually significantly smaller part of computations)
     //=======================================================================
     if (padding_top || padding_left || padding_bot || padding_right) {
+        // Size of the border areas in the output. Can't exceed the output even if the padding does
+        // (happens when kernel size is larger than input size).
+        const int out_top = MIN(CEIL_DIV(padding_top, stride_height), (int)out.height);
+        const int out_bot = MIN(CEIL_DIV(padding_bot, stride_height), (int)out.height - out_top);
+        const int out_left = MIN(CEIL_DIV(padding_left, stride_width), (int)out.width);
+        const int out_right = MIN(CEIL_DIV(padding_right, stride_width), (int)out.width - out_left);
         for(int i = 0; i < 4; i ++) {
             rect_t area;
             auto in_ = in;
@@ -337,11 +343,9 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             if (i == 0) {
                 if (padding_top) {
                     area.row_beg = 0;
-                    area.row_end = CEIL_DIV(padding_top, stride_height);
+                    area.row_end = out_top;
                     area.clmn_beg = 0;
-                    area.clmn_end = out.width - CEIL_DIV(padding_right, stride_width);
-                    // compensate for cases where kernel size is larger than input size
-                    area.clmn_end = MAX(CEIL_DIV(padding_left, stride_width), (int)area.clmn_end);
+                    area.clmn_end = out.width - out_right;
                 } else {
                     continue;
                 }
@@ -349,8 +353,8 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             if (i == 1) {
                 if (padding_right) {
                     int row_beg = 0;
-                    int row_end = out.height - CEIL_DIV(padding_bot, stride_height);
-                    int clmn_beg = out.width - CEIL_DIV(padding_right, stride_width);
+                    int row_end = out.height - out_bot;
+                    int clmn_beg = out.width - out_right;
                     int clmn_end = out.width;
                     // rotate the right padding area to the top
                     area.clmn_beg = row_beg;
@@ -373,9 +377,9 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             }
             if (i == 2) {
                 if (padding_bot) {
-                    int row_beg = out.height - CEIL_DIV(padding_bot, stride_height);
+                    int row_beg = out.height - out_bot;
                     int row_end = out.height;
-                    int clmn_beg = CEIL_DIV(padding_left, stride_width);
+                    int clmn_beg = out_left;
                     int clmn_end = out.width;
                     // rotate the bottom padding area to the top
                     area.clmn_beg = out.width - clmn_end;
@@ -394,10 +398,10 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             }
             if (i == 3) {
                 if (padding_left) {
-                    int row_beg = CEIL_DIV(padding_top, stride_height);
+                    int row_beg = out_top;
                     int row_end = out.height;
                     int clmn_beg = 0;
-                    int clmn_end = CEIL_DIV(padding_left, stride_width);
+                    int clmn_end = out_left;
                     // rotate the left padding area to the top
                     area.clmn_beg = out.height - row_end;
                     area.clmn_end = out.height - row_beg;
-- 
2.43.0


From 9db4e9cb7afe824b7f1526d4ae5d7bb94dd27d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 04/54] fix: PReLU accepts the documented one-dimensional slope
 tensor for every axis

The slope count was read from slope_coeff->shape[cfg->axis], which is not a
valid dimension of the documented rank-1 slope tensor for axis > 0: elements
were silently left unprocessed (or memory overrun). The parameter check
rejected such tensors as well.
---
 .../kernels/transform/impl/mli_krn_prelu_ref.h |  4 ++--
 lib/src/private/src/mli_check.cc               | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
index 906d347..6813c70 100644
--- a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
@@ -167,7 +167,7 @@ static MLI_FORCE_INLINE mli_status prelu_fx_run(const mli_tensor *in,
     auto out_prv = mli_prv_get_generic_tensor<MLI_OUT_PTR(io_T)>(out);
 
     /* Define Slope Axis Params */
-    int axis_shape = slope_coeff->shape[cfg->axis];
+    int axis_shape = in_prv.shape[cfg->axis];
     int axis_in_mem_stride = in_prv.mem_stride[cfg->axis];
     int axis_out_mem_stride = out_prv.mem_stride[cfg->axis];
     /* Broadcasting in case axis is not inner most dim */
@@ -324,7 +324,7 @@ static MLI_FORCE_INLINE mli_status prelu_sa8_run(const mli_tensor *in,
     auto out_prv = mli_prv_get_generic_tensor<MLI_OUT_PTR(int8_t)>(out);
 
     /* Define Slope Axis Params */
-    int axis_shape = slope_coeff->shape[cfg->axis];
+    int axis_shape = in_prv.shape[cfg->axis];
     int axis_in_mem_stride = in_prv.mem_stride[cfg->axis];
     int axis_out_mem_stride = out_prv.mem_stride[cfg->axis];
     /* Broadcasting in case axis is not inner most dim */
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2298717..a709ff5 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1952,12 +1952,18 @@ mli_status mli_chk_prelu (
     if (cfg->axis != -1) {
         fail |= MLI_CHECK(check_inner_most_dimension_is_one(slope_coeff),
                       "Memory stride of the innermost dimension should be equal to 1 for the slope_coeff tensor");
-        /* slope tensor must be of the same shape of input tensor at axis and others should be 1 */
-        for (int i = 0; i < (int)in->rank; i++) {
-            if (i == cfg->axis) {
-                fail |= MLI_CHECK(in->shape[i] == slope_coeff->shape[i], "Bad Slope_Coeff Shape");
-            } else {
-                fail |= MLI_CHECK(slope_coeff->shape[i] == 1, "Bad Slope_Coeff Shape");
+        if (slope_coeff->rank == 1) {
+            /* one-dimensional slope tensor: its length must be equal to the axis dimension of the input */
+            fail |= MLI_CHECK(in->shape[cfg->axis] == slope_coeff->shape[0], "Bad Slope_Coeff Shape");
+        } else {
+            /* slope tensor must be of the same shape of input tensor at axis and others should be 1 */
+            fail |= MLI_CHECK(slope_coeff->rank == in->rank, "Bad Slope_Coeff Rank");
+            for (int i = 0; i < (int)in->rank; i++) {
+                if (i == cfg->axis) {
+                    fail |= MLI_CHECK(in->shape[i] == slope_coeff->shape[i], "Bad Slope_Coeff Shape");
+                } else {
+                    fail |= MLI_CHECK(slope_coeff->shape[i] == 1, "Bad Slope_Coeff Shape");
+                }
             }
         }
     }
-- 
2.43.0


From ab10d24ad70c3cd6b70b3c943db79a6a398dd5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 05/54] fix: PReLU treats every negative axis as 'whole
 tensor', as documented

Only -1 was recognised; other negative values indexed the slope and input
shapes with a negative subscript.
---
 lib/src/kernels/transform/mli_krn_prelu.cc | 6 +++---
 lib/src/private/src/mli_check.cc           | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/kernels/transform/mli_krn_prelu.cc b/lib/src/kernels/transform/mli_krn_prelu.cc
index 16749cc..88f1ad8 100644
--- a/lib/src/kernels/transform/mli_krn_prelu.cc
+++ b/lib/src/kernels/transform/mli_krn_prelu.cc
@@ -26,7 +26,7 @@ mli_status mli_krn_prelu_fx8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int8_t>(in, slope_coeff, cfg, out);
@@ -41,7 +41,7 @@ mli_status mli_krn_prelu_fx16(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx16(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int16_t>(in, slope_coeff, cfg, out);
@@ -56,7 +56,7 @@ mli_status mli_krn_prelu_sa8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_sa8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_sa8_run(in, slope_coeff, cfg, out);
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index a709ff5..46eae20 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1931,7 +1931,7 @@ mli_status mli_chk_prelu (
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         // Check that slope tensors is valid scalar
         stat = MLI_CHECK_STATUS(mli_chk_scalar_tensor (slope_coeff), "Slope should be scalar tensor");
     } else {
@@ -1949,7 +1949,7 @@ mli_status mli_chk_prelu (
     if (MLI_CHECK(cfg->axis < (int)in->rank, "Wrong Axis Configuration")) return MLI_STATUS_BAD_FUNC_CFG;
     fail |= MLI_CHECK(check_inner_most_dimension_is_one(in),
                       "Memory stride of the innermost dimension should be equal to 1 for the input tensor");
-    if (cfg->axis != -1) {
+    if (cfg->axis >= 0) {
         fail |= MLI_CHECK(check_inner_most_dimension_is_one(slope_coeff),
                       "Memory stride of the innermost dimension should be equal to 1 for the slope_coeff tensor");
         if (slope_coeff->rank == 1) {
-- 
2.43.0


From 40dc475f1829a089a946d2ea3cc4dd452c7f2812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 06/54] fix: L2 normalize treats every negative axis as 'whole
 tensor', as documented

Only -1 selected the per-tensor computation; other negative axis values fell
into the per-axis branch with a negative index.
---
 lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
index 4785a94..9400ec7 100644
--- a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
@@ -192,7 +192,7 @@ static MLI_FORCE_INLINE mli_status mli_krn_l2_normalize_run(const mli_tensor *in
     }
 
     /* Per Tensor Case */
-    if ( cfg->axis == -1 ) {
+    if ( cfg->axis < 0 ) {
         int shape = mli_prv_squash_tensor_to_one_dim(in, out);
         if (shape) {
             int norm_shift;
-- 
2.43.0


From b0c5fdd338d0da2cccec251a63f84889959c06b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:57 +0000
Subject: [PATCH 07/54] fix: softmax: saturate the sum of exponents instead of
 wrapping around

---
 lib/src/kernels/transform/impl/mli_krn_softmax_ref.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_softmax_ref.h b/lib/src/kernels/transform/impl/mli_krn_softmax_ref.h
index 360ab77..431e26e 100644
--- a/lib/src/kernels/transform/impl/mli_krn_softmax_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_softmax_ref.h
@@ -73,8 +73,9 @@ static MLI_FORCE_INLINE void mli_krn_softmax_fx_run(
         for (int pos1 = 0; pos1 < in_prv.shape[1]; pos1++) {
             for (int pos2 = 0; pos2 < in_prv.shape[2]; pos2++) {
                 for (int pos3 = 0; pos3 < in_prv.shape[3]; pos3++) {
-                    sum_acc = mli_math_mac_fx(sum_acc,
-                            vec_out[POS(&out_prv, pos0, pos1, pos2, pos3)], static_cast<io_T>(1));
+                    // saturating: the sum of a long slice might not fit the accumulator
+                    sum_acc = mli_math_add_fx<mli_acc32_t>(sum_acc,
+                            vec_out[POS(&out_prv, pos0, pos1, pos2, pos3)]);
                 }
             }
         }
@@ -152,7 +153,8 @@ static MLI_FORCE_INLINE void mli_krn_softmax_sa8_run(
                                     lut, /*in_frac_bits*/ 0, &in_params, &out_params);
 
                     /* Accumulation through MAC and reciprocal calculation */
-                    sum_acc = mli_math_mac_fx(sum_acc, exp_res, static_cast<int16_t>(1));
+                    // saturating: the sum of a long slice might not fit the accumulator
+                    sum_acc = mli_math_add_fx<mli_acc32_t>(sum_acc, exp_res);
                 }
             }
         }
-- 
2.43.0


From c8cf7583596b8b2f5f21ca98e648b5d4ac2309ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 08/54] fix: GRU cell keeps per-tensor quantization parameters
 when switching to the new gate

---
 lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
index 1561878..f84ee64 100644
--- a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
+++ b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
@@ -33,13 +33,19 @@ namespace ref {
 //========================================================================================
 
 static inline void inc_scales_for_new_gate(mli_element_params* params, int prev_gates) {
-	params->sa.scale.mem.pi16 += prev_gates;
-    params->sa.scale_frac_bits.mem.pi8 += prev_gates;
+    // scale is a pointer to per-gate values only in case of per-axis quantization
+    if (params->sa.dim >= 0) {
+        params->sa.scale.mem.pi16 += prev_gates;
+        params->sa.scale_frac_bits.mem.pi8 += prev_gates;
+    }
 }
 
 static inline void dec_scales_for_new_gate(mli_element_params* params, int prev_gates) {
-    params->sa.scale.mem.pi16 -= prev_gates;
-    params->sa.scale_frac_bits.mem.pi8 -= prev_gates;
+    // scale is a pointer to per-gate values only in case of per-axis quantization
+    if (params->sa.dim >= 0) {
+        params->sa.scale.mem.pi16 -= prev_gates;
+        params->sa.scale_frac_bits.mem.pi8 -= prev_gates;
+    }
 }
 
 template <typename io_T, typename w_T, typename b_T, typename acc_T, typename quant_T>
-- 
2.43.0


From 2e5557082353a83db230d8b8c03f7c43b7c60773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 09/54] fix: data movement does not take the single-copy
 shortcut when the destination has an offset

---
 lib/src/move/mli_mov_api.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 40f95c1..f3e548e 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -238,6 +238,8 @@ mli_status mli_mov_prepare(mli_mov_handle_t* h, const mli_tensor* src, const mli
         is_possible_in_single1d_transfer &= (src->shape[i] == dst->shape[i]);
         no_padding &= !(cfg->padding_pre[i] || cfg->padding_post[i]);
         is_possible_in_single1d_transfer &= no_padding;
+        // with an offset in the destination, the written area is smaller than the dst shape.
+        is_possible_in_single1d_transfer &= (cfg->dst_offset[i] == 0);
         is_possible_in_single1d_transfer &= (cfg->perm_dim[i] == i);
         is_possible_in_single1d_transfer &= (cfg->sub_sample_step[i] == 1);
         stride *= src->shape[i];
-- 
2.43.0


From c6fb7743e352fdb8f2662453d2c96a93a3b2cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:03 +0000
Subject: [PATCH 10/54] fix: releasing a data movement handle removes its
 callback

---
 lib/src/move/mli_mov_api.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index f3e548e..5cdb564 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -415,6 +415,8 @@ mli_status mli_mov_release_handle(mli_mov_handle_t* h) {
 
     for (int ch_cnt = 0; ch_cnt < h->num_ch; ch_cnt++) {
         dma_pool.channel_status[h->dma_ch + ch_cnt] = MLI_MOV_DMA_CH_AVAILABLE;
+        // a callback must not survive the handle it was registered for
+        callbacktable[h->dma_ch + ch_cnt].cb = NULL;
     }
     h->state = MLI_MOV_STATE_INVALID;
     h->dma_ch = 0;
-- 
2.43.0


From 5e4dc0f786b4b49c4e771d7c8d020fee3ec4d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 11/54] fix: acquire_handle never hands out channels beyond the
 configured pool

---
 lib/src/move/mli_mov_api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 5cdb564..50bb7ed 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -385,7 +385,7 @@ mli_status mli_mov_acquire_handle(int num_ch, mli_mov_handle_t* h) {
     mli_status retval = MLI_STATUS_NOT_ENGH_MEM; // TODO: add status for not enough dma channels
     MLI_ASSERT(h != NULL);
     // find first available channel, and check if enough adjacent channels are available.
-    for (int i = dma_pool.base_channel; i < dma_pool.base_channel + dma_pool.pool_size; i++) {
+    for (int i = dma_pool.base_channel; i + num_ch <= dma_pool.base_channel + dma_pool.pool_size; i++) {
         bool found = true;
         for (int ch_cnt = 0; ch_cnt < num_ch; ch_cnt++) {
             found &= (dma_pool.channel_status[i + ch_cnt] == MLI_MOV_DMA_CH_AVAILABLE);
-- 
2.43.0


From 95c8ce2ff75e24121b965cae990c31dedc87cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:35 +0000
Subject: [PATCH 12/54] fix: a move without a dma channel does not call the
 callback of another handle

---
 lib/src/move/mli_mov_api.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 50bb7ed..3bdf903 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -315,7 +315,8 @@ mli_status mli_mov_start(mli_mov_handle_t* h, const mli_tensor* src, const mli_m
     {
     // in case DMA is not used, but direct copy was done, set state to DONE, and call callback.
         h->state = MLI_MOV_STATE_DONE;
-        if (callbacktable[h->dma_ch].cb != NULL) {
+        // a synchronous move does not own a channel, the callback belongs to another handle then.
+        if (h->num_ch > 0 && callbacktable[h->dma_ch].cb != NULL) {
             callbacktable[h->dma_ch].cb(callbacktable[h->dma_ch].cookie);
         }
     }
-- 
2.43.0


From d3d84a2ad7200997cf2ddee69e3747b160be79f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:14 +0000
Subject: [PATCH 13/54] fix: create_subtensor advances per-axis parameter
 pointers without shrinking their capacity

---
 lib/src/helpers/src/mli_helpers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index d9a9e69..291e8c9 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -239,9 +239,12 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     if (isAsym){
         if (out->el_params.sa.dim >= 0) {
             out->el_params.sa.scale.mem.pi16 += out_asym_offset;
+            out->el_params.sa.scale.capacity -= out_asym_offset * sizeof(int16_t);
             out->el_params.sa.scale_frac_bits.mem.pi8 += out_asym_offset;
+            out->el_params.sa.scale_frac_bits.capacity -= out_asym_offset * sizeof(int8_t);
             out->el_params.sa.dim = out_asym_dim;
             out->el_params.sa.zero_point.mem.pi16 += out_asym_offset;
+            out->el_params.sa.zero_point.capacity -= out_asym_offset * sizeof(int16_t);
         }
     }
     return MLI_STATUS_OK;
-- 
2.43.0


From 892ff3b06174a7f0e86b3caaf73cbf211837518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:36 +0000
Subject: [PATCH 14/54] fix: create_subtensor keeps parameter pointers in a
 per-tensor view when the quantized axis is removed

---
 lib/src/helpers/src/mli_helpers.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 291e8c9..a7cdb2c 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -220,15 +220,18 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     int out_asym_dim = -1;
     int out_asym_offset = 0;
     for (int in_idx = 0; in_idx < input_rank; in_idx++) {
+        const bool is_asym_dim = isAsym && (in->el_params.sa.dim == in_idx);
+        if (is_asym_dim) {
+            out_asym_offset = cfg->offset[in_idx];
+        }
         if ((skip_cnt > 0) && (cfg->size[in_idx] == 1)) {
             skip_cnt--;
             continue;
         }
         out->shape[out_idx] = cfg->size[in_idx];
         out->mem_stride[out_idx] = mem_strides[in_idx];
-        if (isAsym && (in->el_params.sa.dim == in_idx)) {
+        if (is_asym_dim) {
             out_asym_dim = out_idx;
-            out_asym_offset = cfg->offset[in_idx];
         }
         out_idx++;
     }
@@ -237,7 +240,19 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     out->el_params = in->el_params;
 
     if (isAsym){
-        if (out->el_params.sa.dim >= 0) {
+        if (out->el_params.sa.dim >= 0 && out_asym_dim < 0) {
+            // The quantized dimension was removed, so a single set of parameters is left: store it by value.
+            const int16_t scale = in->el_params.sa.scale.mem.pi16[out_asym_offset];
+            const int8_t scale_frac_bits = in->el_params.sa.scale_frac_bits.mem.pi8[out_asym_offset];
+            const int16_t zero_point = in->el_params.sa.zero_point.mem.pi16[out_asym_offset];
+            out->el_params.sa.scale.mem.i16 = scale;
+            out->el_params.sa.scale.capacity = 0;
+            out->el_params.sa.scale_frac_bits.mem.i8 = scale_frac_bits;
+            out->el_params.sa.scale_frac_bits.capacity = 0;
+            out->el_params.sa.zero_point.mem.i16 = zero_point;
+            out->el_params.sa.zero_point.capacity = 0;
+            out->el_params.sa.dim = -1;
+        } else if (out->el_params.sa.dim >= 0) {
             out->el_params.sa.scale.mem.pi16 += out_asym_offset;
             out->el_params.sa.scale.capacity -= out_asym_offset * sizeof(int16_t);
             out->el_params.sa.scale_frac_bits.mem.pi8 += out_asym_offset;
-- 
2.43.0


From 14c0cc7a0f08d2bb4ed9d22a93c442432f869502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:54 +0000
Subject: [PATCH 15/54] fix: point_to_subtensor computes a float sum instead of
 an address for FP_32 tensors

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index a7cdb2c..2e5b50e 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -148,7 +148,7 @@ mli_status mli_hlp_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
         out->data.mem.pi16 = in->data.mem.pi16 + size;
         break;
     case MLI_EL_FP_32:
-        out->data.mem.f32 = in->data.mem.f32 + size;
+        out->data.mem.pf32 = in->data.mem.pf32 + size;
         break;
     case MLI_EL_SA_32:
         out->data.mem.pi32 = in->data.mem.pi32 + size;
-- 
2.43.0


From fb1b6f3aee1c67b32da6b5895cb574c7e937c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:09 +0000
Subject: [PATCH 16/54] fix: create_subtensor check accepts wrapped offsets and
 impossible ranks

---
 lib/src/private/src/mli_check.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 46eae20..bf0c201 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2817,13 +2817,19 @@ mli_status mli_chk_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     if (MLI_CHECK(cfg->sub_tensor_rank <= in->rank, "incorrect number of coordinates"))
         return MLI_STATUS_BAD_FUNC_CFG;
 
+    uint32_t removable_dims = 0;
     for (int i = 0; i < (int)in->rank; i++) {
         if (MLI_CHECK(cfg->offset[i] < in->shape[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
-        if (MLI_CHECK(cfg->offset[i] + cfg->size[i] <= in->shape[i], "bad config"))
+        if (MLI_CHECK(cfg->size[i] <= in->shape[i] - cfg->offset[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
+        if (cfg->size[i] == 1) removable_dims++;
     }
 
+    // Only dimensions of size 1 can be removed from the output shape
+    if (MLI_CHECK(in->rank - cfg->sub_tensor_rank <= removable_dims, "sub tensor rank is too small"))
+        return MLI_STATUS_BAD_FUNC_CFG;
+
     return MLI_STATUS_OK;
 }
 
-- 
2.43.0


From a935805b26bc28f7d4982ce7f82b1c728a53893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:22 +0000
Subject: [PATCH 17/54] fix: keep all bits when converting from or to 32-bit
 asymmetric tensors

---
 .../src/impl/mli_hlp_convert_tensor_ref.h     | 20 ++++++-------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h b/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h
index dee6e5b..e3fca13 100644
--- a/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h
+++ b/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h
@@ -23,20 +23,12 @@ MLI_FORCE_INLINE void calc_convert(const MLI_PTR(in_T) src_tensor_arr,
                                    const int16_t in_zp, const int16_t scale,
                                    const int16_t scale_shift, const int16_t out_zp) {
     if (std::is_same<acc_T, int64_t>::value) {
-        const int mul_hi_shift = 32;
-        int32_t src_in_zp = mli_math_sub_fx<int32_t>(*src_tensor_arr, in_zp);
-        int32_t src_norm = mli_math_norm_fx<int32_t, int32_t>(src_in_zp);
-        src_in_zp = mli_math_asl_fx<int32_t>(src_in_zp, src_norm);
-
-        int32_t scale_norm = mli_math_norm_fx<int32_t, int32_t>((int32_t) scale);
-        int32_t scale32 = mli_math_asl_fx<int32_t>((int32_t) scale, scale_norm);
-
-        int64_t dst_acc = mli_math_mul_fx<int32_t, int64_t>(src_in_zp, scale32);
-        int32_t acc_hi = dst_acc >> mul_hi_shift;
-
-        int32_t dst_acc_shf_casted = mli_math_asr_rnd_fx<int32_t>(acc_hi, scale_shift + scale_norm + src_norm - mul_hi_shift);
-        int32_t dst_val = mli_math_add_fx<int32_t>(dst_acc_shf_casted, out_zp);
-        *dst_tensor_arr = mli_math_cast_fx<int32_t, out_T>(dst_val, 0);
+        // 33-bit difference and 16-bit scale: neither operand nor product needs to be shortened in 64 bits
+        const int64_t src_in_zp = (int64_t)*src_tensor_arr - in_zp;
+        const int64_t dst_acc = src_in_zp * scale;
+        const int64_t dst_acc_shf = mli_math_asr_rnd_fx<int64_t>(dst_acc, scale_shift);
+        const int64_t dst_val = mli_math_add_fx<int64_t>(dst_acc_shf, out_zp);
+        *dst_tensor_arr = mli_math_cast_fx<int64_t, out_T>(dst_val, 0);
     } else {
         int16_t src_in_zp = mli_math_sub_fx<int16_t>(*src_tensor_arr, in_zp);
         acc_T dst_acc = mli_math_mul_fx<int16_t, acc_T>(src_in_zp, scale);
-- 
2.43.0


From c02df3ba1a37e4fa547e9f2eb19f065c6ab0468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:58 +0000
Subject: [PATCH 18/54] fix: saturate float values that exceed the destination
 range in conversion

---
 .../src/impl/mli_hlp_convert_tensor_ref.h     |   5 +-
 lib/src/pal/ref/mli_math.h                    | 957 +++++++++---------
 2 files changed, 484 insertions(+), 478 deletions(-)

diff --git a/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h b/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h
index e3fca13..69655e3 100644
--- a/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h
+++ b/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h
@@ -222,8 +222,9 @@ mli_status convert_float_data(const mli_tensor * src, mli_tensor * dst, convert_
                             tensor_arr[tensor_pos] = (t_T)float_tensor_arr[float_tensor_pos];
                         } else {
                             if (mode == mli::hlp::QUANTIZE) {
-                                int32_t tensor_val = mli_math_float_scale(float_tensor_arr[float_tensor_pos], scale_val);
-                                tensor_arr[tensor_pos] = mli_math_cast_fx<int32_t, t_T>(mli_math_add_fx<int32_t>(tensor_val, zero_offset), 0);
+                                int64_t tensor_val = mli_math_float_scale(float_tensor_arr[float_tensor_pos], scale_val);
+                                int32_t tensor_val_sat = mli_math_cast_fx<int64_t, int32_t>(mli_math_add_fx<int64_t>(tensor_val, zero_offset), 0);
+                                tensor_arr[tensor_pos] = mli_math_cast_fx<int32_t, t_T>(tensor_val_sat, 0);
                             } else if (mode == mli::hlp::DEQUANTIZE) {
                                 const float float_tensor_val_unscaled = static_cast<float>(mli_math_sub_fx<int32_t>((int32_t)(tensor_arr[tensor_pos]), zero_offset));
                                 float_tensor_arr[float_tensor_pos] = float_tensor_val_unscaled * scale_val;
diff --git a/lib/src/pal/ref/mli_math.h b/lib/src/pal/ref/mli_math.h
index 01de2ed..306fb98 100644
--- a/lib/src/pal/ref/mli_math.h
+++ b/lib/src/pal/ref/mli_math.h
@@ -1,476 +1,481 @@
-/*
-* Copyright 2020-2022, Synopsys, Inc.
-* All rights reserved.
-*
-* This source code is licensed under the BSD-3-Clause license found in
-* the LICENSE file in the root directory of this source tree.
-*
-*/
-
-#ifndef _REF_MLI_MATH_H_
-#define _REF_MLI_MATH_H_
-
-#include <limits>
-#include <type_traits>
-#include "mli_debug.h"
-
-typedef int32_t mli_acc32_t;
-typedef int64_t mli_acc40_t;
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits);
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_limit_fx(T sign) {
-    return sign < (T)0 ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asr_pos_nbits_fx(T x, int nbits)
-{
-    int nbits_max = sizeof(T) * 8 - 1;
-    // This function is internal to this file
-    // and is required to avoid compiler issues.
-    if (nbits > nbits_max)
-        return x < (T)0 ? -1 : 0;
-    return x >> nbits;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asr_fx(T x, int nbits)
-{
-    int nbits_max = sizeof(T) * 8 - 1;
-    int nbits_min = 0;
-    if (nbits > nbits_max)
-        return x < (T)0 ? -1 : 0;
-    if (nbits < nbits_min)
-        return mli_math_asl_fx<T>(x, (-nbits));
-    return x >> nbits;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits)
-{
-    int inp_size = sizeof(T) * 8;
-    T hi = 0;
-
-    if (nbits < 0)
-        return mli_math_asr_pos_nbits_fx<T>(x, (-nbits));
-
-    if (nbits > (inp_size - 1))
-        return x != (T)0 ? mli_math_limit_fx<T>(x) : 0;
-
-    hi = x >> ((inp_size - 1) - nbits);
-    if (hi == (T)0 || hi == (T)-1)
-        return x << nbits;
-
-    return mli_math_limit_fx<T>(hi);
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asr_rnd_fx(T x, int nbits)
-{
-    using unsigned_T = typename std::make_unsigned<T>::type;
-    T r = 0;
-    unsigned_T one = 1u;
-    int nbits_max = sizeof(T) * 8 - 1;
-    int nbits_min = 0;
-
-    if (nbits < nbits_min)
-        return mli_math_asl_fx<T>(x, (-nbits));
-    if (nbits == nbits_min)
-        return x;
-
-    if (nbits > nbits_max)
-        return 0;
-
-    // Rounding up:
-    // if the most significant deleted bit is 1, add 1 to the remaining bits.
-#ifdef ROUND_MODE_UP
-    T round = (T)((one << nbits) >> 1);
-    r = mli_math_add_fx<T>(x, round);
-    r = mli_math_asr_fx<T>(r, nbits);
-#endif
-
-    // Convergent: rounding with half-way value rounded to even value.
-    // If the most significant deleted bit is 1, and 
-    // either the least significant of the remaining bits
-    // or at least one other deleted bit is 1, add 1 to the remaining bits.
-#ifdef ROUND_MODE_CONVERGENT
-    r = mli_math_asr_fx<T>(x, nbits);
-    T last_deleted_mask = (T)((one << nbits) >> 1);
-    if (((x & last_deleted_mask) != (T)0) && 
-            (((r & (T)1) != (T)0) ||  ((x & (last_deleted_mask-(T)1))!= (T)0))) {
-        return mli_math_add_fx<T>(r, 1);
-    }
-#endif
-
-    return r;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_asl_rnd_fx(T x, int nbits)
-{
-    return mli_math_asr_rnd_fx<T>(x, -nbits);
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_neg_fx(T x) {
-    return x == std::numeric_limits<T>::lowest() ? std::numeric_limits<T>::max() : -x;
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_sat_fx(T x, unsigned nbits)
-{
-    return mli_math_asr_fx<T>(mli_math_asl_fx<T>(x, nbits), nbits);
-}
-
-template <typename T>
-MLI_FORCE_INLINE T mli_math_abs_fx(T x)
-{    
-    return x >= (T)0 ? x : mli_math_neg_fx(x);
-}
-
-template <typename T, typename o_T>
-MLI_FORCE_INLINE o_T mli_math_norm_fx(T x)
-{
-    o_T inp_size = sizeof(T) * 8;
-    T hi = x < (T)0 ? (T)-1 : (T)0;
-    o_T r = 0;
-
-    if (x == (T)0)
-        return inp_size - 1;
-
-    while ((x >> r) != hi)
-        r++;
-    return (inp_size - 1) - r;
-}
-
-template<typename in_T, typename out_T>
-MLI_FORCE_INLINE out_T mli_math_norm_cast_fx(in_T val , int32_t *norm_shift) {
-    int32_t cast_shift = (sizeof(in_T) - sizeof(out_T)) * 8;
-    int32_t norm = mli_math_norm_fx<in_T, int32_t>(val);
-    *norm_shift = cast_shift - norm;
-    return mli_math_cast_fx<in_T, out_T>(val, *norm_shift);
-}
-
-// Addition of two fx operands with saturation
-//========================================================================
-template <typename T>
-MLI_FORCE_INLINE T mli_math_add_fx(T L, T R) {
-    if ((R > 0) && (L > std::numeric_limits<T>::max() - R)) // `L + R` would overflow
-        return std::numeric_limits<T>::max();
-    if ((R < 0) && (L < std::numeric_limits<T>::lowest() - R)) // `L + R` would underflow
-        return std::numeric_limits<T>::lowest();
-    return L + R;
-}
-
-// Subtraction of two fx operands with saturation
-//========================================================================
-template <typename T>
-MLI_FORCE_INLINE T mli_math_sub_fx(T L, T R) {
-    if ((R < 0) && (L > std::numeric_limits<T>::max() + R)) // `L - R` would overflow
-        return std::numeric_limits<T>::max();
-    if ((R > 0) && (L < std::numeric_limits<T>::lowest() + R)) // `L - R` would underflow
-        return std::numeric_limits<T>::lowest();
-    return L - R;
-}
-
-// Maximum of two fx operands
-//========================================================================
-template <typename io_T>
-MLI_FORCE_INLINE io_T mli_math_max_fx(io_T L, io_T R) {
-    return (L > R) ? L : R;
-}
-
-template <typename l_T, typename r_T>
-MLI_FORCE_INLINE l_T mli_math_max_fx(l_T L, r_T R) {
-    return (L > R) ? L : R;
-}
-
-// Minimum of two fx operands
-//========================================================================
-template <typename io_T>
-MLI_FORCE_INLINE io_T mli_math_min_fx(io_T L, io_T R) {
-     return (L < R) ? L : R;
-}
-
-// Multiply two operands
-//========================================================================
-template <typename in_T, typename acc_T>
-MLI_FORCE_INLINE acc_T mli_math_mul_fx(in_T L, in_T R) {
-    return L * R;
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mul_fx_high(int32_t L, int32_t R) {
-    // this function takes the MSB part of the result. (L * R) >> 31
-    // in optimized code check if mpyfr instruction is used here.
-    return (mli_acc32_t)(((int64_t)L * (int64_t)R + (int64_t)(1<<30)) >> 31);
-}
-
-template <>
-MLI_FORCE_INLINE int64_t mli_math_mul_fx(int32_t L, int32_t R) {
-    // Result of multiplication is fractional number (shifted left by 1)
-    // To return correct result we shift it right afterward
-    int64_t acc = (int64_t)L * (int64_t)R;
-    return (int64_t) acc;
-}
-
-// Cast scalar to/from void pointer
-//========================================================================
-template < typename out_T > 
-MLI_FORCE_INLINE out_T mli_math_cast_ptr_to_scalar_fx(void *src) {
-    // REMARK: Need to check from C/Cpp standard point of view
-    return static_cast < out_T > ((intptr_t) (src));
-}
-
-template < typename in_T > 
-MLI_FORCE_INLINE void *mli_math_cast_scalar_to_ptr_fx(in_T src) {
-    // REMARK: Need to check from C/Cpp standard point of view
-    intptr_t out_upcast = src;
-    return static_cast < void *>((intptr_t *) out_upcast);
-}
-
-// Comparators
-//========================================================================
-template < typename io_T > 
-MLI_FORCE_INLINE bool mli_prv_less_than_1(io_T value, uint8_t frac_bits) {
-    if (frac_bits >= sizeof(io_T) * 8 - 1)
-        return true;
-
-    io_T unit = (io_T) 1 << frac_bits;
-    return (value < unit);
-}
-
-// Accumulator shift
-//========================================================================
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_acc_ashift_fx(mli_acc32_t acc, int shift_right) {
-    return mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc40_t mli_math_acc_ashift_fx(mli_acc40_t acc, int shift_right) {
-    return mli_math_asr_rnd_fx<mli_acc40_t>(acc, shift_right);
-}
-
-// Arithmetic shift (right is default, left on the negative val)
-//========================================================================
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_ashift_right_fx(int8_t in_val, int shift_right) {
-    int8_t shifted_in_val = mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
-    return shifted_in_val;
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_ashift_right_fx(int16_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int32_t mli_math_ashift_right_fx(int32_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<int32_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int64_t mli_math_ashift_right_fx(int64_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
-}
-
-// Multiply and cast float to accum
-//========================================================================
-
-MLI_FORCE_INLINE int32_t mli_math_float_scale(float value, float scale) {
-    const float round_val = value > 0 ? 0.5f : -0.5f;
-    return (int32_t)(value * scale + round_val);
-}
-
-// Cast accum to output type
-//========================================================================
-template <>
-MLI_FORCE_INLINE int8_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
-    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-    temp = mli_math_asl_fx<int32_t>(temp, 24);
-    return (int8_t) (temp >> 24);
-}
-
-template <> 
-MLI_FORCE_INLINE int16_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
-    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-    temp = mli_math_asl_fx<mli_acc32_t>(temp, 16);
-    return (int16_t) mli_math_sat_fx<mli_acc32_t>(mli_math_asr_fx<mli_acc32_t>(temp, 16), 16);
-}
-
-template <> MLI_FORCE_INLINE mli_acc32_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
-    return (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
-}
-
-// Cast value to output type (including accumulator type)
-//========================================================================
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int8_t)mli_math_sat_fx<int16_t>(mli_math_asr_rnd_fx<int16_t>(in_val, shift_right), 8);
-}
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(int8_t in_val, int shift_right) {
-    return (int8_t)mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int8_t in_val, int shift_right) {
-    return (int16_t)mli_math_asr_rnd_fx<int16_t>((int16_t)in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int16_t)mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
-    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, shift_right);
-    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
-}
-
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val) {
-    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, 24);
-    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
-    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
-    return (int16_t)mli_math_sat_fx<int32_t>(temp, 16);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val) {
-    return (int16_t)mli_math_sat_fx<int32_t>(in_val, 16);
-}
-
-template <>
-MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
-    return (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
-}
-
-template <>
-MLI_FORCE_INLINE int8_t mli_math_cast_fx(int64_t in_val, int shift_right) {
-    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>((int64_t)in_val, shift_right);
-    return (int8_t)mli_math_sat_fx<int64_t>(temp, 56);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val, int shift_right) {
-    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
-    return (int16_t)mli_math_sat_fx<int64_t>(temp, 48);
-}
-
-template <>
-MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val) {
-    return (int16_t)mli_math_sat_fx<int64_t>(in_val, 48);
-}
-
-template <>
-MLI_FORCE_INLINE int32_t mli_math_cast_fx(int64_t in_val, int shift_right) {
-    in_val = mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
-    return (int32_t)mli_math_sat_fx<int64_t>(in_val, 32);
-}
-
-template <>
-MLI_FORCE_INLINE float mli_math_cast_fx(int32_t in_val, int shift_right) {
-    return (float)in_val / (float)(1 << shift_right);
-}
-
-
-// Multipliers used to apply scale factors in asymetric data types
-//========================================================================
-template <typename acc_T, bool asym_data>
-MLI_FORCE_INLINE mli_acc32_t mli_math_scale_mul(mli_acc32_t accu, int32_t mul) {
-    if (asym_data) {
-        return accu = mli_math_mul_fx_high<int32_t, int32_t>(accu, mul);
-    }else{
-        return accu;
-    }
-}
-
-template <typename b_T, typename acc_T, bool asym_data>
-MLI_FORCE_INLINE acc_T mli_math_init_accu(b_T bias, int32_t bias_mul, int bias_shift) {
-    acc_T accu = mli_math_mul_fx<b_T, acc_T>(bias, asym_data ? 2 : 1); // extra factor of 2 needed because scale mul cannot multiply by 1.
-    accu = mli_math_acc_ashift_fx(accu, -bias_shift);
-    accu = mli_math_scale_mul<acc_T, asym_data>(accu, bias_mul);
-    return accu;
-}
-
-template<typename io_T, typename lr_T>
-MLI_FORCE_INLINE io_T mli_math_bound_range_fx(io_T in, lr_T L, lr_T R) {
-    io_T out;
-    out = mli_math_max_fx(in, L);
-    out = mli_math_min_fx(out, R);
-    return out;
-}
-
-
-// Multiply-and-accumulate operands
-//========================================================================
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int8_t R) {
-    return acc + (mli_acc32_t) (L * R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int16_t R) {
-    return acc + (mli_acc32_t) (L * R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int8_t R) {
-    return acc + (mli_acc32_t)(L * (int16_t)R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int16_t R) {
-    return acc + (mli_acc32_t)((int16_t)L * R);
-}
-
-template <>
-MLI_FORCE_INLINE mli_acc40_t mli_math_mac_fx(mli_acc40_t acc, int16_t L, int16_t R) {
-    return acc + (mli_acc40_t) ((int32_t)L * (int32_t)R);
-}
-
-// Number of lanes in a vector
-//========================================================================
-template <typename T>
-MLI_FORCE_INLINE int get_number_lanes() {
-    int lanes = 0;
-    if (  std::is_same<T, int8_t>::value
-       || std::is_same<T, int16_t>::value
-       || std::is_same<T, int32_t>::value
-       || std::is_same<T, mli_acc40_t>::value
-       || std::is_same<T, int64_t>::value
-       || std::is_same<T, uint8_t>::value
-       || std::is_same<T, uint16_t>::value
-       || std::is_same<T, uint32_t>::value
-       || std::is_same<T, uint64_t>::value) {
-        lanes = 1;
-    }
-    MLI_ASSERT(lanes > 0);
-    return lanes;
-}
-
-template <typename T>
-MLI_FORCE_INLINE int get_number_lanes(T dummy) {
-    return get_number_lanes<T>();
-}
-
-#endif // _REF_MLI_MATH_H_
+/*
+* Copyright 2020-2022, Synopsys, Inc.
+* All rights reserved.
+*
+* This source code is licensed under the BSD-3-Clause license found in
+* the LICENSE file in the root directory of this source tree.
+*
+*/
+
+#ifndef _REF_MLI_MATH_H_
+#define _REF_MLI_MATH_H_
+
+#include <limits>
+#include <type_traits>
+#include "mli_debug.h"
+
+typedef int32_t mli_acc32_t;
+typedef int64_t mli_acc40_t;
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits);
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_limit_fx(T sign) {
+    return sign < (T)0 ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asr_pos_nbits_fx(T x, int nbits)
+{
+    int nbits_max = sizeof(T) * 8 - 1;
+    // This function is internal to this file
+    // and is required to avoid compiler issues.
+    if (nbits > nbits_max)
+        return x < (T)0 ? -1 : 0;
+    return x >> nbits;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asr_fx(T x, int nbits)
+{
+    int nbits_max = sizeof(T) * 8 - 1;
+    int nbits_min = 0;
+    if (nbits > nbits_max)
+        return x < (T)0 ? -1 : 0;
+    if (nbits < nbits_min)
+        return mli_math_asl_fx<T>(x, (-nbits));
+    return x >> nbits;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asl_fx(T x, int nbits)
+{
+    int inp_size = sizeof(T) * 8;
+    T hi = 0;
+
+    if (nbits < 0)
+        return mli_math_asr_pos_nbits_fx<T>(x, (-nbits));
+
+    if (nbits > (inp_size - 1))
+        return x != (T)0 ? mli_math_limit_fx<T>(x) : 0;
+
+    hi = x >> ((inp_size - 1) - nbits);
+    if (hi == (T)0 || hi == (T)-1)
+        return x << nbits;
+
+    return mli_math_limit_fx<T>(hi);
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asr_rnd_fx(T x, int nbits)
+{
+    using unsigned_T = typename std::make_unsigned<T>::type;
+    T r = 0;
+    unsigned_T one = 1u;
+    int nbits_max = sizeof(T) * 8 - 1;
+    int nbits_min = 0;
+
+    if (nbits < nbits_min)
+        return mli_math_asl_fx<T>(x, (-nbits));
+    if (nbits == nbits_min)
+        return x;
+
+    if (nbits > nbits_max)
+        return 0;
+
+    // Rounding up:
+    // if the most significant deleted bit is 1, add 1 to the remaining bits.
+#ifdef ROUND_MODE_UP
+    T round = (T)((one << nbits) >> 1);
+    r = mli_math_add_fx<T>(x, round);
+    r = mli_math_asr_fx<T>(r, nbits);
+#endif
+
+    // Convergent: rounding with half-way value rounded to even value.
+    // If the most significant deleted bit is 1, and 
+    // either the least significant of the remaining bits
+    // or at least one other deleted bit is 1, add 1 to the remaining bits.
+#ifdef ROUND_MODE_CONVERGENT
+    r = mli_math_asr_fx<T>(x, nbits);
+    T last_deleted_mask = (T)((one << nbits) >> 1);
+    if (((x & last_deleted_mask) != (T)0) && 
+            (((r & (T)1) != (T)0) ||  ((x & (last_deleted_mask-(T)1))!= (T)0))) {
+        return mli_math_add_fx<T>(r, 1);
+    }
+#endif
+
+    return r;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_asl_rnd_fx(T x, int nbits)
+{
+    return mli_math_asr_rnd_fx<T>(x, -nbits);
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_neg_fx(T x) {
+    return x == std::numeric_limits<T>::lowest() ? std::numeric_limits<T>::max() : -x;
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_sat_fx(T x, unsigned nbits)
+{
+    return mli_math_asr_fx<T>(mli_math_asl_fx<T>(x, nbits), nbits);
+}
+
+template <typename T>
+MLI_FORCE_INLINE T mli_math_abs_fx(T x)
+{    
+    return x >= (T)0 ? x : mli_math_neg_fx(x);
+}
+
+template <typename T, typename o_T>
+MLI_FORCE_INLINE o_T mli_math_norm_fx(T x)
+{
+    o_T inp_size = sizeof(T) * 8;
+    T hi = x < (T)0 ? (T)-1 : (T)0;
+    o_T r = 0;
+
+    if (x == (T)0)
+        return inp_size - 1;
+
+    while ((x >> r) != hi)
+        r++;
+    return (inp_size - 1) - r;
+}
+
+template<typename in_T, typename out_T>
+MLI_FORCE_INLINE out_T mli_math_norm_cast_fx(in_T val , int32_t *norm_shift) {
+    int32_t cast_shift = (sizeof(in_T) - sizeof(out_T)) * 8;
+    int32_t norm = mli_math_norm_fx<in_T, int32_t>(val);
+    *norm_shift = cast_shift - norm;
+    return mli_math_cast_fx<in_T, out_T>(val, *norm_shift);
+}
+
+// Addition of two fx operands with saturation
+//========================================================================
+template <typename T>
+MLI_FORCE_INLINE T mli_math_add_fx(T L, T R) {
+    if ((R > 0) && (L > std::numeric_limits<T>::max() - R)) // `L + R` would overflow
+        return std::numeric_limits<T>::max();
+    if ((R < 0) && (L < std::numeric_limits<T>::lowest() - R)) // `L + R` would underflow
+        return std::numeric_limits<T>::lowest();
+    return L + R;
+}
+
+// Subtraction of two fx operands with saturation
+//========================================================================
+template <typename T>
+MLI_FORCE_INLINE T mli_math_sub_fx(T L, T R) {
+    if ((R < 0) && (L > std::numeric_limits<T>::max() + R)) // `L - R` would overflow
+        return std::numeric_limits<T>::max();
+    if ((R > 0) && (L < std::numeric_limits<T>::lowest() + R)) // `L - R` would underflow
+        return std::numeric_limits<T>::lowest();
+    return L - R;
+}
+
+// Maximum of two fx operands
+//========================================================================
+template <typename io_T>
+MLI_FORCE_INLINE io_T mli_math_max_fx(io_T L, io_T R) {
+    return (L > R) ? L : R;
+}
+
+template <typename l_T, typename r_T>
+MLI_FORCE_INLINE l_T mli_math_max_fx(l_T L, r_T R) {
+    return (L > R) ? L : R;
+}
+
+// Minimum of two fx operands
+//========================================================================
+template <typename io_T>
+MLI_FORCE_INLINE io_T mli_math_min_fx(io_T L, io_T R) {
+     return (L < R) ? L : R;
+}
+
+// Multiply two operands
+//========================================================================
+template <typename in_T, typename acc_T>
+MLI_FORCE_INLINE acc_T mli_math_mul_fx(in_T L, in_T R) {
+    return L * R;
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mul_fx_high(int32_t L, int32_t R) {
+    // this function takes the MSB part of the result. (L * R) >> 31
+    // in optimized code check if mpyfr instruction is used here.
+    return (mli_acc32_t)(((int64_t)L * (int64_t)R + (int64_t)(1<<30)) >> 31);
+}
+
+template <>
+MLI_FORCE_INLINE int64_t mli_math_mul_fx(int32_t L, int32_t R) {
+    // Result of multiplication is fractional number (shifted left by 1)
+    // To return correct result we shift it right afterward
+    int64_t acc = (int64_t)L * (int64_t)R;
+    return (int64_t) acc;
+}
+
+// Cast scalar to/from void pointer
+//========================================================================
+template < typename out_T > 
+MLI_FORCE_INLINE out_T mli_math_cast_ptr_to_scalar_fx(void *src) {
+    // REMARK: Need to check from C/Cpp standard point of view
+    return static_cast < out_T > ((intptr_t) (src));
+}
+
+template < typename in_T > 
+MLI_FORCE_INLINE void *mli_math_cast_scalar_to_ptr_fx(in_T src) {
+    // REMARK: Need to check from C/Cpp standard point of view
+    intptr_t out_upcast = src;
+    return static_cast < void *>((intptr_t *) out_upcast);
+}
+
+// Comparators
+//========================================================================
+template < typename io_T > 
+MLI_FORCE_INLINE bool mli_prv_less_than_1(io_T value, uint8_t frac_bits) {
+    if (frac_bits >= sizeof(io_T) * 8 - 1)
+        return true;
+
+    io_T unit = (io_T) 1 << frac_bits;
+    return (value < unit);
+}
+
+// Accumulator shift
+//========================================================================
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_acc_ashift_fx(mli_acc32_t acc, int shift_right) {
+    return mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc40_t mli_math_acc_ashift_fx(mli_acc40_t acc, int shift_right) {
+    return mli_math_asr_rnd_fx<mli_acc40_t>(acc, shift_right);
+}
+
+// Arithmetic shift (right is default, left on the negative val)
+//========================================================================
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_ashift_right_fx(int8_t in_val, int shift_right) {
+    int8_t shifted_in_val = mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
+    return shifted_in_val;
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_ashift_right_fx(int16_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int32_t mli_math_ashift_right_fx(int32_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<int32_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int64_t mli_math_ashift_right_fx(int64_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
+}
+
+// Multiply and cast float to accum
+//========================================================================
+
+MLI_FORCE_INLINE int64_t mli_math_float_scale(float value, float scale) {
+    const float round_val = value > 0 ? 0.5f : -0.5f;
+    // Values which can't be represented in the result are saturated.
+    constexpr float limit = (float)(1ll << 62);
+    const float scaled_val = value * scale + round_val;
+    if (scaled_val >= limit) return (int64_t)1 << 62;
+    if (scaled_val <= -limit) return -((int64_t)1 << 62);
+    return (int64_t)scaled_val;
+}
+
+// Cast accum to output type
+//========================================================================
+template <>
+MLI_FORCE_INLINE int8_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
+    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+    temp = mli_math_asl_fx<int32_t>(temp, 24);
+    return (int8_t) (temp >> 24);
+}
+
+template <> 
+MLI_FORCE_INLINE int16_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
+    int32_t temp = (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+    temp = mli_math_asl_fx<mli_acc32_t>(temp, 16);
+    return (int16_t) mli_math_sat_fx<mli_acc32_t>(mli_math_asr_fx<mli_acc32_t>(temp, 16), 16);
+}
+
+template <> MLI_FORCE_INLINE mli_acc32_t mli_math_acc_cast_fx(mli_acc32_t acc, int shift_right) {
+    return (int32_t) mli_math_asr_rnd_fx<mli_acc32_t>(acc, shift_right);
+}
+
+// Cast value to output type (including accumulator type)
+//========================================================================
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(int16_t in_val, int shift_right) {
+    return (int8_t)mli_math_sat_fx<int16_t>(mli_math_asr_rnd_fx<int16_t>(in_val, shift_right), 8);
+}
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(int8_t in_val, int shift_right) {
+    return (int8_t)mli_math_asr_rnd_fx<int8_t>((int8_t)in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int8_t in_val, int shift_right) {
+    return (int16_t)mli_math_asr_rnd_fx<int16_t>((int16_t)in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int16_t in_val, int shift_right) {
+    return (int16_t)mli_math_asr_rnd_fx<int16_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
+    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, shift_right);
+    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
+}
+
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(mli_acc32_t in_val) {
+    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>((int32_t)in_val, 24);
+    return (int8_t)mli_math_sat_fx<int32_t>(temp, 24);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
+    int32_t temp = (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
+    return (int16_t)mli_math_sat_fx<int32_t>(temp, 16);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(mli_acc32_t in_val) {
+    return (int16_t)mli_math_sat_fx<int32_t>(in_val, 16);
+}
+
+template <>
+MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
+    return (int32_t)mli_math_asr_rnd_fx<mli_acc32_t>(in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
+    return mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
+}
+
+template <>
+MLI_FORCE_INLINE int8_t mli_math_cast_fx(int64_t in_val, int shift_right) {
+    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>((int64_t)in_val, shift_right);
+    return (int8_t)mli_math_sat_fx<int64_t>(temp, 56);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val, int shift_right) {
+    int64_t temp = (int64_t)mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
+    return (int16_t)mli_math_sat_fx<int64_t>(temp, 48);
+}
+
+template <>
+MLI_FORCE_INLINE int16_t mli_math_cast_fx(int64_t in_val) {
+    return (int16_t)mli_math_sat_fx<int64_t>(in_val, 48);
+}
+
+template <>
+MLI_FORCE_INLINE int32_t mli_math_cast_fx(int64_t in_val, int shift_right) {
+    in_val = mli_math_asr_rnd_fx<int64_t>(in_val, shift_right);
+    return (int32_t)mli_math_sat_fx<int64_t>(in_val, 32);
+}
+
+template <>
+MLI_FORCE_INLINE float mli_math_cast_fx(int32_t in_val, int shift_right) {
+    return (float)in_val / (float)(1 << shift_right);
+}
+
+
+// Multipliers used to apply scale factors in asymetric data types
+//========================================================================
+template <typename acc_T, bool asym_data>
+MLI_FORCE_INLINE mli_acc32_t mli_math_scale_mul(mli_acc32_t accu, int32_t mul) {
+    if (asym_data) {
+        return accu = mli_math_mul_fx_high<int32_t, int32_t>(accu, mul);
+    }else{
+        return accu;
+    }
+}
+
+template <typename b_T, typename acc_T, bool asym_data>
+MLI_FORCE_INLINE acc_T mli_math_init_accu(b_T bias, int32_t bias_mul, int bias_shift) {
+    acc_T accu = mli_math_mul_fx<b_T, acc_T>(bias, asym_data ? 2 : 1); // extra factor of 2 needed because scale mul cannot multiply by 1.
+    accu = mli_math_acc_ashift_fx(accu, -bias_shift);
+    accu = mli_math_scale_mul<acc_T, asym_data>(accu, bias_mul);
+    return accu;
+}
+
+template<typename io_T, typename lr_T>
+MLI_FORCE_INLINE io_T mli_math_bound_range_fx(io_T in, lr_T L, lr_T R) {
+    io_T out;
+    out = mli_math_max_fx(in, L);
+    out = mli_math_min_fx(out, R);
+    return out;
+}
+
+
+// Multiply-and-accumulate operands
+//========================================================================
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int8_t R) {
+    return acc + (mli_acc32_t) (L * R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int16_t R) {
+    return acc + (mli_acc32_t) (L * R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int16_t L, int8_t R) {
+    return acc + (mli_acc32_t)(L * (int16_t)R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc32_t mli_math_mac_fx(mli_acc32_t acc, int8_t L, int16_t R) {
+    return acc + (mli_acc32_t)((int16_t)L * R);
+}
+
+template <>
+MLI_FORCE_INLINE mli_acc40_t mli_math_mac_fx(mli_acc40_t acc, int16_t L, int16_t R) {
+    return acc + (mli_acc40_t) ((int32_t)L * (int32_t)R);
+}
+
+// Number of lanes in a vector
+//========================================================================
+template <typename T>
+MLI_FORCE_INLINE int get_number_lanes() {
+    int lanes = 0;
+    if (  std::is_same<T, int8_t>::value
+       || std::is_same<T, int16_t>::value
+       || std::is_same<T, int32_t>::value
+       || std::is_same<T, mli_acc40_t>::value
+       || std::is_same<T, int64_t>::value
+       || std::is_same<T, uint8_t>::value
+       || std::is_same<T, uint16_t>::value
+       || std::is_same<T, uint32_t>::value
+       || std::is_same<T, uint64_t>::value) {
+        lanes = 1;
+    }
+    MLI_ASSERT(lanes > 0);
+    return lanes;
+}
+
+template <typename T>
+MLI_FORCE_INLINE int get_number_lanes(T dummy) {
+    return get_number_lanes<T>();
+}
+
+#endif // _REF_MLI_MATH_H_
-- 
2.43.0


From fd05ada831ea44b62eb9509a1c950c25fec41897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:48 +0000
Subject: [PATCH 19/54] fix: dequantization subtracts the zero point without
 saturation

---
 lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h b/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h
index 69655e3..791a992 100644
--- a/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h
+++ b/lib/src/helpers/src/impl/mli_hlp_convert_tensor_ref.h
@@ -226,7 +226,7 @@ mli_status convert_float_data(const mli_tensor * src, mli_tensor * dst, convert_
                                 int32_t tensor_val_sat = mli_math_cast_fx<int64_t, int32_t>(mli_math_add_fx<int64_t>(tensor_val, zero_offset), 0);
                                 tensor_arr[tensor_pos] = mli_math_cast_fx<int32_t, t_T>(tensor_val_sat, 0);
                             } else if (mode == mli::hlp::DEQUANTIZE) {
-                                const float float_tensor_val_unscaled = static_cast<float>(mli_math_sub_fx<int32_t>((int32_t)(tensor_arr[tensor_pos]), zero_offset));
+                                const float float_tensor_val_unscaled = static_cast<float>((int64_t)(tensor_arr[tensor_pos]) - zero_offset);
                                 float_tensor_arr[float_tensor_pos] = float_tensor_val_unscaled * scale_val;
                             }
                         }
-- 
2.43.0


From c58bbcd99d78a5d2b5c4aee7d20e74d26f3c6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:52 +0000
Subject: [PATCH 20/54] fix: Tensor::slice(size) dropped the offset of the
 tensor

---
 include/mli_types.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index bd3b63e..123949c 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -720,6 +720,7 @@ class Tensor {
     
   Tensor<buf_T, maxRank> slice(uint32_t size[]) {
     Tensor<buf_T, maxRank> slice_tens(buf_, size, mem_stride_, rank_);
+    slice_tens.set_offs(offset_);
     return slice_tens;
   }
 
-- 
2.43.0


From e1c875406622e927d888b0be57c20e713343118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:52 +0000
Subject: [PATCH 21/54] fix: Tensor::combine of row-major dimensions took the
 outer memory stride

---
 include/mli_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index 123949c..7761f53 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -794,7 +794,7 @@ class Tensor {
           assert(mem_stride_[r] == (int)shape_[r+1]*mem_stride_[r+1]);
         }
         tns.set_dim(s, shape_[r]*shape_[r+1]);
-        tns.set_mem_stride(s, mem_stride_[r]);
+        tns.set_mem_stride(s, reverse_order ? mem_stride_[r] : mem_stride_[r+1]);
         ++r;
       }
       ++s;
-- 
2.43.0


From 55e446af479c7cd5e8b9da8ca3de304ba7f50584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:52 +0000
Subject: [PATCH 22/54] fix: IteratorCfg::transpose_order mapped axes with the
 inverse permutation

---
 include/mli_iterator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 96f8092..e9c7bbc 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -338,14 +338,18 @@ class IteratorCfg {
     IteratorCfg<iterRank> transpose_order(uint32_t new_order[]) const {
         // create a transposed Iterator, reordering the dimensions
         IteratorCfg<iterRank> iter;
-        // change order of axes
+        // change order of axes: axis new_order[i] of the tensor becomes axis i
         uint32_t c = 0;
+        int32_t new_axis[iterRank];
         for (uint32_t axis = 0; axis < iterRank; axis++) {
           assert(new_order[axis] >= 0 && new_order[axis] < iterRank);
           // axis can only be selected once
           assert((c & (1 << new_order[axis])) == 0);
           c |= (1 << new_order[axis]);
-          iter.m_order[axis] = m_order[axis] < 0 ? -1 : new_order[m_order[axis]];
+          new_axis[new_order[axis]] = axis;
+        }
+        for (uint32_t axis = 0; axis < iterRank; axis++) {
+          iter.m_order[axis] = m_order[axis] < 0 ? -1 : new_axis[m_order[axis]];
           iter.m_count[axis] = m_count[axis];
           iter.m_size[axis] = m_size[axis];
           iter.m_first_size[axis] = m_first_size[axis];
-- 
2.43.0


From 059b7c02e12ead40352652d32084ff611e1e9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:52 +0000
Subject: [PATCH 23/54] fix: IteratorCfg with a dropped axis swapped first and
 middle increments

---
 include/mli_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index e9c7bbc..c28da0f 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -202,8 +202,8 @@ class IteratorCfg {
         m_first_size[j] = icfg.get_first_size(i);
         m_size[j] = icfg.get_size(i);
         m_last_size[j] = icfg.get_last_size(i);
-        m_pos_inc[j] = icfg.get_first_inc(i);
-        m_first_pos_inc[j] = icfg.get_inc(i);
+        m_pos_inc[j] = icfg.get_inc(i);
+        m_first_pos_inc[j] = icfg.get_first_inc(i);
         m_last_pos_inc[j] = icfg.get_last_inc(i);
         m_diff_code[j] = icfg.get_diff_code(i);
         j++;
-- 
2.43.0


From e83fb046af631507dbcee909e99a11e754bae08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:14 +0000
Subject: [PATCH 24/54] fix: MLI 3.0 weights zero points other than the first
 channel's were ignored

---
 lib/src/bricks/impl/mli_prv_quant_ref.h       | 55 +++++++++++++++++--
 lib/src/bricks/mli_prv_quant_decl.h           | 10 ++++
 .../impl/mli_krn_fully_connected_compiler.cc  |  2 +-
 .../common/impl/mli_krn_fully_connected_ref.h |  5 +-
 .../impl/mli_krn_fully_connected_runtime.cc   | 28 ++++++----
 .../impl/mli_krn_convolution_ref.h            | 14 ++++-
 6 files changed, 91 insertions(+), 23 deletions(-)

diff --git a/lib/src/bricks/impl/mli_prv_quant_ref.h b/lib/src/bricks/impl/mli_prv_quant_ref.h
index 2071d0f..6431093 100644
--- a/lib/src/bricks/impl/mli_prv_quant_ref.h
+++ b/lib/src/bricks/impl/mli_prv_quant_ref.h
@@ -143,9 +143,18 @@ MLI_FORCE_INLINE void define_quant_params(const mli_tensor *in, const mli_tensor
         params->in_offset = in->el_params.sa.zero_point.mem.i16;
     }
 
+    params->weights_offsets_i8 = nullptr;
+    params->weights_offsets_i16 = nullptr;
     if (weights->el_params.sa.dim >= 0) {
         // per axis quantization
-        params->weights_offset = weights->el_params.sa.zero_point.mem.pi16[0];
+        const uint32_t channels = weights->shape[weights->el_params.sa.dim];
+        if (weights->el_params.sa.zero_point.capacity == channels * sizeof(int8_t)) {
+            params->weights_offsets_i8 = weights->el_params.sa.zero_point.mem.pi8;
+            params->weights_offset = params->weights_offsets_i8[0];
+        } else {
+            params->weights_offsets_i16 = weights->el_params.sa.zero_point.mem.pi16;
+            params->weights_offset = params->weights_offsets_i16[0];
+        }
     } else {
         // per tensor quantization
         params->weights_offset = weights->el_params.sa.zero_point.mem.i16;
@@ -186,6 +195,17 @@ MLI_FORCE_INLINE void adjust_quant_params(fx_quant_specific_params* in, int krn_
     return;
 }
 
+template <>
+MLI_FORCE_INLINE void adjust_quant_params(int_quant_specific_params* params, int krn_idx) {
+    // zero point of weights can be different across output channels (per axis quantization)
+    if (params->weights_offsets_i8 != nullptr) {
+        params->weights_offset = params->weights_offsets_i8[krn_idx];
+    } else if (params->weights_offsets_i16 != nullptr) {
+        params->weights_offset = params->weights_offsets_i16[krn_idx];
+    }
+    return;
+}
+
 MLI_FORCE_INLINE int16_t quant_params_get_weigths_zeropoint(s8asym_quant_specific_params* params) {
     return params->weights_offset;
 }
@@ -360,6 +380,23 @@ MLI_FORCE_INLINE mli_acc32_t in_additive(
     }
 }
 
+template <>
+MLI_FORCE_INLINE mli_acc32_t in_additive(
+        const MLI_PTR(int8_t) __restrict in, mli_acc32_t init_accum,
+        const int_quant_specific_params* quant_params,
+        const int width, const int height, const int ch, int col_step, int row_step, int ch_step) {
+    // returns -(wights_zero_point * cumsum(input))
+    if (quant_params->weights_offset != 0) {
+        for (int c = 0; c < ch; c++) {
+            init_accum = reduce_sum2D(in, -quant_params->weights_offset, init_accum, width, height, /*channels = */0, col_step, row_step);
+            in += ch_step;
+        }
+        return init_accum;
+    } else {
+        return init_accum;
+    }
+}
+
 //==========================================================================
 // Calculation of zero points additive (zp_add) in
 // dot_prod_asym = dot_prod_gen + w_add + in_add + zp_add + bias_add
@@ -701,13 +738,19 @@ MLI_FORCE_INLINE void define_quant_params(
     MLI_ASSERT(sizeof(w_T) <= sizeof(int16_t));
     MLI_ASSERT(weights.quant_axis >= -1 &&
                weights.quant_axis < static_cast<int>(weights.t.get_rank()));
+    params->weights_offsets_i8 = nullptr;
+    params->weights_offsets_i16 = nullptr;
     if (weights.quant_axis == -1) {
-        // not supported yet
-        MLI_ASSERT(false);
+        params->weights_offset = get_per_tensor_zp<w_T>(weights.zp);
     } else {
-        // If only weights zero points are all zero
-        params->weights_offset = get_per_channel_zp<w_T>(
-            weights.zp, weights.t.get_dim(weights.quant_axis))[0];
+        const w_T* zero_points = get_per_channel_zp<w_T>(
+            weights.zp, weights.t.get_dim(weights.quant_axis));
+        params->weights_offset = zero_points[0];
+        if constexpr (sizeof(w_T) == sizeof(int8_t)) {
+            params->weights_offsets_i8 = zero_points;
+        } else {
+            params->weights_offsets_i16 = zero_points;
+        }
     }
 }
 
diff --git a/lib/src/bricks/mli_prv_quant_decl.h b/lib/src/bricks/mli_prv_quant_decl.h
index 866669f..328843d 100644
--- a/lib/src/bricks/mli_prv_quant_decl.h
+++ b/lib/src/bricks/mli_prv_quant_decl.h
@@ -80,6 +80,9 @@ struct fx_quant_specific_params {
 struct int_quant_specific_params {
     int16_t in_offset;
     int16_t weights_offset;
+    // Per-channel weights zero points (nullptr for per-tensor quantization)
+    const int8_t *weights_offsets_i8;
+    const int16_t *weights_offsets_i16;
 };
 
 typedef union _conv_math_params {
@@ -114,6 +117,8 @@ template <>
 MLI_FORCE_INLINE void adjust_quant_params(s8asym_quant_specific_params* params, int krn_idx);
 template <>
 MLI_FORCE_INLINE void adjust_quant_params(fx_quant_specific_params* in, int krn_idx);
+template <>
+MLI_FORCE_INLINE void adjust_quant_params(int_quant_specific_params* params, int krn_idx);
 
 MLI_FORCE_INLINE int16_t quant_params_get_weigths_zeropoint(s8asym_quant_specific_params* params);
 
@@ -172,6 +177,11 @@ MLI_FORCE_INLINE mli_acc32_t in_additive(const MLI_PTR(int8_t) __restrict in,
         mli_acc32_t init_accum, const s8asym_quant_specific_params* quant_params,
         const int width, const int height, const int ch, int col_step, int row_step, int ch_step);
 
+template <>
+MLI_FORCE_INLINE mli_acc32_t in_additive(const MLI_PTR(int8_t) __restrict in,
+        mli_acc32_t init_accum, const int_quant_specific_params* quant_params,
+        const int width, const int height, const int ch, int col_step, int row_step, int ch_step);
+
 template <typename acc_T, typename quant_T>
 MLI_FORCE_INLINE acc_T zp_additive(const quant_T*,
         acc_T init_accum, const int);
diff --git a/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc b/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
index 72ff152..dbf19c1 100644
--- a/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
+++ b/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
@@ -188,7 +188,7 @@ mli_status FullyConnected_CS::EncodeWtsZeroPts(const Tensor<Buffer, 1> &wtszerop
     else {
       MLI_ASSERT(encoded_wtszeropts.get_size() / encoded_wtszeropts.get_elem_size() ==
       m_weights.get_dim(kKernelFCChannelOutDim));
-      for (uint32_t i = 0; i < wtszeropts.get_dim(kKernelFCChannelOutDim); ++i) {
+      for (uint32_t i = 0; i < wtszeropts.get_dim(0); ++i) {
         encoded_wtszeropts.write(i, static_cast<int16_t>(wtszeropts.read<int8_t>(i)));
       }
     }
diff --git a/lib/src/kernels/common/impl/mli_krn_fully_connected_ref.h b/lib/src/kernels/common/impl/mli_krn_fully_connected_ref.h
index eb21ad3..7884233 100644
--- a/lib/src/kernels/common/impl/mli_krn_fully_connected_ref.h
+++ b/lib/src/kernels/common/impl/mli_krn_fully_connected_ref.h
@@ -82,10 +82,11 @@ MLI_FORCE_INLINE void inner_product(
             out[o_idx] = out_val;
         }
     } else {
-        acc_T in_additives = mli_math_mul_fx<i_T, acc_T>(0, 0);
-        in_additives  = mli::krn::in_additive(in, in_additives, &quant_params, in_elements, 1, 1, 1);
         for (int o_idx = 0; o_idx < out_elements; o_idx++) {
             mli::krn::adjust_quant_params(&quant_params, o_idx);
+            // Zero point of weights can differ from one output channel to another
+            acc_T in_additives = mli_math_mul_fx<i_T, acc_T>(0, 0);
+            in_additives  = mli::krn::in_additive(in, in_additives, &quant_params, in_elements, 1, 1, 1);
             acc_T accu = mli_math_mul_fx<i_T, acc_T>(0, 0);
             accu = dotprod1D(in, &weights[o_idx], accu, in_elements,
                             1, w_ch_out_mem_stride);
diff --git a/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc b/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc
index 9df7a55..7a379a3 100644
--- a/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc
+++ b/lib/src/kernels/common/impl/mli_krn_fully_connected_runtime.cc
@@ -95,30 +95,34 @@ FullyConnected::FullyConnected(void* kernel_private_data_buffer,
     tsr.mem_stride[0] = private_data.weights_ic_stride;
     tsr.mem_stride[1] = private_data.weights_oc_stride;
 
-    // weights zero point should have the same size as the tensor they belong to.
-    uint32_t wtszp_elem_size = sizeof(int16_t);
-    uint32_t wtszp_size = private_data.wtszp_buffer.get_size();
+    // zero points are 16 bit if they have a buffer of their own
+    // and of the same size as weights if they are encoded together with them.
+    uint32_t wtszp_elem_size = private_data.wtszp_buffer.get_elem_size();
 
     // per-channel quantization
-    // TODO: change zp to support both int8_t and int16_t (now zero int16_t value casted to int8_t and back to int16_t here )
-    if (wtszp_size / wtszp_elem_size > 1) {
+    if (private_data.qt_wtszp_axis >= 0) {
       MLI_ASSERT(private_data.qt_wtszp_axis < MLI_MAX_RANK);
-      MLI_ASSERT(private_data.weights_oc == wtszp_size / wtszp_elem_size);
+      MLI_ASSERT(private_data.weights_oc <= private_data.wtszp_buffer.get_size() / wtszp_elem_size);
       tsr.el_params.sa.dim = private_data.qt_wtszp_axis;
 
-      tsr.el_params.sa.zero_point.capacity = wtszp_size;
+      tsr.el_params.sa.zero_point.capacity = private_data.weights_oc * wtszp_elem_size;
       InternalBuffer wtszp_internal(private_data.wtszp_buffer, membases, num_mems);
-      wtszp_internal.set_elem_size(sizeof(int16_t));
-      tsr.el_params.sa.zero_point.mem.pi16 = wtszp_internal.get_ptr<int16_t>();
+      if (wtszp_elem_size == sizeof(int8_t)) {
+        tsr.el_params.sa.zero_point.mem.pi8 = wtszp_internal.get_ptr<int8_t>();
+      } else {
+        tsr.el_params.sa.zero_point.mem.pi16 = wtszp_internal.get_ptr<int16_t>();
+      }
     } else {
       // per-tensor quantization
-      MLI_ASSERT(1 == wtszp_size / wtszp_elem_size);
       tsr.el_params.sa.dim = private_data.qt_wtszp_axis;
       tsr.el_params.sa.zero_point.capacity = 0;
 
       InternalBuffer wtszp_internal(private_data.wtszp_buffer, membases, num_mems);
-      wtszp_internal.set_elem_size(sizeof(int16_t));
-      tsr.el_params.sa.zero_point.mem.i16 = wtszp_internal.read<int16_t>(0);
+      if (wtszp_elem_size == sizeof(int8_t)) {
+        tsr.el_params.sa.zero_point.mem.i16 = wtszp_internal.read<int8_t>(0);
+      } else {
+        tsr.el_params.sa.zero_point.mem.i16 = wtszp_internal.read<int16_t>(0);
+      }
     }
   }
 }
diff --git a/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h b/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
index 44ee99b..bc5cade 100644
--- a/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
+++ b/lib/src/kernels/convolution/impl/mli_krn_convolution_ref.h
@@ -106,8 +106,14 @@ MLI_FORCE_INLINE void convolution2D(
                           weights.col_mem_stride, weights.row_mem_stride, weights.in_ch_mem_stride,
                           &accu);
 
+                if (!has_bias) {
+                    // Zero point of weights can differ from one output channel to another
+                    mli::krn::adjust_quant_params(&quant_params, out_ch_idx);
+                }
+
                 accu = mli::krn::in_additive(in_ptr , accu, &quant_params, clmns, rows, in.ch,
-                                       in.col_mem_stride, in.row_mem_stride, in.ch_mem_stride);
+                                       in.col_mem_stride * dilation_width, in.row_mem_stride * dilation_height,
+                                       in.ch_mem_stride);
 
                 o_T out_val;
 
@@ -164,7 +170,7 @@ MLI_FORCE_INLINE void convolution2D(
                         // out_val = 0 - (-out_val - sum_i(w_zp*x_zp))
                         accu = ::mli::krn::ref::zp_additive(
                             &quant_params, mli_math_sub_fx<acc_T>(zero, accu),
-                            (weights_full.kernel_height * weights_full.kernel_width) - (clmns * rows));
+                            ((weights_full.kernel_height * weights_full.kernel_width) - (clmns * rows)) * in.ch);
                         accu = mli_math_sub_fx<acc_T>(zero, accu);
                     }
 
@@ -256,6 +262,10 @@ MLI_FORCE_INLINE void depthwise_convolution2D(
                 accu = mli::krn::dotprod2D(in_ptr, w_ptr, accu, clmns, rows,
                                            in.col_mem_stride * dilation_width, in.row_mem_stride * dilation_height,
                                            weights.col_mem_stride, weights.row_mem_stride);
+                if (!has_bias) {
+                    // Zero point of weights can differ from one channel to another
+                    mli::krn::adjust_quant_params(&quant_params, out_ch_idx);
+                }
                 accu  = mli::krn::in_additive(in_ptr, accu, &quant_params,
                                               clmns, rows,
                                               in.col_mem_stride * dilation_width,
-- 
2.43.0


From 279d14a7993cdfda091ccaa6683d6ae675b2e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:17 +0000
Subject: [PATCH 25/54] fix: MatMul narrowed zero-point differences, ignored
 memory strides and reported left offsets for the right input

---
 lib/src/kernels/convolution/mli_krn_matmul_ref.hpp  | 13 ++++++++-----
 .../kernels/convolution/mli_krn_matmul_runtime.cc   |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
index 126205f..aa9f1bd 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
+++ b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
@@ -45,8 +45,9 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   MLI_ASSERT(encoded_params.get_elem_size() == sizeof(int8_t));
   MLI_ASSERT(encoded_params.get_size() == kMatMulRank);
 
-  in1_t val1;
-  in2_t val2;
+  // difference of a value and a zero point doesn't fit the input type
+  out_t val1;
+  out_t val2;
   out_t acc;
 
   /**
@@ -60,17 +61,19 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   uint32_t left_w = in_left.get_dim(kMatMulWidthDim);
   int32_t left_mem_strides[kMatMulRank];
   int32_t right_mem_strides[kMatMulRank];
+  int32_t out_mem_strides[kMatMulRank];
   in_left.get_mem_strides(left_mem_strides);
   in_right.get_mem_strides(right_mem_strides);
+  output.get_mem_strides(out_mem_strides);
   for(uint32_t left_height_index = 0; left_height_index < left_h; ++left_height_index) {
     for (uint32_t right_width_index = 0; right_width_index < right_w; ++right_width_index) {
       acc = 0;
       for (uint32_t left_width_index = 0, right_height_index = 0; left_width_index < left_w; ++left_width_index, ++right_height_index) {
-          val1 = in_left.template read<in1_t>(left_height_index * left_mem_strides[0] + left_width_index) - in_left_zp;
-          val2 = in_right.template read<in2_t>(right_height_index * right_mem_strides[0] + right_width_index) - in_right_zp;
+          val1 = in_left.template read<in1_t>(left_height_index * left_mem_strides[0] + left_width_index * left_mem_strides[1]) - in_left_zp;
+          val2 = in_right.template read<in2_t>(right_height_index * right_mem_strides[0] + right_width_index * right_mem_strides[1]) - in_right_zp;
           acc += val1 * val2;
       }
-        output.template write<out_t>( left_height_index * right_w + right_width_index, static_cast<out_t>(acc) );
+        output.template write<out_t>(left_height_index * out_mem_strides[0] + right_width_index * out_mem_strides[1], acc);
     }
   }
 }
diff --git a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
index b4acf02..81b610d 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
@@ -92,7 +92,7 @@ void MatMul::GetIOSizesAndOffsets(uint32_t input_left_size[kMatMulRank], uint32_
                                   int32_t output_offsets[kMatMulRank]) const{
   
   m_input_left.get_pos(input_left_offsets);
-  m_input_left.get_pos(input_right_offsets);
+  m_input_right.get_pos(input_right_offsets);
   m_output.get_pos(output_offsets);
   
   m_tile_input_left.get_dims(input_left_size);
-- 
2.43.0


From c2269e77cfa301071389e59f57c7b209fae2c198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:31 +0000
Subject: [PATCH 26/54] fix: MLI 3.0 depthwise convolution computed only the
 first batch of a tile

---
 .../kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
index 0ad28b2..08b5832 100644
--- a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
@@ -82,8 +82,6 @@ mli_status DepthwiseConv2d::Issue() {
     InternalBuffer out_buf = m_tile_output.get_buf();
     InternalBuffer curr_inp_buf(inp_buf);
     InternalBuffer curr_out_buf(out_buf);
-    m_tile_input.set_buf(curr_inp_buf);
-    m_tile_output.set_buf(curr_out_buf);
 
     QTensor<InternalBuffer, kDepthwiseIORank> qinput{
       m_tile_input, m_metadata.inpzp_buffer, m_metadata.inp_quant_axis};
@@ -92,6 +90,8 @@ mli_status DepthwiseConv2d::Issue() {
 
 
     for (uint32_t i = 0; i < m_tile_batch_size; i++) {
+      qinput.t.set_buf(curr_inp_buf);
+      m_tile_output.set_buf(curr_out_buf);
       conv2d_prepare_and_run<int8_t, int8_t, int32_t, mli_8x8_accu_t, LAYOUT_HWC,
                             ::mli::CONV_DEPTHWISE, kDepthwiseIORank,
                             kDepthwiseWRank, DwConv2DConfig>(
@@ -100,7 +100,6 @@ mli_status DepthwiseConv2d::Issue() {
       curr_inp_buf.inc(m_metadata.input.get_mem_stride(kGroupTensorBatchDim));
       curr_out_buf.inc(m_metadata.output.get_mem_stride(kGroupTensorBatchDim));
     }
-    m_tile_input.set_buf(inp_buf);
     m_tile_output.set_buf(out_buf);
   } else {
     // datatype is not supported yet
@@ -121,6 +120,7 @@ mli_status DepthwiseConv2d::Update() {
   const auto input_tile_tensor = m_metadata.input.GetSubTensor();
   uint32_t input_tile_shape[kDepthwiseIORank];
   input_tile_tensor.get_dims(input_tile_shape);
+  m_tile_batch_size = input_tile_shape[kGroupTensorBatchDim];
   input_tile_shape[kGroupTensorBatchDim] = 1;
   m_tile_input = Tensor<InternalBuffer, kDepthwiseIORank>(m_tile_input, input_tile_shape);
 
-- 
2.43.0


From 422ce0f183b88ab81ce34fe668b399b809fe1948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:59 +0000
Subject: [PATCH 27/54] fix: MLI 3.0 transposed convolution tiled with a kernel
 bigger than the stride missed the contributions across tile borders

---
 lib/src/helpers/src/mli_helpers_30.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/helpers/src/mli_helpers_30.cc b/lib/src/helpers/src/mli_helpers_30.cc
index bb72e5b..04c7b52 100644
--- a/lib/src/helpers/src/mli_helpers_30.cc
+++ b/lib/src/helpers/src/mli_helpers_30.cc
@@ -18,12 +18,15 @@ DeconvTensorIteratorTuple GetDeconvTensorIterators(Tensor<NoBuffer, kTransposeCo
   auto in_tensor_it_cfg = in_tensor_it.get_config();
 
   // TODO: fix this it some how better than just disabling tiling
-  if (in_tensor_it_cfg.get_last_size(kGroupTensorHeightDim) < weights_tensor.get_dim(kKernelHeightDim)) {
+  // Outputs next to a tile border depend on input on both sides of it if kernel is bigger than stride
+  if (in_tensor_it_cfg.get_last_size(kGroupTensorHeightDim) < weights_tensor.get_dim(kKernelHeightDim) ||
+      effective_kernel_size[kGroupTensorHeightDim] > stride[kGroupTensorHeightDim]) {
     const int32_t disable_mask[kTransposeConvIORank]{ 0, 1, 0, 0, 0 };
     in_tensor_it_cfg.template DisableTiling<NoBuffer, kTransposeConvIOIterRank>(disable_mask, in_tensor_it.get_tensor());
     in_tensor_it_cfg.SetCount(1, kGroupTensorHeightDim);
   }
-  if (in_tensor_it_cfg.get_last_size(kGroupTensorWidthDim) < weights_tensor.get_dim(kKernelWidthDim)) {
+  if (in_tensor_it_cfg.get_last_size(kGroupTensorWidthDim) < weights_tensor.get_dim(kKernelWidthDim) ||
+      effective_kernel_size[kGroupTensorWidthDim] > stride[kGroupTensorWidthDim]) {
     const int32_t disable_mask[kTransposeConvIORank]{ 0, 0, 1, 0, 0 };
     in_tensor_it_cfg.template DisableTiling<NoBuffer, kTransposeConvIOIterRank>(disable_mask, in_tensor_it.get_tensor());
     in_tensor_it_cfg.SetCount(1, kGroupTensorWidthDim);
-- 
2.43.0


From 4e90d60afe8dc1d32c4c54ad3a4711ed26c93f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:12 +0000
Subject: [PATCH 28/54] fix: MLI 3.0 SumPool2D decided on tile padding by
 position and full tile size

---
 .../kernels/pooling/mli_krn_sumpool_runtime.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc b/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
index afd86a2..f017f4a 100644
--- a/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
+++ b/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
@@ -133,18 +133,12 @@ mli_status SumPool2D::Update() {
 void SumPool2D::UpdateTilePaddings() {
   memcpy(&m_tile_cfg, &m_cfg, sizeof(mli_pool_cfg));
 
-  int32_t tile_input_offsets[kPoolRank];
-  m_input.get_pos(tile_input_offsets);
-
-  const auto& input_it_cfg = m_input.get_config();
-  if (tile_input_offsets[kTensorHeightDim]) m_tile_cfg.padding_top = 0;
-  if (tile_input_offsets[kTensorHeightDim] + (int32_t) input_it_cfg.get_size(kTensorHeightDim) < (int32_t)m_input.get_dim(kTensorHeightDim)) {
-    m_tile_cfg.padding_bottom = 0;
-  }
-  if (tile_input_offsets[kTensorWidthDim]) m_tile_cfg.padding_left = 0;
-  if (tile_input_offsets[kTensorWidthDim] + (int32_t) input_it_cfg.get_size(kTensorWidthDim) < (int32_t)m_input.get_dim(kTensorWidthDim)) {
-    m_tile_cfg.padding_right = 0;
-  }
+  // only the outermost tiles have padding: a position or size doesn't tell,
+  // as next tile can start at 0 and last one can be smaller than others
+  if (!m_input.is_first_tile(kTensorHeightDim)) m_tile_cfg.padding_top = 0;
+  if (!m_input.is_last_tile(kTensorHeightDim)) m_tile_cfg.padding_bottom = 0;
+  if (!m_input.is_first_tile(kTensorWidthDim)) m_tile_cfg.padding_left = 0;
+  if (!m_input.is_last_tile(kTensorWidthDim)) m_tile_cfg.padding_right = 0;
 }
 
 void SumPool2D::GetIOSizesAndOffsets(uint32_t input_size[kPoolRank], uint32_t output_size[kPoolRank],
-- 
2.43.0


From 76ec7ded7e997cf7352d1ba8d46d5e48903f9d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:12 +0000
Subject: [PATCH 29/54] fix: MLI 3.0 ReduceMax processed the whole tensor as
 its first tile

---
 lib/src/kernels/conversion/mli_reduce_max_runtime.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
index 8540068..fe64c3e 100644
--- a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
+++ b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
@@ -29,6 +29,8 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     m_out_elem_size = private_buffer.output.get_tensor().get_elem_size();
     m_input = private_buffer.input;
     m_output = private_buffer.output;
+    const auto input_tile_tensor = m_input.GetSubTensor();
+    const auto output_tile_tensor = m_output.GetSubTensor();
     // construct configurations
     m_reduce_axis = private_buffer.reduce_axis;
 
@@ -49,7 +51,7 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     }
 
     for(unsigned int i = 0; i < m_tile_input.rank ; i++){
-        m_tile_input.shape[i] = private_buffer.input.get_dim(i);
+        m_tile_input.shape[i] = input_tile_tensor.get_dim(i);
         m_tile_input.mem_stride[i] = private_buffer.input.get_mem_stride(i);
     }
 
@@ -71,7 +73,7 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     }
     
     for(unsigned int i = 0; i < m_tile_output.rank ; i++){
-        m_tile_output.shape[i] = private_buffer.output.get_dim(i);
+        m_tile_output.shape[i] = output_tile_tensor.get_dim(i);
         m_tile_output.mem_stride[i] = private_buffer.output.get_mem_stride(i);
     }
 }
-- 
2.43.0


From 5c565e0741ecdc174e5869b2d52e71ddda5c3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:12 +0000
Subject: [PATCH 30/54] fix: MLI 3.0 element-wise kernels used uninitialised
 quantization parameters of their tile tensors

---
 include/mli_service_functions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mli_service_functions.hpp b/include/mli_service_functions.hpp
index d5bf6f9..2a85784 100644
--- a/include/mli_service_functions.hpp
+++ b/include/mli_service_functions.hpp
@@ -179,6 +179,8 @@ template <typename T>
 void ReconstructTensor(InternalBuffer& internal_buffer, mli_tensor& tensor,
                          uint32_t rank, uint32_t* shape, int32_t* stride ) {
   tensor.rank = rank;
+  // no conversion of quantization parameters is done at runtime, but kernels look at them
+  tensor.el_params = {};
   // assign pointer or val
   if (tensor.rank != 0) {
     MLI_ASSERT(internal_buffer.get_ptr<T>() != nullptr);
-- 
2.43.0


From 0d4574fab1c53dde42b471c5ec62278b62369545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:37 +0000
Subject: [PATCH 31/54] fix: MLI 3.0 Rescale from int8 to int32 read its input
 as int32

---
 .../kernels/conversion/mli_krn_rescale_runtime.cc  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index 855e7cb..f74edb9 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -206,13 +206,13 @@ mli_status Rescale::Issue() {
                 MLI_ASSERT(0);
             }
             else if (out_elem_size == sizeof(int32_t)) {
-              mli_krn::mli_krn_rescale<int32_t, int32_t>(&m_tile_metadata.input,
-                                                         &m_tile_metadata.in_bias,
-                                                         &m_tile_metadata.scale,
-                                                         &m_tile_metadata.shift,
-                                                         &m_tile_metadata.out_bias,
-                                                         m_tile_metadata.rescale_axis,
-                                                         &m_tile_metadata.output);
+              mli_krn::mli_krn_rescale<int8_t, int32_t>(&m_tile_metadata.input,
+                                                        &m_tile_metadata.in_bias,
+                                                        &m_tile_metadata.scale,
+                                                        &m_tile_metadata.shift,
+                                                        &m_tile_metadata.out_bias,
+                                                        m_tile_metadata.rescale_axis,
+                                                        &m_tile_metadata.output);
             }
             break;
         default:
-- 
2.43.0


From ebb2961c9dc63e826fd01ecfe87ed680c5771ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:00 +0000
Subject: [PATCH 32/54] fix: MLI 3.0 Rescale saturated the difference of int8
 input and bias to int8

---
 lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp b/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
index 39fa599..ce88f65 100644
--- a/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
@@ -29,9 +29,8 @@ static MLI_FORCE_INLINE o_T rescale_value(
     constexpr int max_shift_left = -63;
     int32_t shift = MAX(max_shift_left, MIN(shift_right, max_shift_right));
 
-    i_T value = mli_math_sub_fx(in_val, in_bias);
-    int64_t scaled_value = mli_math_mul_fx<int32_t, int64_t> (static_cast<int32_t>(value),
-                                                              static_cast<int32_t>(scale));
+    int32_t value = mli_math_sub_fx(static_cast<int32_t>(in_val), static_cast<int32_t>(in_bias));
+    int64_t scaled_value = mli_math_mul_fx<int32_t, int64_t> (value, static_cast<int32_t>(scale));
     scaled_value = mli_math_ashift_right_fx(scaled_value, shift);
     scaled_value = mli_math_add_fx(scaled_value, static_cast<int64_t>(out_bias));
     o_T result = mli_math_cast_fx<int64_t, o_T>(scaled_value, 0);
-- 
2.43.0


From 5243c1c56c678c0e648822924c6319721e8a5c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 33/54] fix: MLI 3.0 Prelu with rank-4 tensors ignored the
 per-tensor axis

---
 lib/src/kernels/transform/mli_krn_prelu_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/transform/mli_krn_prelu_compiler.cc b/lib/src/kernels/transform/mli_krn_prelu_compiler.cc
index 1a3b7bf..44b57bc 100644
--- a/lib/src/kernels/transform/mli_krn_prelu_compiler.cc
+++ b/lib/src/kernels/transform/mli_krn_prelu_compiler.cc
@@ -34,7 +34,7 @@ Prelu_CS::Prelu_CS(const lib_mli::PlatformDescription pd,
     uint32_t in_shape[kPreluRank];
     m_input.get_full_shape(in_shape);
 
-    m_config.axis = io_rank - 1;
+    m_config.axis = cfg.axis < 0 ? cfg.axis : static_cast<int32_t>(io_rank - 1);
     
     // size_in_bytes = No.of elements multplied by params elements' sizes
     m_encoded_params_buffer_size = in_shape[io_rank - 1] *
-- 
2.43.0


From 03b1fd1f0928d38a7a752781f90dcca245241856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:25 +0000
Subject: [PATCH 34/54] fix: MLI 3.0 Prelu chose the slope with an overflowing
 subtraction

---
 lib/src/kernels/transform/impl/mli_krn_prelu_ref.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
index 6813c70..eb641e2 100644
--- a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
@@ -431,7 +431,7 @@ static MLI_FORCE_INLINE void compute_prelu_per_axis(
                         const int param_idx = pos[prelu_axis];
                         i_T in_val = mli_prv_tensor_read<i_T>(in, pos[0], pos[1], pos[2], pos[3], pos[4]);
                         o_T out_val;
-                        if(in_val - in_bias[param_idx] >= 0) {
+                        if(in_val >= in_bias[param_idx]) {
                             out_val = scale_value(in_val, in_bias[param_idx],
                                                   out_bias[param_idx], posscale[param_idx],
                                                   posshift[param_idx]);
@@ -470,7 +470,7 @@ static MLI_FORCE_INLINE void compute_prelu_per_tensor(
                     for (pos[4] = 0; pos[4] < in.get_dim(4); pos[4]++) {
                         i_T in_val = mli_prv_tensor_read<i_T>(in, pos[0], pos[1], pos[2], pos[3], pos[4]);
                         o_T out_val;
-                        if(in_val - in_bias >= 0) {
+                        if(in_val >= in_bias) {
                             out_val = scale_value(in_val, in_bias,
                                                   out_bias, posscale, posshift);
                         } else {
-- 
2.43.0


From 030542eb21cf525ae3cfc60c1f65b3b1a0604127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:30 +0000
Subject: [PATCH 35/54] fix: Rescale_CS::EncodeParams was documented with its
 parameters in another order than it reads them

---
 include/api/mli_ref_compiler_api.hpp | 2 +-
 include/mli_compiler_api.hpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/api/mli_ref_compiler_api.hpp b/include/api/mli_ref_compiler_api.hpp
index a308817..ac48087 100644
--- a/include/api/mli_ref_compiler_api.hpp
+++ b/include/api/mli_ref_compiler_api.hpp
@@ -815,9 +815,9 @@ public:
     unsigned GetOutputBufferSize() const override;
     unsigned GetEncodedParamsSize() const override;
     mli_status EncodeParams(const Tensor<Buffer, kRescaleParamRank> &in_bias,
-                            const Tensor<Buffer, kRescaleParamRank> &out_bias,
                             const Tensor<Buffer, kRescaleParamRank> &scale,
                             const Tensor<Buffer, kRescaleParamRank> &shift,
+                            const Tensor<Buffer, kRescaleParamRank> &out_bias,
                             Buffer &encoded_params) override;
     mli_status GetKernelPrivateData( void *kernel_private_data_buffer ) override;
     unsigned GetKernelPrivateDataSize() const override;
diff --git a/include/mli_compiler_api.hpp b/include/mli_compiler_api.hpp
index 02bdf90..ef6d5c8 100644
--- a/include/mli_compiler_api.hpp
+++ b/include/mli_compiler_api.hpp
@@ -807,15 +807,15 @@ public:
      * The content of the encode_params buffer is opaque for the user.
      *
      * @param in_bias        [I] tensor with the input bias
-     * @param out_bias       [I] tensor with the output bias
      * @param scale          [I] tensor with the scale
      * @param shift          [I] tensor with the shift
+     * @param out_bias       [I] tensor with the output bias
      * @param encoded_params [O] encoded parameters buffer
      */
     virtual mli_status EncodeParams(const Tensor<Buffer, kRescaleParamRank> &in_bias,
-                                    const Tensor<Buffer, kRescaleParamRank> &out_bias,
                                     const Tensor<Buffer, kRescaleParamRank> &scale,
                                     const Tensor<Buffer, kRescaleParamRank> &shift,
+                                    const Tensor<Buffer, kRescaleParamRank> &out_bias,
                                     Buffer &encoded_params) = 0;
 
     /**
-- 
2.43.0


From a9e9f178f6c417af4c743dd6ec2e9a56378f8868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:03 +0000
Subject: [PATCH 36/54] fix: tile offsets of moving iterators went astray in
 dimensions with a single tile or zero increments

---
 include/mli_iterator.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index c28da0f..7c8fa9c 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -528,19 +528,21 @@ class BufferIterator {
         // tensor/tile is 1 or 0, that simply means that dimension doesn't exist
         // in terms of buffer, so offset must be 0.
         if (cfg.get_buf_tiles_num() == 0 && full_tensor.get_dim(i) > 1) {
-          m_first_offset_inc[axis] = cfg.get_first_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
-          m_offset_inc[axis] = cfg.get_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
-          m_last_offset_inc[axis] = cfg.get_last_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
+          m_first_offset_inc[axis] = cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
+          m_offset_inc[axis] = cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
+          m_last_offset_inc[axis] = cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
 
         } else {
           m_first_offset_inc[axis] = 0;
           m_offset_inc[axis] = 0;
           m_last_offset_inc[axis] = 0;
-          m_buffer_size *= buffer_dim;
+          if (cfg.get_buf_tiles_num() != 0) m_buffer_size *= buffer_dim;
         }
         m_buffer_dec[axis] = cfg.get_buf_tiles_num() == 0
                              ? full_tensor.get_dim(axis) * full_tensor.get_mem_stride(axis)
                              : buffer_dim * full_tensor.get_mem_stride(axis);
+        // The last increment already returns to the beginning of the dimension
+        if (m_last_offset_inc[axis] <= 0) m_buffer_dec[axis] = 0;
       }
     };
 
-- 
2.43.0


From 751d8570384d001ffddf71d6c0cf73d68dffb085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:38 +0000
Subject: [PATCH 37/54] fix: Move_CS::AttachBufferOffsets for tensors did not
 attach the buffers to the iterators

---
 lib/src/move/mli_mov_compiler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/move/mli_mov_compiler.cc b/lib/src/move/mli_mov_compiler.cc
index 7ac4e36..798bd5e 100644
--- a/lib/src/move/mli_mov_compiler.cc
+++ b/lib/src/move/mli_mov_compiler.cc
@@ -56,6 +56,9 @@ mli_status Move_CS::AttachBufferOffsets(const Tensor<OffsetBuffer, kMoveRank> &s
   m_src_offset_buf = src.get_buf();
   m_dst_offset_buf = dst.get_buf();
 
+  m_src_it.set_buf(m_src_offset_buf);
+  m_dst_it.set_buf(m_dst_offset_buf);
+
   assert(src.get_elem_size() == dst.get_elem_size());
 
   return MLI_STATUS_OK;
-- 
2.43.0


From 23e25a65436df37559771df349d281d09ad9493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:35 +0000
Subject: [PATCH 38/54] fix: Move_CS created from whole tensors moved a single
 element

---
 include/mli_kernels_factory_ref.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mli_kernels_factory_ref.hpp b/include/mli_kernels_factory_ref.hpp
index 29f843b..412025a 100644
--- a/include/mli_kernels_factory_ref.hpp
+++ b/include/mli_kernels_factory_ref.hpp
@@ -125,7 +125,9 @@ public:
          */
         assert(kernel_buffer != nullptr);
         assert(((size_t) kernel_buffer % kMliAlignment) == 0);
-        return new(kernel_buffer) lib_ref::Move_CS(m_pd, src, dst);
+        return new(kernel_buffer) lib_ref::Move_CS(m_pd, src, dst,
+                                                   IteratorCfg<kMoveIterRank>(src),
+                                                   IteratorCfg<kMoveIterRank>(dst));
     }
 
     lib_mli::Move_CS* Move_CS(void *kernel_buffer,
-- 
2.43.0


From e95543a8ed3ee9ba96d49cd296aa187453f6c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:13 +0000
Subject: [PATCH 39/54] fix: Move into a tile buffer misplaced the rows of
 tiles clipped before the last one

---
 include/mli_iterator.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 7c8fa9c..765b5d5 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -608,6 +608,18 @@ class BufferIterator {
       return m_buffer_offset;
     }
 
+    /**
+     * @brief Adapt the decrement at the end of each dimension to the number of
+     * steps made in it
+     *
+     * @param count [I] Number of steps per dimension
+     */
+    void SetCount(const int32_t count[iterRank]) {
+      for (uint32_t i = 0; i < iterRank; i++) {
+        m_buffer_dec[i] = (count[i] - 1) * m_offset_inc[i] + m_last_offset_inc[i];
+      }
+    }
+
     uint32_t GetLastInc(uint32_t axis){
       return m_last_offset_inc[axis];
     }
@@ -1142,6 +1154,7 @@ class TensorIterator {
     
     void SetCount(int32_t * count){
       m_config.set_count(count);
+      m_buffer_itr.SetCount(count);
     }
 
     int32_t GetTensorShape(int32_t dim){
-- 
2.43.0


From 6f90ad9bebd02c3ce28a25c9cc717fe80bd3fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:46 +0000
Subject: [PATCH 40/54] fix: MLI 3.0 Permute used uninitialised quantization
 parameters of its tile tensors

---
 lib/src/kernels/diverse/mli_krn_permute_runtime.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
index c103cc5..9498e44 100644
--- a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
+++ b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
@@ -42,6 +42,8 @@ Permute::Permute(void* kernel_private_data_buffer, size_t size, uint64_t membase
     const auto input_tile_tensor = m_metadata.m_input.GetSubTensor();
     InternalBuffer input_internal(private_buffer.input.get_buf(), membases, num_mems);
     m_metadata.m_tile_input.rank = private_buffer.io_rank;
+    m_metadata.m_tile_input.el_params = {};
+    m_metadata.m_tile_input.el_params.sa.dim = -1;
     if(m_in_elem_size == sizeof(int32_t)) {
         m_metadata.m_tile_input.el_type = MLI_EL_SA_32;
         mli_prv_tensor_set_data_ptr(&m_metadata.m_tile_input, input_internal.get_ptr<int32_t>());
@@ -71,6 +73,8 @@ Permute::Permute(void* kernel_private_data_buffer, size_t size, uint64_t membase
     const auto output_tile_tensor = m_metadata.m_output.GetSubTensor();
     InternalBuffer output_internal(private_buffer.output.get_buf(), membases, num_mems);
     m_metadata.m_tile_output.rank = private_buffer.io_rank;
+    m_metadata.m_tile_output.el_params = {};
+    m_metadata.m_tile_output.el_params.sa.dim = -1;
     if(m_out_elem_size == sizeof(int32_t)) {
         m_metadata.m_tile_output.el_type = MLI_EL_SA_32;
         mli_prv_tensor_set_data_ptr(&m_metadata.m_tile_output, output_internal.get_ptr<int32_t>());
-- 
2.43.0


From 0fc2ce875b81e808176376fc8bba3a3de1ed060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:46 +0000
Subject: [PATCH 41/54] fix: MLI 3.0 Permute of 16-bit elements did nothing

---
 lib/src/kernels/diverse/mli_krn_permute_runtime.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
index 9498e44..1416c69 100644
--- a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
+++ b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
@@ -118,6 +118,18 @@ mli_status Permute::Issue() {
             }
             break;
 
+        case (sizeof(int16_t)):
+            for(uint32_t i = 0; i < kPermuteRank; i++) {
+                cfg.perm_dim[i] = m_perm_dim[i];
+            }
+            if(sa_el_type == true) {
+                mli_ref::mli_krn_permute_run<int16_t, true>(&m_metadata.m_tile_input, &cfg, &m_metadata.m_tile_output);
+            }
+            else {
+                mli_ref::mli_krn_permute_run<int16_t, false>(&m_metadata.m_tile_input, &cfg, &m_metadata.m_tile_output);
+            }
+            break;
+
         case (sizeof(int8_t)):
             for(uint32_t i = 0; i < kPermuteRank; i++) {
                 cfg.perm_dim[i] = m_perm_dim[i];
-- 
2.43.0


From 13ffe335fff3abf2e85749ad667c8588456f46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:46 +0000
Subject: [PATCH 42/54] fix: MLI 3.0 ResizeBilinear read before the input for
 start offsets below -1

---
 lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp b/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
index 13b722d..fb3b996 100644
--- a/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
@@ -40,13 +40,13 @@ mli_status mli_resize_bilinear(const mli_tensor* in, const ResizeOpConfig& cfg,
             row_int = row_fx >> cfg.shift;
             delta_row_fx = row_fx - (row_int << cfg.shift);
             input_row0_int = MIN(MAX(row_int, 0), in_prv.shape[kTensorHeightDim] - 1);
-            input_row1_int = MIN(row_int + 1, in_prv.shape[kTensorHeightDim] - 1);
+            input_row1_int = MIN(MAX(row_int + 1, 0), in_prv.shape[kTensorHeightDim] - 1);
             for (w = 0; w < out_prv.shape[kTensorWidthDim]; w++) {
                 col_fx = w * cfg.stride[1] + cfg.offset[1];
                 col_int = col_fx >> cfg.shift;
                 delta_col_fx = col_fx - (col_int << cfg.shift);
                 input_col0_int = MIN(MAX(col_int, 0), in_prv.shape[kTensorWidthDim] - 1);
-                input_col1_int = MIN(col_int + 1, in_prv.shape[kTensorWidthDim] - 1);
+                input_col1_int = MIN(MAX(col_int + 1, 0), in_prv.shape[kTensorWidthDim] - 1);
                 for (c = 0; c < out_prv.shape[kTensorChannelDim]; c++) {
                     // read the nearest 4 input values around the output point
                     v00 = mli_prv_tensor_read(in_prv, b, input_row0_int, input_col0_int, c);
-- 
2.43.0


From eac2a23479f393eda48317bba6142ea1505a71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:16 +0000
Subject: [PATCH 43/54] fix: MLI 3.0 ResizeBilinear refused every stride and
 offset for shift 11

---
 lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc | 2 +-
 lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc b/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
index 0da0183..daeacbc 100644
--- a/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
+++ b/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
@@ -30,7 +30,7 @@ ResizeBilinear_CS::ResizeBilinear_CS(const lib_mli::PlatformDescription pd,
   }
  
   // resizing factor is limited to x16 upscaling
-  const int16_t val_16_fx = 16 << cfg.shift;
+  const int32_t val_16_fx = 16 << cfg.shift;
   MLI_ASSERT(m_cfg.stride[0] < val_16_fx);
   MLI_ASSERT(m_cfg.stride[1] < val_16_fx);
 
diff --git a/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc b/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
index 2f04745..c321992 100644
--- a/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
+++ b/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
@@ -31,7 +31,7 @@ void run_mli_resize_bilinear_standalone(const mli_tensor* in, const ResizeOpConf
     MLI_ASSERT(cfg.stride[1] > (1 << (cfg.shift - 4)));
   }
   // resizing factor is limited to x16 upscaling
-  const int16_t val_16_fx = 16 << cfg.shift;
+  const int32_t val_16_fx = 16 << cfg.shift;
   MLI_ASSERT(cfg.stride[0] < val_16_fx);
   MLI_ASSERT(cfg.stride[1] < val_16_fx);
 
-- 
2.43.0


From bd3872c2f41f1a6084f12dd0f4bbfa63c7a3664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:24 +0000
Subject: [PATCH 44/54] fix: null tensors, lists or configs crashed the
 parameter checks

With return codes enabled several checks dereferenced an operand before
checking the pointer: the fx wrappers of convolutions and fully connected,
kernel size specialisations, scalar tensors, RNN dense lists and output,
the RNN cell config, the destination of data movement.
---
 lib/src/private/src/mli_check.cc | 166 +++++++++++++++++--------------
 1 file changed, 90 insertions(+), 76 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index bf0c201..01859c9 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -218,7 +218,7 @@ mli_status mli_chk_scalar_tensor (const mli_tensor * in) {
     // .el_type - any value (any valid element type)
     // .el_params - any value (any valid for primitive)
 
-    if (MLI_CHECK(in != NULL, "Bad tensor null pointer")) stat = MLI_STATUS_BAD_TENSOR;
+    if (MLI_CHECK(in != NULL, "Bad tensor null pointer")) return MLI_STATUS_BAD_TENSOR;
 
     if (in->rank == 0) {
         // for tensors with rank 0 no need for extra checks beside quant params.
@@ -401,13 +401,6 @@ mli_status mli_chk_conv2d_hwcn (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -419,6 +412,13 @@ mli_status mli_chk_conv2d_hwcn (
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     fail |= MLI_CHECK(in->rank == 3, "Wrong input rank");
     fail |= MLI_CHECK(out->rank == 3, "Wrong output rank");
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
@@ -517,17 +517,17 @@ mli_status mli_chk_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -540,17 +540,17 @@ mli_status mli_chk_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -566,13 +566,6 @@ mli_status mli_chk_depthwise_conv2d_hwcn(
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -584,6 +577,13 @@ mli_status mli_chk_depthwise_conv2d_hwcn(
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     fail |= MLI_CHECK(in->rank == 3, "Wrong input rank");
     fail |= MLI_CHECK(out->rank == 3, "Wrong output rank");
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
@@ -637,17 +637,17 @@ mli_status mli_chk_depthwise_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -660,17 +660,17 @@ mli_status mli_chk_depthwise_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -730,13 +730,6 @@ mli_status mli_chk_group_conv2d_hwcn(
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -748,6 +741,13 @@ mli_status mli_chk_group_conv2d_hwcn(
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     fail |= MLI_CHECK(in->rank == 3, "Wrong input rank");
     fail |= MLI_CHECK(out->rank == 3, "Wrong output rank");
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
@@ -804,17 +804,17 @@ mli_status mli_chk_group_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -827,17 +827,17 @@ mli_status mli_chk_group_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -899,13 +899,6 @@ mli_status mli_chk_transpose_conv2d_hwcn (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
-    // Checking size of the kernel for functions' specializations.
-    if (kernel_size != 0) {
-      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
-      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
-      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-    }
-
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
@@ -917,6 +910,13 @@ mli_status mli_chk_transpose_conv2d_hwcn (
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
+    // Checking size of the kernel for functions' specializations.
+    if (kernel_size != 0) {
+      fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
+      fail |= MLI_CHECK(weights->shape[KRNL_W_DIM_HWCN] == kernel_size, "Wrong kernel width for specialization");
+      if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    }
+
     fail |= MLI_CHECK(in->rank == 3, "Wrong input rank");
     fail |= MLI_CHECK(out->rank == 3, "Wrong output rank");
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
@@ -981,17 +981,17 @@ mli_status mli_chk_transpose_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1004,17 +1004,17 @@ mli_status mli_chk_transpose_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1366,17 +1366,17 @@ mli_status mli_chk_fully_connected_fx16_fx8_fx8(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1388,17 +1388,17 @@ mli_status mli_chk_fully_connected_fx8(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_8, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1410,17 +1410,17 @@ mli_status mli_chk_fully_connected_fx16(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -2059,6 +2059,15 @@ mli_status mli_chk_rnn_dense (
     fail |= MLI_CHECK(inputs_num <= MLI_RNN_MAX_INPUT, "number of inputs should not exceed MLI_RNN_MAX_INPUT");
     if (fail) return MLI_STATUS_BAD_FUNC_CFG;
 
+    // Check that lists of inputs and weights are provided
+    fail |= MLI_CHECK(in != NULL, "Bad inputs list pointer");
+    fail |= MLI_CHECK(weights != NULL, "Bad weights list pointer");
+    if (fail) return MLI_STATUS_BAD_TENSOR;
+
+    // Check output
+    stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_CONV_OUT_PTR_INSIDE_CCM), "Bad output tensor");
+    if (stat != MLI_STATUS_OK) return stat;
+
     for (int idx = 0; idx < inputs_num; idx++) {
         // Check that input and weights are valid
         stat = MLI_CHECK_STATUS(mli_chk_tensor (in[idx]), "Bad input tensor");
@@ -2092,9 +2101,7 @@ mli_status mli_chk_rnn_dense (
     fail |= MLI_CHECK(weights[0]->shape[1] == bias->shape[0], "shape mismatch weights and bias in RNN general case");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
 
-    // Check output
-    stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_CONV_OUT_PTR_INSIDE_CCM), "Bad output tensor");
-    if (stat != MLI_STATUS_OK) return stat;
+    // Check output shape
     fail |= MLI_CHECK(out->rank == 1, "out should have rank 1 in RNN general case");
     fail |= MLI_CHECK(out->shape[0] == bias->shape[0], "shape mismatch out and bias");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
@@ -2227,6 +2234,8 @@ mli_status mli_chk_lstm_cell (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
+    // Check config
+    if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check tanh_lut
     stat = MLI_CHECK_STATUS(mli_chk_lut(tanh_lut, tanh_lut_fx16.data.capacity), "Tanh LUT error");
@@ -2450,6 +2459,8 @@ mli_status mli_chk_gru_cell (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
+    // Check config
+    if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check tanh_lut
     stat = MLI_CHECK_STATUS(mli_chk_lut(tanh_lut, tanh_lut_fx16.data.capacity), "Tanh LUT error");
@@ -2732,6 +2743,8 @@ mli_status mli_chk_permute_sa8 (const mli_tensor * in, const mli_permute_cfg * c
 }
 
 mli_status mli_chk_count_elem_num(const mli_tensor *in, uint32_t start_dim) {
+    if (MLI_CHECK(in != NULL, "Bad tensor null pointer"))
+        return MLI_STATUS_BAD_TENSOR;
     if (MLI_CHECK(in->rank <= MLI_MAX_RANK, "rank should not exceed MAX_RANK"))
         return MLI_STATUS_BAD_TENSOR;
     if (in->rank != 0) {
@@ -2839,6 +2852,7 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
     // Check that in tensor is valid and out provides valid pointers
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in, false), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
+    if (MLI_CHECK(out != NULL , "Bad output tensor pointer")) return MLI_STATUS_BAD_TENSOR;
 
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
     if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
-- 
2.43.0


From 8cdec67eeb9080fc3d3ae250699badb9bf66df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:24 +0000
Subject: [PATCH 45/54] fix: activation kernels did not check their look-up
 table

Sigmoid, tanh, softmax and L2 normalisation read a LUT with a null
descriptor, no data or too small a capacity instead of reporting it, and
*_create_lut wrote to the descriptor before checking it.
---
 lib/src/kernels/transform/mli_krn_l2_normalize.cc | 6 +++++-
 lib/src/kernels/transform/mli_krn_sigm_fx.cc      | 8 +++++++-
 lib/src/kernels/transform/mli_krn_softmax_fx.cc   | 8 +++++++-
 lib/src/kernels/transform/mli_krn_tanh_fx.cc      | 8 +++++++-
 lib/src/private/src/mli_check.cc                  | 2 ++
 5 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/lib/src/kernels/transform/mli_krn_l2_normalize.cc b/lib/src/kernels/transform/mli_krn_l2_normalize.cc
index 5c86d61..af5459b 100644
--- a/lib/src/kernels/transform/mli_krn_l2_normalize.cc
+++ b/lib/src/kernels/transform/mli_krn_l2_normalize.cc
@@ -26,6 +26,8 @@ mli_status mli_krn_l2_normalize_fx16(const mli_tensor *in,
 
     mli_status ret = MLI_CHECK_STATUS(mli_chk_l2_normalize_fx16(in, cfg, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, invsqrt_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
     return mli_krn_l2_normalize_run<int16_t>(in, epsilon, cfg, out, lut);
@@ -39,6 +41,8 @@ mli_status mli_krn_l2_normalize_sa8(const mli_tensor *in,
 
     mli_status ret = MLI_CHECK_STATUS(mli_chk_l2_normalize_sa8(in, cfg, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, invsqrt_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
     return mli_krn_l2_normalize_run<int8_t, true>(in, epsilon, cfg, out, lut);
@@ -49,9 +53,9 @@ int32_t mli_krn_l2_normalize_get_lut_size() {
 }
 
 mli_status mli_krn_l2_normalize_create_lut(mli_lut *lut) {
-    lut->type = invsqrt_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, invsqrt_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    lut->type = invsqrt_lut_fx16.type;
     MLI_PRINT_COMPILE_OPTIONS();
 
     memcpy(lut->data.mem.pi16, invsqrt_lut_fx16.data.mem.pi16, invsqrt_lut_fx16.length * sizeof(int16_t));
diff --git a/lib/src/kernels/transform/mli_krn_sigm_fx.cc b/lib/src/kernels/transform/mli_krn_sigm_fx.cc
index bef3175..d82ce00 100644
--- a/lib/src/kernels/transform/mli_krn_sigm_fx.cc
+++ b/lib/src/kernels/transform/mli_krn_sigm_fx.cc
@@ -27,6 +27,8 @@ extern "C" {
 mli_status mli_krn_sigm_fx8(const mli_tensor *in, const mli_lut *lut, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_fx8(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, sigmoid_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -40,6 +42,8 @@ mli_status mli_krn_sigm_fx8(const mli_tensor *in, const mli_lut *lut, mli_tensor
 mli_status mli_krn_sigm_fx16(const mli_tensor *in, const mli_lut *lut, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_fx16(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, sigmoid_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -55,6 +59,8 @@ mli_status mli_krn_sigm_sa8(const mli_tensor *in, const mli_lut *lut, mli_tensor
     struct s8asym_quant_params out_params;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_sa8(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, sigmoid_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -81,9 +87,9 @@ int32_t mli_krn_sigm_get_lut_size() {
 }
 
 mli_status mli_krn_sigm_create_lut(mli_lut *lut) {
-    lut->type = sigmoid_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, sigmoid_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    lut->type = sigmoid_lut_fx16.type;
     MLI_PRINT_COMPILE_OPTIONS();
 
     memcpy(lut->data.mem.pi16, sigmoid_lut_fx16.data.mem.pi16, sigmoid_lut_fx16.length * sizeof(int16_t));
diff --git a/lib/src/kernels/transform/mli_krn_softmax_fx.cc b/lib/src/kernels/transform/mli_krn_softmax_fx.cc
index 9f9fbc6..c0f6746 100644
--- a/lib/src/kernels/transform/mli_krn_softmax_fx.cc
+++ b/lib/src/kernels/transform/mli_krn_softmax_fx.cc
@@ -25,6 +25,8 @@ extern "C" {
 mli_status mli_krn_softmax_fx8(const mli_tensor *in, const mli_lut *lut, const mli_softmax_cfg *cfg, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_softmax_fx8(in, cfg, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, expneg_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -35,6 +37,8 @@ mli_status mli_krn_softmax_fx8(const mli_tensor *in, const mli_lut *lut, const m
 mli_status mli_krn_softmax_fx16(const mli_tensor *in, const mli_lut *lut, const mli_softmax_cfg *cfg, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_softmax_fx16(in, cfg, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, expneg_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -45,6 +49,8 @@ mli_status mli_krn_softmax_fx16(const mli_tensor *in, const mli_lut *lut, const
 mli_status mli_krn_softmax_sa8(const mli_tensor *in, const mli_lut *lut, const mli_softmax_cfg *cfg, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_softmax_sa8(in, cfg, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, expneg_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -57,9 +63,9 @@ int32_t mli_krn_softmax_get_lut_size() {
 }
 
 mli_status mli_krn_softmax_create_lut(mli_lut *lut) {
-    lut->type = expneg_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, expneg_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    lut->type = expneg_lut_fx16.type;
     MLI_PRINT_COMPILE_OPTIONS();
 
     memcpy(lut->data.mem.pi16, expneg_lut_fx16.data.mem.pi16, expneg_lut_fx16.length * sizeof(int16_t));
diff --git a/lib/src/kernels/transform/mli_krn_tanh_fx.cc b/lib/src/kernels/transform/mli_krn_tanh_fx.cc
index b2868c0..a3b8140 100644
--- a/lib/src/kernels/transform/mli_krn_tanh_fx.cc
+++ b/lib/src/kernels/transform/mli_krn_tanh_fx.cc
@@ -28,6 +28,8 @@ extern "C" {
 mli_status mli_krn_tanh_fx8(const mli_tensor *in, const mli_lut *lut, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_fx8(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, tanh_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -41,6 +43,8 @@ mli_status mli_krn_tanh_fx8(const mli_tensor *in, const mli_lut *lut, mli_tensor
 mli_status mli_krn_tanh_fx16(const mli_tensor *in, const mli_lut *lut, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_fx16(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, tanh_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -56,6 +60,8 @@ mli_status mli_krn_tanh_sa8(const mli_tensor *in, const mli_lut *lut, mli_tensor
     struct s8asym_quant_params out_params;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_sa8(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, tanh_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -81,9 +87,9 @@ int32_t mli_krn_tanh_get_lut_size() {
 }
 
 mli_status mli_krn_tanh_create_lut(mli_lut *lut) {
-    lut->type = tanh_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, tanh_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    lut->type = tanh_lut_fx16.type;
     MLI_PRINT_COMPILE_OPTIONS();
 
     memcpy(lut->data.mem.pi16, tanh_lut_fx16.data.mem.pi16, tanh_lut_fx16.length * sizeof(int16_t));
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 01859c9..e4c3cb4 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -102,6 +102,8 @@ static MLI_FORCE_INLINE mli_status check_tensor_private(
 }
 
 mli_status mli_chk_lut(const mli_lut * lut, int buff_size) {
+    if (MLI_CHECK(lut != NULL, "Bad lut null pointer")) return MLI_STATUS_BAD_FUNC_CFG;
+    if (MLI_CHECK(lut->data.mem.pi16 != NULL, "Bad data pointer of lut")) return MLI_STATUS_BAD_FUNC_CFG;
     if (MLI_CHECK((int)lut->data.capacity >= buff_size, "Insufficient lut data capacity")) {
         return MLI_STATUS_NOT_ENGH_MEM;
     }
-- 
2.43.0


From 0a10ffb0af47ba166fbb2d578e7340de4f9ecae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:07 +0000
Subject: [PATCH 46/54] fix: convert, permute and data movement accepted bad
 quantization parameters

A quantization axis outside of the tensor, missing per-axis arrays or a
zero scale went unnoticed, leading to wild reads and a division by zero.
---
 lib/src/private/src/mli_check.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index e4c3cb4..f733b3c 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2717,6 +2717,8 @@ mli_status mli_chk_permute_sa8 (const mli_tensor * in, const mli_permute_cfg * c
         return ret;
     if (MLI_CHECK(in->el_type == MLI_EL_SA_8, "Wrong input tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
+    ret = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(in), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     if (in->el_params.sa.dim >= 0) {
         bool fail = false;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
@@ -2773,6 +2775,12 @@ mli_status mli_chk_convert_tensor(const mli_tensor *in, mli_tensor *out) {
 
     if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
 
+    // Check that quantization parameters are valid
+    stat = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(in), "Bad input quantization parameters");
+    if (stat != MLI_STATUS_OK) return stat;
+    stat = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(out), "Bad output quantization parameters");
+    if (stat != MLI_STATUS_OK) return stat;
+
     // Check when output data points to the same memory as input, they have an equal container size.
     if (mli_hlp_tensor_data_ptr_cmp(in, out))
         fail |= MLI_CHECK(mli_hlp_tensor_element_size(in) == mli_hlp_tensor_element_size(out) && check_mem_stride_matches(in, out),
@@ -2859,6 +2867,9 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
     if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
         bool fail = false;
+        stat = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(in), "Bad input quantization parameters");
+        if (stat != MLI_STATUS_OK) return stat;
+
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
             fail |= MLI_CHECK((out->el_params.sa.scale.mem.pi16 == in->el_params.sa.scale.mem.pi16)
                     && (out->el_params.sa.scale_frac_bits.mem.pi8 == in->el_params.sa.scale_frac_bits.mem.pi8),
-- 
2.43.0


From 7d180c1b04b414474ca624acb1d0a8f174c77a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:07 +0000
Subject: [PATCH 47/54] fix: data movement configuration was checked for
 per-axis tensors only

---
 lib/src/private/src/mli_check.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index f733b3c..4348735 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2865,6 +2865,16 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
     if (MLI_CHECK(out != NULL , "Bad output tensor pointer")) return MLI_STATUS_BAD_TENSOR;
 
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
+    //check that the configurations are valid
+    for (uint32_t i=0; i < in->rank; i++) {
+        if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+    }
+
     if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
         bool fail = false;
         stat = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(in), "Bad input quantization parameters");
@@ -2885,16 +2895,6 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
                     && (out->el_params.sa.scale_frac_bits.mem.pi8 == nullptr),
                     "El_params data for out tensor wasn`t initialized in a consistent way");
 
-        //check that the configurations are valid
-        for (uint32_t i=0; i < in->rank; i++) {
-            if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-        }
-
         int32_t in_dim = in->el_params.sa.dim;
         int32_t out_dim = 0;
         for (int dim = 0; dim < (int)in->rank; dim++) {
-- 
2.43.0


From 5e26679bff8af6d038eee1dadd9ce82b9fa9f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:07 +0000
Subject: [PATCH 48/54] fix: argmax and permute did not check the rank of the
 output

---
 lib/src/private/src/mli_check.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 4348735..9883e1b 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2671,6 +2671,9 @@ mli_status mli_chk_permute (const mli_tensor * in, const mli_permute_cfg * cfg,
     // Check config structure
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
+    if (MLI_CHECK(out->rank == in->rank, "Input and output ranks must match"))
+        return MLI_STATUS_SHAPE_MISMATCH;
+
     for (int idx = 0; idx < (int)in->rank; idx++) {
         if (MLI_CHECK(cfg->perm_dim[idx] < in->rank, "Rank mismatch"))
             return MLI_STATUS_BAD_FUNC_CFG;
@@ -2980,6 +2983,7 @@ mli_status mli_chk_argmax(const mli_tensor *in, const mli_argmax_cfg *cfg, mli_t
     if (fail) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check out shape
+    fail |= MLI_CHECK(out->rank == 2, "Wrong output rank");
     fail |= MLI_CHECK(out->shape[0] == dim_size, "Out shape[0] should equal dim size");
     fail |= MLI_CHECK((int)out->shape[1] == cfg->topk, "Out shape[1] should equal topk");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-- 
2.43.0


From 302dc422ae8a91a8661ee861686ea7db0409fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:25 +0000
Subject: [PATCH 49/54] fix: buffer overlap checks compared the lower 32 bits
 of addresses

On hosts with 64-bit pointers separate buffers were reported as overlapping
and overlapping ones as separate, depending on the upper address bits.
---
 lib/src/private/src/mli_check.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 9883e1b..3d89129 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -245,8 +245,9 @@ bool mli_tensor_is_scalar (const mli_tensor * in) {
 }
 
 bool mli_chk_containers_not_overlapped(const mli_data_container & data1, const mli_data_container & data2) {
-    if ((data1.mem.i32 >= (data2.mem.i32 + (int)(data2.capacity))) ||
-        (data2.mem.i32 >= (data1.mem.i32 + (int)(data1.capacity)))) {
+    const uintptr_t begin1 = reinterpret_cast<uintptr_t>(data1.mem.pi8);
+    const uintptr_t begin2 = reinterpret_cast<uintptr_t>(data2.mem.pi8);
+    if ((begin1 >= begin2 + data2.capacity) || (begin2 >= begin1 + data1.capacity)) {
         return true;
     }
     return false;
-- 
2.43.0


From f589a18444136b41e52cfffea3650bc3e0f40c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:25 +0000
Subject: [PATCH 50/54] fix: tensor extent overflowed in the capacity check

A tensor of 2^31 bytes or more (e.g. 65536 x 65536) passed the check with
any capacity.
---
 lib/src/private/src/mli_check.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 3d89129..9d59453 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -84,9 +84,9 @@ static MLI_FORCE_INLINE mli_status check_tensor_private(
     }
     if (fail) return MLI_STATUS_BAD_TENSOR;
 
-    int size = 1;
-    int previous_shape = 1;
-    int previous_mem_stride = 1;
+    int64_t size = 1;
+    int64_t previous_shape = 1;
+    int64_t previous_mem_stride = 1;
     for (int i = rank - 1; i >= 0; i--) {
         fail |= MLI_CHECK(mem_stride[i] >= (previous_shape * previous_mem_stride), "Tensor mem stride too small");
         previous_shape = shape[i];
@@ -96,7 +96,7 @@ static MLI_FORCE_INLINE mli_status check_tensor_private(
     size *= element_size;
 
     if (fail) return MLI_STATUS_BAD_TENSOR;
-    fail |= MLI_CHECK((int)capacity >= size, "Insufficient tensor capacity");
+    fail |= MLI_CHECK((int64_t)capacity >= size, "Insufficient tensor capacity");
     if (fail) return MLI_STATUS_NOT_ENGH_MEM;
     return MLI_STATUS_OK;
 }
-- 
2.43.0


From 6921206c23545fae64d0abbb6934f5765e2587a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:25 +0000
Subject: [PATCH 51/54] fix: size plus offset of data movement overflowed in
 its check

---
 lib/src/private/src/mli_check.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 9d59453..c704965 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2871,7 +2871,7 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
     //check that the configurations are valid
     for (uint32_t i=0; i < in->rank; i++) {
-        if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
+        if (MLI_CHECK(((uint64_t)cfg->size[i] + cfg->offset[i]) <= (uint64_t)in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
             return MLI_STATUS_BAD_FUNC_CFG;
         if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
             return MLI_STATUS_BAD_FUNC_CFG;
-- 
2.43.0


From 94630f3c8169597717d733240f710ba87d7b3493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:38 +0000
Subject: [PATCH 52/54] fix: group convolution check divided by zero for too
 many weights channels

Weights with more channels than the input gave zero groups (and weights of
a wrong rank possibly no channels), and the check itself raised SIGFPE.
---
 lib/src/private/src/mli_check.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index c704965..ac3731e 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -756,9 +756,11 @@ mli_status mli_chk_group_conv2d_hwcn(
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
     fail |= MLI_CHECK(bias->rank == 1, "Wrong bias rank");
     fail |= MLI_CHECK(bias->shape[0] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch bias and weights");
+    if (fail) return MLI_STATUS_SHAPE_MISMATCH;
 
-    int group_count = in->shape[FMAP_C_DIM_HWC] / weights->shape[KRNL_D_DIM_HWCN];
     fail |= MLI_CHECK(in->shape[FMAP_C_DIM_HWC] % weights->shape[KRNL_D_DIM_HWCN] == 0, "Input channel count must be multiple of group count");
+    if (fail) return MLI_STATUS_SHAPE_MISMATCH;
+    int group_count = in->shape[FMAP_C_DIM_HWC] / weights->shape[KRNL_D_DIM_HWCN];
     fail |= MLI_CHECK(weights->shape[KRNL_C_DIM_HWCN] % group_count == 0, "Number of filters must be multiple of group count");
     fail |= MLI_CHECK(out->shape[FMAP_C_DIM_HWC] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch out and weights");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-- 
2.43.0


From 50abb6d1088b1bdb54d48a092182b12dc3e567f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:36 +0000
Subject: [PATCH 53/54] fix: in-place conversion to another container size was
 not refused

---
 lib/src/private/src/mli_check.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index ac3731e..e89dd7a 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2788,7 +2788,8 @@ mli_status mli_chk_convert_tensor(const mli_tensor *in, mli_tensor *out) {
     if (stat != MLI_STATUS_OK) return stat;
 
     // Check when output data points to the same memory as input, they have an equal container size.
-    if (mli_hlp_tensor_data_ptr_cmp(in, out))
+    // (mli_hlp_tensor_data_ptr_cmp is false for tensors of different types, so addresses are compared here.)
+    if (in->rank != 0 && out->rank != 0 && in->data.mem.pi8 == out->data.mem.pi8)
         fail |= MLI_CHECK(mli_hlp_tensor_element_size(in) == mli_hlp_tensor_element_size(out) && check_mem_stride_matches(in, out),
                           "In-place computation is permitted only when tensors have the same container size and mem_stride.");
     if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
-- 
2.43.0


From e04b2db5ce36507c3f210c265ed389afc78e1400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:49 +0000
Subject: [PATCH 54/54] fix: MLI 3.0 Rescale labelled int8 input biases and
 int32 output biases with the other element type, which debug builds abort on

---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index f74edb9..6f8f42f 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -99,7 +99,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.in_bias.data.mem.pi8 = encoded_params_internal.get_ptr<int8_t>();
       }
       encoded_params_internal.inc(m_tile_param_max_size);
-      m_tile_metadata.in_bias.el_type = MLI_EL_SA_32;
+      m_tile_metadata.in_bias.el_type = MLI_EL_SA_8;
     }
     else {
         MLI_ASSERT(0);
@@ -151,7 +151,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.out_bias.rank = 1;
         m_tile_metadata.out_bias.data.mem.pi32 = encoded_params_internal.get_ptr<int32_t>();
       }
-      m_tile_metadata.out_bias.el_type = MLI_EL_SA_8;
+      m_tile_metadata.out_bias.el_type = MLI_EL_SA_32;
     }
     else {
         MLI_ASSERT(0);
-- 
2.43.0


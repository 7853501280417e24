From 84c9913f78b771699f6f93e133dc37fe11ac8e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:15 +0000
Subject: [PATCH 1/9] fix: widen the bit consumption estimate of the global
 gain search

The sum of the per-band estimates exceeds 32 bits with loud wideband
signals in high-resolution mode (up to 240 bands of 4 coefficients). The
accumulator wrapped to a negative value, and selected a wrong gain index.
---
 src/spec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec.c b/src/spec.c
index 25a28d4..96ec0e3 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -151,7 +151,7 @@ LC3_HOT static int estimate_gain(
 
     for (int i = 128, j, j0 = n4-1, j1 ; i > 0; i >>= 1) {
         int gn = (g_int - i) * k_20_28;
-        int v = 0;
+        int64_t v = 0;
 
         for (j = j0; j >= 0 && e[j].q16 < gn; j--);
 
-- 
2.43.0


From 7266c4270d0e7ae7fd851006dc6cb4ed1e49cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:15 +0000
Subject: [PATCH 2/9] fix: return 0 on underflow of lc3_ldexpf()

The exponent field was decremented below 0, borrowing from the sign bit:
a tiny sample was turned into a huge one of the opposite sign. A decoder
outputting float samples then returns full-scale samples, as the concealed
signal fades out after hundreds of consecutive lost frames.
---
 src/fastmath.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 86cbdfa..8fd3fa0 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -40,13 +40,15 @@
  * Fast multiply floating-point number by integral power of 2
  * x               Operand, finite number
  * exp             Exponent such that 2^x is finite
- * return          2^exp
+ * return          x * 2^exp, 0 when too small to be a normal number
  */
 static inline float lc3_ldexpf(float _x, int exp) {
     union { float f; int32_t s; } x = { .f = _x };
 
-    if (x.s & LC3_IEEE754_EXP_MASK)
-        x.s += exp << LC3_IEEE754_EXP_SHL;
+    int e = (x.s & LC3_IEEE754_EXP_MASK) >> LC3_IEEE754_EXP_SHL;
+
+    if (e)
+        x.s = e + exp > 0 ? x.s + (exp << LC3_IEEE754_EXP_SHL) : 0;
 
     return x.f;
 }
-- 
2.43.0


From f222a4f3a9eb13cdc95736cea6352d518514d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:28 +0000
Subject: [PATCH 3/9] fix: clamp decoded samples before conversion to integers

A crafted frame can decode to samples out of the range of 32 bits integers.
The conversion is undefined, and returns INT_MIN on x86: a huge positive
sample was saturated to the lowest negative value.
---
 src/lc3.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index fe73d69..fd676cd 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -484,7 +484,8 @@ static void store_s16(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int)(*xs + 0.5f) : (int)(*xs - 0.5f);
+        float x = fminf(fmaxf(*xs, INT16_MIN), INT16_MAX);
+        int32_t s = x >= 0 ? (int)(x + 0.5f) : (int)(x - 0.5f);
         *pcm = LC3_SAT16(s);
     }
 }
@@ -506,8 +507,9 @@ static void store_s24(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = fminf(fmaxf(*xs, -0x1p15f), 0x7fffffp-8f);
+        int32_t s = x >= 0 ? (int32_t)(lc3_ldexpf(x, 8) + 0.5f)
+                           : (int32_t)(lc3_ldexpf(x, 8) - 0.5f);
         *pcm = LC3_SAT24(s);
     }
 }
@@ -529,8 +531,9 @@ static void store_s24_3le(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += 3*stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = fminf(fmaxf(*xs, -0x1p15f), 0x7fffffp-8f);
+        int32_t s = x >= 0 ? (int32_t)(lc3_ldexpf(x, 8) + 0.5f)
+                           : (int32_t)(lc3_ldexpf(x, 8) - 0.5f);
 
         s = LC3_SAT24(s);
         pcm[0] = (s >>  0) & 0xff;
-- 
2.43.0


From 9606573ca6073830031ad05b57d90d58f67cdedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:01 +0000
Subject: [PATCH 4/9] fix: skip the remaining of the 'fmt ' statement of wave
 files

The offset had the wrong sign, the reading moved back in the statement
instead of going after. Files with a statement of 18 bytes were rejected.
---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 126f913..35094a6 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -112,7 +112,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    fseek(fp, sizeof(format) - (8 + format.size), SEEK_CUR);
+    fseek(fp, 8 + (long)format.size - (long)sizeof(format), SEEK_CUR);
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
           ; fseek(fp, data.size, SEEK_CUR) );
-- 
2.43.0


From 6729a6c065b75c676ec8f92469dcf05a019ddcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:01 +0000
Subject: [PATCH 5/9] fix: output int32_t PCM samples of the C++ decoder in 24
 bits on 32 bits

The packed 24 bits on 3 bytes format was selected, while Encode() with
int32_t samples, and Decode() with PcmFormat::kS24 use 4 bytes.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 31002ec..6542660 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -275,7 +275,7 @@ class Decoder : public Base<struct lc3_decoder> {
   }
 
   int Decode(const uint8_t *in, int block_size, int32_t *pcm) {
-    return DecodeImpl(in, block_size, PcmFormat::kS24In3Le, pcm);
+    return DecodeImpl(in, block_size, PcmFormat::kS24, pcm);
   }
 
   int Decode(const uint8_t *in, int block_size, float *pcm) {
-- 
2.43.0


From db9c70b43ea522732a8733f70ceca5be584db222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:01 +0000
Subject: [PATCH 6/9] fix: pad short float PCM input of the Python encoder

The padding was computed from the frame size, not from the length of
the input: short input vectors raised an exception.
---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8c4ae71..8b46a47 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -345,7 +345,7 @@ class Encoder(_Base):
             if not abs(sum(pcm_buffer)) / frame_samples < 2:
                 raise InvalidArgumentError("Out of range PCM input")
 
-            padding = max(pcm_len - frame_samples, 0)
+            padding = max(pcm_len - len(pcm_buffer), 0)
             pcm_buffer.extend(array.array("f", [0] * padding))
 
         else:
-- 
2.43.0


From 3e56f606d27ee5f90211f3d14aee6eebc7be78c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:28 +0000
Subject: [PATCH 7/9] fix: maximum size of frame blocks of 2.5 ms frames

The bitrate was limited to 8 times the maximum of the high-resolution mode.
This is less than the bitrate of blocks of more than 4 frames of 400 bytes
by 2.5 ms: the maximum allowed size was not reached with INT_MAX, and
the size was not restored from the result of lc3_resolve_bitrate().
---
 src/lc3.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index fd676cd..3ccde87 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -115,9 +115,7 @@ LC3_EXPORT int lc3_hr_frame_block_bytes(
             || nchannels < 1 || nchannels > 8 || bitrate < 0)
         return -1;
 
-    bitrate = LC3_CLIP(bitrate, 0, 8*LC3_HR_MAX_BITRATE);
-
-    return LC3_CLIP((bitrate * (int)(1 + dt)) / 3200,
+    return LC3_CLIP(((int64_t)bitrate * (int)(1 + dt)) / 3200,
         nchannels * lc3_min_frame_bytes(dt, sr),
         nchannels * lc3_max_frame_bytes(dt, sr) );
 }
-- 
2.43.0


From 8c1f759d4c3cbf09a8f8b018cdc04194131be69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:00 +0000
Subject: [PATCH 8/9] fix: undefined shift when reading plain bits out of the
 frame

Once all the bits of the frame are consumed, the accumulator is shifted by
its width. Reached by any corrupted frame coding more bits than its size.
---
 src/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bits.c b/src/bits.c
index 881258b..df2902a 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -327,7 +327,7 @@ static inline void accu_load(struct lc3_bits_accu *accu,
 
     if (accu->n >= 8) {
         accu->nover = LC3_MIN(accu->nover + accu->n, LC3_ACCU_BITS);
-        accu->v >>= accu->n;
+        accu->v = accu->n < LC3_ACCU_BITS ? accu->v >> accu->n : 0;
         accu->n = 0;
     }
 }
-- 
2.43.0


From bbac786fb0f2189a5c14c0d66484a0d37a2d5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 9/9] fix: count of lost frames overflows in packet loss
 concealment

---
 src/plc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plc.c b/src/plc.c
index f225ca6..1949751 100644
--- a/src/plc.c
+++ b/src/plc.c
@@ -58,5 +58,5 @@ void lc3_plc_synthesize(enum lc3_dt dt, enum lc3_srate sr,
 
     plc->seed = seed;
     plc->alpha = alpha;
-    plc->count++;
+    plc->count += plc->count < 8;
 }
-- 
2.43.0


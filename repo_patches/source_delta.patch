From 567d35c4df921a9e83297bdc1b5b7f72cd3c70ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 1/6] fix: ignore bits above the 23-bit codeword in
 mbe_checkGolayBlock

The packed Golay decoder documents that bits above the codeword are ignored
and that it returns 12 data bits, but set upper bits leaked into the result.
---
 src/ecc/ecc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecc/ecc.c b/src/ecc/ecc.c
index 5ce7b80..b86923a 100644
--- a/src/ecc/ecc.c
+++ b/src/ecc/ecc.c
@@ -45,7 +45,7 @@ mbe_checkGolayBlock(long int* block) {
     uint32_t mask;
     uint32_t block_u;
 
-    block_u = (uint32_t)(*block);
+    block_u = (uint32_t)(*block) & 0x7fffffu; /* only the low 23 bits form the codeword */
 
     mask = 0x400000u; /* MSB of 23-bit codeword */
     eccexpected = 0;
-- 
2.43.0


From c4bf145012968881f03615a94666498034862a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:58 +0000
Subject: [PATCH 2/6] fix: keep the amplitude prediction inside log2Ml when the
 previous frame has 56 harmonics

The interpolation read log2Ml[57] of a 57-entry array; the value is weighted by (almost) zero.
---
 src/ambe/ambe3600x2400.c | 5 +++--
 src/ambe/ambe3600x2450.c | 5 +++--
 src/imbe/imbe7200x4400.c | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index e86aebc..21aa1ad 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -537,7 +537,8 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq 43
         Sum43 = Sum43
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]])
+                   + (deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]));
     }
     Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);
 #ifdef AMBE_DEBUG
@@ -557,7 +558,7 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
     // Part 3
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
         // inverse log to generate spectral amplitudes
         if (cur_mp->Vl[l] == 1) {
diff --git a/src/ambe/ambe3600x2450.c b/src/ambe/ambe3600x2450.c
index 6bde721..5c6a6a3 100644
--- a/src/ambe/ambe3600x2450.c
+++ b/src/ambe/ambe3600x2450.c
@@ -556,7 +556,8 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
 #endif
         // eq 43
         Sum43 = Sum43
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]])
+                   + (deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]));
     }
     Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);
 #ifdef AMBE_DEBUG
@@ -576,7 +577,7 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
     // Part 3
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
         // inverse log to generate spectral amplitudes
         if (cur_mp->Vl[l] == 1) {
diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index 87507d7..2baa0bb 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -505,7 +505,8 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq 77
         Sum77 = Sum77
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]])
+                   + (deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]));
     }
     Sum77 = ((rho / (float)cur_mp->L) * Sum77);
 
@@ -516,7 +517,7 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
     // Part 2
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = (rho * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = (rho * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = (rho * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum77;
         cur_mp->Ml[l] = exp2f(cur_mp->log2Ml[l]);
 #ifdef IMBE_DEBUG
-- 
2.43.0


From ccd133d665381be387711cb64934e08274e9bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 3/6] fix: leave amplitudes alone when the spectral weights are
 undefined

---
 src/core/mbelib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 82f2d8c..6219151 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -372,6 +372,11 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     R2m0 = (Rm0 * Rm0);
     R2m1 = (Rm1 * Rm1);
 
+    /* The weights are undefined without energy or fundamental (e.g. a repeated AMBE erasure frame has w0 == 0). */
+    if (!((cur_mp->w0 * Rm0 * (R2m0 - R2m1)) > 0.0f)) {
+        return;
+    }
+
     /* Compute spectral weight Wl and apply clipping
      * This loop has complex conditionals that are hard to vectorize effectively */
     for (l = 1; l <= L; l++) {
-- 
2.43.0


From c88732fe4f60ad53fbbeebaf5c267b2360c2a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 4/6] fix: keep the rendered AMBE 2400 single tone instead of
 overwriting it with comfort noise

---
 src/ambe/ambe3600x2400.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index 21aa1ad..0b5c0c7 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -604,6 +604,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
                          mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhanced, int uvquality) {
 
     int i, bad;
+    int tone_rendered = 0;
 
     /* AMBE family uses W124 defaults in JMBE; normalize generic init state. */
     mbe_ensureAmbeDefaults_common(cur_mp, prev_mp, prev_mp_enhanced);
@@ -645,6 +646,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         // Synthesize single-frequency tone; 'bad' carries the tone ID value
         mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);
         mbe_moveMbeParms(cur_mp, prev_mp);
+        tone_rendered = 1;
     } else if (*errs2 > 3) {
         mbe_useLastMbeParms(cur_mp, prev_mp);
         cur_mp->repeat++;
@@ -672,7 +674,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_moveMbeParms(cur_mp, prev_mp);
         mbe_moveMbeParms(cur_mp, prev_mp_enhanced);
-    } else {
+    } else if (!tone_rendered) {
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);
     }
-- 
2.43.0


From 5adf0a682d4804420579a49ac7ae679768b24c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 5/6] fix: saturate the adaptive amplitude threshold instead of
 overflowing it

---
 src/core/mbe_adaptive.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 68c3859..36e4295 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -7,6 +7,7 @@
  */
 
 #include <float.h>
+#include <limits.h>
 #include <math.h>
 #include <stdint.h>
 #include <string.h>
@@ -247,6 +248,9 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
     int prevThreshold = prev_mp->amplitudeThreshold;
     if (prevThreshold <= 0) {
         prevThreshold = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
+    } else if (prevThreshold > INT_MAX - MBE_AMPLITUDE_BASE) {
+        /* The threshold keeps growing under sustained light errors. */
+        prevThreshold = INT_MAX - MBE_AMPLITUDE_BASE;
     }
 
     if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {
-- 
2.43.0


From 2b349a0da3c974f60dca50e20853b710039bb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 6/6] fix: no phase jitter for a frame without harmonics
 (division by zero)

---
 src/core/mbelib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 6219151..40d7a8d 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -969,7 +969,7 @@ mbe_synthesizeSpeechf(float* aout_buf, mbe_parms* cur_mp, mbe_parms* prev_mp, in
         prev_mp->PSIl[l] = prev_psil_wrapped;
 
         cur_mp->PSIl[l] = prev_psil_wrapped + ((pw0 + cw0) * ((float)(l * N) / 2.0f));
-        if (l <= (cur_mp->L / 4)) {
+        if (cur_mp->L == 0 || l <= (cur_mp->L / 4)) { /* no harmonics: no jitter to distribute */
             cur_mp->PHIl[l] = cur_mp->PSIl[l];
         } else {
             /* JMBE Algorithm #140: Use noise sample for phase jitter
-- 
2.43.0


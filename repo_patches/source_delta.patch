From 469fea24a8b41e5d8a3324088f4bcd7f4308d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:50 +0000
Subject: [PATCH 01/26] fix: flush lc3_ldexpf() to 0 on underflow

The exponent wrapped when the result was smaller than the normal numbers.
A decoder with float output plays full scale samples after about 5 seconds
of lost frames, once the concealed samples have faded below 2^-112.
---
 src/fastmath.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 86cbdfa..7322ab3 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -40,13 +40,17 @@
  * Fast multiply floating-point number by integral power of 2
  * x               Operand, finite number
  * exp             Exponent such that 2^x is finite
- * return          2^exp
+ * return          x * 2^exp, or 0 on underflow
  */
 static inline float lc3_ldexpf(float _x, int exp) {
     union { float f; int32_t s; } x = { .f = _x };
 
-    if (x.s & LC3_IEEE754_EXP_MASK)
-        x.s += exp << LC3_IEEE754_EXP_SHL;
+    int e = (x.s & LC3_IEEE754_EXP_MASK) >> LC3_IEEE754_EXP_SHL;
+
+    /* --- Flush to 0 when the result is less than the normal numbers --- */
+
+    if (e)
+        x.s = e + exp > 0 ? x.s + exp * (1 << LC3_IEEE754_EXP_SHL) : 0;
 
     return x.f;
 }
-- 
2.43.0


From 14e08c9f5489f8e54ccf650012c961a91013e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:20 +0000
Subject: [PATCH 02/26] fix: clip decoded samples before the conversion to
 integers

Samples over the range of an int32_t, that a forged or damaged frame can
produce, were converted to INT_MIN: loud positive samples came out as the
negative full scale.
---
 src/lc3.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index fe73d69..78e919c 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -484,7 +484,8 @@ static void store_s16(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int)(*xs + 0.5f) : (int)(*xs - 0.5f);
+        float x = LC3_CLIP(*xs, -0x1p15f, 0x1p15f);
+        int32_t s = x >= 0 ? (int)(x + 0.5f) : (int)(x - 0.5f);
         *pcm = LC3_SAT16(s);
     }
 }
@@ -506,8 +507,8 @@ static void store_s24(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = lc3_ldexpf(LC3_CLIP(*xs, -0x1p15f, 0x1p15f), 8);
+        int32_t s = x >= 0 ? (int32_t)(x + 0.5f) : (int32_t)(x - 0.5f);
         *pcm = LC3_SAT24(s);
     }
 }
@@ -529,8 +530,8 @@ static void store_s24_3le(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += 3*stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = lc3_ldexpf(LC3_CLIP(*xs, -0x1p15f, 0x1p15f), 8);
+        int32_t s = x >= 0 ? (int32_t)(x + 0.5f) : (int32_t)(x - 0.5f);
 
         s = LC3_SAT24(s);
         pcm[0] = (s >>  0) & 0xff;
-- 
2.43.0


From e9eb7b71bd999eb172f6a81a4658c3e515082910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:25 +0000
Subject: [PATCH 03/26] fix: code the first pair of coefficients when no other
 fits the frame

The count of coefficients sent is never less than 2, but nothing was coded
when it was 0. The decoder then read an arbitrary pair from the padding:
noise for silent frames, and full scale noise or a bitstream error (frame
refused by the decoder) on frames whose budget was too small for the first
pair.
---
 src/spec.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spec.c b/src/spec.c
index 25a28d4..899910f 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -865,6 +865,13 @@ void lc3_spec_analyze(
     side->g_idx = g_int + g_adj + g_off;
     nbits = compute_nbits(dt, sr, nbytes,
         x, &side->nq, nbits_budget, &side->lsb_mode);
+
+    /* --- The decoder reads at least one pair of coefficients --- */
+
+    if (side->nq == 0) {
+        x[0] = x[1] = 0;
+        side->nq = 2;
+    }
 }
 
 /**
-- 
2.43.0


From 3336e07feac23bdf9087edbd41754ec0e4faac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:09 +0000
Subject: [PATCH 04/26] fix: discard the TNS filters when the frame is too
 small to hold them

On the smallest frames, the coefficients of 2 TNS filters can take the whole
frame. The encoder then wrote past its budget, overlapping the arithmetic
coded data, and the frame was refused by the decoder.
---
 src/tns.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tns.c b/src/tns.c
index b2b9305..607a510 100644
--- a/src/tns.c
+++ b/src/tns.c
@@ -418,6 +418,12 @@ void lc3_tns_analyze(enum lc3_dt dt, enum lc3_bandwidth bw,
         unquantize_rc(data->rc[f], data->rc_order[f], rc[f]);
     }
 
+    /* --- Discard the filters on frames too small to hold them ---
+     * The other data of the frame take up to 84 bits */
+
+    if (lc3_tns_get_nbits(data) > 8*nbytes - 84)
+        data->rc_order[0] = data->rc_order[1] = 0;
+
     forward_filtering(dt, bw, data->rc_order, rc, x);
 }
 
-- 
2.43.0


From 1ac05f6df5f688233ef7047f82cb424b834c9719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:13 +0000
Subject: [PATCH 05/26] fix: decode to 24 bits in 32 bits words when given an
 int32_t buffer

---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 31002ec..6542660 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -275,7 +275,7 @@ class Decoder : public Base<struct lc3_decoder> {
   }
 
   int Decode(const uint8_t *in, int block_size, int32_t *pcm) {
-    return DecodeImpl(in, block_size, PcmFormat::kS24In3Le, pcm);
+    return DecodeImpl(in, block_size, PcmFormat::kS24, pcm);
   }
 
   int Decode(const uint8_t *in, int block_size, float *pcm) {
-- 
2.43.0


From 18b9ec7ce865c63a6c11455cd5da9fc77f66ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:13 +0000
Subject: [PATCH 06/26] fix: conceal all channels when a lost frame block has a
 size

---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 6542660..2f605a3 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -219,7 +219,7 @@ class Decoder : public Base<struct lc3_decoder> {
       ret |= lc3_decode(states[ich].get(), in_ptr, frame_size,
                         cfmt, pcm + ich, nchannels_);
 
-      in_ptr += frame_size;
+      if (in_ptr) in_ptr += frame_size;
     }
 
     return ret;
-- 
2.43.0


From 55e9d3b38ffebf53b94fe1395b84c5bd1e37c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:27 +0000
Subject: [PATCH 07/26] fix: refuse the high-resolution mode in builds without
 it

---
 src/lc3.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index 78e919c..5a17999 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -72,15 +72,14 @@ static enum lc3_dt resolve_dt(int us, bool hrmode)
  */
 static enum lc3_srate resolve_srate(int hz, bool hrmode)
 {
-    hrmode = LC3_PLUS_HR && hrmode;
-
     return !hrmode && hz ==  8000 ? LC3_SRATE_8K     :
            !hrmode && hz == 16000 ? LC3_SRATE_16K    :
            !hrmode && hz == 24000 ? LC3_SRATE_24K    :
            !hrmode && hz == 32000 ? LC3_SRATE_32K    :
            !hrmode && hz == 48000 ? LC3_SRATE_48K    :
-            hrmode && hz == 48000 ? LC3_SRATE_48K_HR :
-            hrmode && hz == 96000 ? LC3_SRATE_96K_HR : LC3_NUM_SRATE;
+           LC3_PLUS_HR && hrmode && hz == 48000 ? LC3_SRATE_48K_HR :
+           LC3_PLUS_HR && hrmode && hz == 96000 ? LC3_SRATE_96K_HR :
+                                                  LC3_NUM_SRATE;
 }
 
 /**
-- 
2.43.0


From 00ebf07951844b45785be45d7b9e2484bd0fae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:12 +0000
Subject: [PATCH 08/26] fix: trim the output of dlc3 when the stream holds less
 than one frame

The samples skipped at the start of the first frame were not subtracted
from what remains to write, more samples than the WAVE header announces
were written.
---
 tools/dlc3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8c22ba1..8e2a17b 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -251,8 +251,8 @@ int main(int argc, char *argv[])
         }
 
         int pcm_offset = i > 0 ? 0 : encode_samples - pcm_samples;
-        int pcm_nwrite = MIN(frame_samples - pcm_offset,
-            encode_samples - i*frame_samples);
+        int pcm_nwrite = MIN(frame_samples,
+            encode_samples - i*frame_samples) - pcm_offset;
 
         wave_write_pcm(fp_out,
             pcm_sbytes, pcm, nchannels, pcm_offset, pcm_nwrite);
-- 
2.43.0


From 7d034ac5cd494469f29a87ea8aa930ed6d6fdd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:12 +0000
Subject: [PATCH 09/26] fix: conceal the frames of illegal size in dlc3

The decoder refuses such frames and gives no samples, the content of an
uninitialized buffer, or the previous frame, was written instead.
---
 tools/dlc3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8e2a17b..c85e32a 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -245,6 +245,10 @@ int main(int argc, char *argv[])
                 int res = lc3_decode(dec[ich], in_ptr, frame_bytes,
                     pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
 
+                if (res < 0)
+                    lc3_decode(dec[ich], NULL, 0,
+                        pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
+
                 nerr += (res != 0);
                 in_ptr += frame_bytes;
             }
-- 
2.43.0


From b07efc5005a42290f2e4fd30822500c5f35344e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:12 +0000
Subject: [PATCH 10/26] fix: refuse a bitdepth of 0 in dlc3

A WAVE header with samples of size 0 was written.
---
 tools/dlc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index c85e32a..bef3c0a 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -155,7 +155,7 @@ int main(int argc, char *argv[])
     if (p.fname_out && (fp_out = fopen(p.fname_out, "wb")) == NULL)
         error(errno, "%s", p.fname_out);
 
-    if (p.bitdepth && p.bitdepth != 16 && p.bitdepth != 24)
+    if (p.bitdepth != 16 && p.bitdepth != 24)
         error(EINVAL, "Bitdepth %d", p.bitdepth);
 
     /* --- Check parameters --- */
-- 
2.43.0


From e4688b5e12ccac861c17cf469c6417395503cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:12 +0000
Subject: [PATCH 11/26] fix: refuse the streams too long for the output of dlc3

The number of samples announced by the stream, and values derived from
it, overflowed: dlc3 wrote a WAVE file with a wrong, or negative, size.
---
 tools/dlc3.c   | 15 +++++++++++----
 tools/lc3bin.c |  4 ++--
 tools/wave.c   |  4 ++--
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index bef3c0a..57756f4 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -22,6 +22,7 @@
 #include <stdio.h>
 #include <stdarg.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 #include <math.h>
 #include <time.h>
@@ -184,9 +185,15 @@ int main(int argc, char *argv[])
     int pcm_sbytes = pcm_sbits / 8;
 
     int pcm_srate_hz = !p.srate_hz ? srate_hz : p.srate_hz;
-    int pcm_samples = !p.srate_hz ? nsamples :
+    int64_t pcm_nsamples = !p.srate_hz ? nsamples :
         ((int64_t)nsamples * pcm_srate_hz) / srate_hz;
 
+    if (pcm_nsamples > INT_MAX - pcm_srate_hz ||
+        pcm_nsamples > (UINT32_MAX - 44) / (nchannels * pcm_sbytes))
+        error(EFBIG, "Length of the stream");
+
+    int pcm_samples = pcm_nsamples;
+
     wave_write_header(fp_out,
           pcm_sbits, pcm_sbytes, pcm_srate_hz, nchannels, pcm_samples);
 
@@ -219,11 +226,11 @@ int main(int argc, char *argv[])
     int nerr = 0;
     unsigned t0 = clock_us();
 
-    for (int i = 0; i * frame_samples < encode_samples; i++) {
+    for (int i = 0; (int64_t)i * frame_samples < encode_samples; i++) {
 
         int block_bytes = lc3bin_read_data(fp_in, nchannels, in);
 
-        if (floorf(i * frame_us * 1e-6) > nsec) {
+        if (floorf(i * (frame_us * 1e-6)) > nsec) {
 
             float progress = fminf((float)i * frame_samples / pcm_samples, 1);
 
@@ -231,7 +238,7 @@ int main(int argc, char *argv[])
                     nsec / 60, nsec % 60,
                     dash_line + (int)floorf((1 - progress) * 40));
 
-            nsec = rint(i * frame_us * 1e-6);
+            nsec = rint(i * (frame_us * 1e-6));
         }
 
         if (block_bytes <= 0)
diff --git a/tools/lc3bin.c b/tools/lc3bin.c
index 97ae82b..015938b 100644
--- a/tools/lc3bin.c
+++ b/tools/lc3bin.c
@@ -61,10 +61,10 @@ int lc3bin_read_header(FILE *fp,
     *nchannels = hdr.channels;
     *frame_us = hdr.frame_10us * 10;
     *srate_hz = hdr.srate_100hz * 100;
-    *nsamples = hdr.nsamples_low | (hdr.nsamples_high << 16);
+    *nsamples = (int)(hdr.nsamples_low | ((uint32_t)hdr.nsamples_high << 16));
     *hrmode = hdr_hrmode != 0;
 
-    if (hdr.epmode)
+    if (hdr.epmode || *nsamples < 0)
       return -1;
 
     fseek(fp, hdr.header_size, SEEK_SET);
diff --git a/tools/wave.c b/tools/wave.c
index 126f913..8c6eceb 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -150,8 +150,8 @@ void wave_write_header(FILE *fp, int bitdepth, int samplesize,
         struct wave_data data;
     } header;
 
-    long data_size = nchannels * nframes * samplesize;
-    long file_size = sizeof(header) + data_size;
+    uint32_t data_size = (uint32_t)nframes * nchannels * samplesize;
+    uint32_t file_size = sizeof(header) + data_size;
 
     header.file = (struct wave_file){
         WAVE_FILE_TYPE_ID, file_size - 8,
-- 
2.43.0


From 6eed8cded140bae1f637eb60049fd93651ac764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:12 +0000
Subject: [PATCH 12/26] fix: skip the end of the LC3 binary header on pipes

A pipe cannot be seeked, the additional parameters of the header were
read as frames.
---
 tools/lc3bin.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/lc3bin.c b/tools/lc3bin.c
index 015938b..65ff59a 100644
--- a/tools/lc3bin.c
+++ b/tools/lc3bin.c
@@ -54,6 +54,8 @@ int lc3bin_read_header(FILE *fp,
         return -1;
 
     int num_extended_params = (hdr.header_size - sizeof(hdr)) / sizeof(uint16_t);
+    int num_skip_bytes = hdr.header_size - sizeof(hdr) -
+        (num_extended_params >= 1 ? sizeof(hdr_hrmode) : 0);
     if (num_extended_params >= 1 &&
         fread(&hdr_hrmode, sizeof(hdr_hrmode), 1, fp) != 1)
       return -1;
@@ -67,7 +69,7 @@ int lc3bin_read_header(FILE *fp,
     if (hdr.epmode || *nsamples < 0)
       return -1;
 
-    fseek(fp, hdr.header_size, SEEK_SET);
+    while (num_skip_bytes-- > 0 && fgetc(fp) != EOF);
 
     return 0;
 }
-- 
2.43.0


From 1326beb06df9f3c009003a0ae6fe6a10e062e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:12 +0000
Subject: [PATCH 13/26] fix: find the audio of any WAVE file

The audio was not found, or something else was taken for it, with format
chunks of other sizes than 16 or 40 bytes, after chunks of odd size, and
on pipes, which cannot be seeked.
---
 tools/wave.c | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/tools/wave.c b/tools/wave.c
index 8c6eceb..685cd63 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -87,6 +87,26 @@ struct wave_data {
 };
 
 
+/**
+ * Skip data, of a file or of a pipe
+ * fp              Opened file
+ * size            Number of bytes to skip
+ * return          0: Ok  -1: Not enough data
+ */
+static int skip_data(FILE *fp, uint32_t size)
+{
+    uint8_t buffer[1024];
+
+    while (size > 0) {
+        uint32_t n = size < sizeof(buffer) ? size : sizeof(buffer);
+        if (fread(buffer, n, 1, fp) != 1)
+            return -1;
+        size -= n;
+    }
+
+    return 0;
+}
+
 /**
  * Read WAVE file header
  */
@@ -104,21 +124,32 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
 
     if (fread(&format, sizeof(format), 1, fp) != 1
             || format.id         != WAVE_FORMAT_ID
+            || format.size       < sizeof(format) - 8
             || ( format.fmt      != WAVE_FORMAT_PCM &&
                  format.fmt      != WAVE_FORMAT_EXT   )
             || format.channels   <= 0
             || format.samplerate <= 0
             || format.framesize  <= 0
+            || format.framesize % format.channels
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    fseek(fp, sizeof(format) - (8 + format.size), SEEK_CUR);
+    /* Chunks of odd size are followed by a padding byte */
+
+    if (skip_data(fp, format.size - (sizeof(format) - 8)) < 0
+            || skip_data(fp, format.size & 1) < 0)
+        return -1;
+
+    for ( ; ; ) {
+        if (fread(&data, sizeof(data), 1, fp) != 1)
+            return -1;
 
-    for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
-          ; fseek(fp, data.size, SEEK_CUR) );
+        if (data.id == WAVE_DATA_ID)
+            break;
 
-    if (feof(fp))
-      return -1;
+        if (skip_data(fp, data.size) < 0 || skip_data(fp, data.size & 1) < 0)
+            return -1;
+    }
 
     *bitdepth = format.bitdepth;
     *samplesize = format.framesize / format.channels;
-- 
2.43.0


From 0777a89ab06d46ef5e31db67a9634ab0b38df955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:12 +0000
Subject: [PATCH 14/26] fix: stop at the end of the audio in elc3

What follows the audio in the file was encoded as audio.
---
 tools/elc3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/elc3.c b/tools/elc3.c
index dec8bb0..ac76fc5 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -239,7 +239,9 @@ int main(int argc, char *argv[])
 
     for (int i = 0; i * frame_samples < encode_samples; i++) {
 
-        int nread = wave_read_pcm(fp_in, pcm_sbytes, nchannels, frame_samples, pcm);
+        int nleft = nsamples - i * frame_samples;
+        int nread = nleft <= 0 ? 0 : wave_read_pcm(fp_in, pcm_sbytes,
+            nchannels, nleft < frame_samples ? nleft : frame_samples, pcm);
 
         memset(pcm + nread * nchannels * pcm_sbytes, 0,
             nchannels * (frame_samples - nread) * pcm_sbytes);
-- 
2.43.0


From 5dfb645260efe0af493062d6e62e3301977a2abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:12 +0000
Subject: [PATCH 15/26] fix: refuse the WAVE files too long for elc3

The number of samples to encode overflowed: elc3 silently encoded
nothing.
---
 tools/elc3.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/elc3.c b/tools/elc3.c
index ac76fc5..3dce744 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -22,6 +22,7 @@
 #include <stdio.h>
 #include <stdarg.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 #include <math.h>
 #include <time.h>
@@ -190,6 +191,9 @@ int main(int argc, char *argv[])
                        p.srate_hz > srate_hz                       ))
         error(EINVAL, "Encoder samplerate %d Hz", p.srate_hz);
 
+    if (nsamples > INT_MAX - srate_hz)
+        error(EFBIG, "Length of the audio");
+
     int enc_srate_hz = !p.srate_hz ? srate_hz : p.srate_hz;
     int enc_samples = !p.srate_hz ? nsamples :
         ((int64_t)nsamples * enc_srate_hz) / srate_hz;
@@ -237,16 +241,16 @@ int main(int argc, char *argv[])
     int nsec = 0;
     unsigned t0 = clock_us();
 
-    for (int i = 0; i * frame_samples < encode_samples; i++) {
+    for (int i = 0; (int64_t)i * frame_samples < encode_samples; i++) {
 
-        int nleft = nsamples - i * frame_samples;
+        int nleft = nsamples - (int64_t)i * frame_samples;
         int nread = nleft <= 0 ? 0 : wave_read_pcm(fp_in, pcm_sbytes,
             nchannels, nleft < frame_samples ? nleft : frame_samples, pcm);
 
         memset(pcm + nread * nchannels * pcm_sbytes, 0,
             nchannels * (frame_samples - nread) * pcm_sbytes);
 
-        if (floorf(i * frame_us * 1e-6) > nsec) {
+        if (floorf(i * (frame_us * 1e-6)) > nsec) {
             float progress = fminf(
                 (float)i * frame_samples / encode_samples, 1);
 
@@ -254,7 +258,7 @@ int main(int argc, char *argv[])
                     nsec / 60, nsec % 60,
                     dash_line + (int)floorf((1 - progress) * 40));
 
-            nsec = (int)(i * frame_us * 1e-6);
+            nsec = (int)(i * (frame_us * 1e-6));
         }
 
         uint8_t *out_ptr = out;
-- 
2.43.0


From 263f7484baf89200d98a3c30e5ec65b8029324ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:17 +0000
Subject: [PATCH 16/26] fix: report the I/O errors in elc3 and dlc3

The tools ended with success when their input could not be read, or
their output could not be written up to its end.
---
 tools/dlc3.c | 11 +++++++++--
 tools/elc3.c | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 57756f4..e524854 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -230,6 +230,9 @@ int main(int argc, char *argv[])
 
         int block_bytes = lc3bin_read_data(fp_in, nchannels, in);
 
+        if (ferror(fp_in))
+            error(EIO, "Reading of the input file");
+
         if (floorf(i * (frame_us * 1e-6)) > nsec) {
 
             float progress = fminf((float)i * frame_samples / pcm_samples, 1);
@@ -267,6 +270,9 @@ int main(int argc, char *argv[])
 
         wave_write_pcm(fp_out,
             pcm_sbytes, pcm, nchannels, pcm_offset, pcm_nwrite);
+
+        if (ferror(fp_out))
+            error(EIO, "Writing of the output file");
     }
 
     unsigned t = (clock_us() - t0) / 1000;
@@ -286,6 +292,7 @@ int main(int argc, char *argv[])
     if (fp_in != stdin)
         fclose(fp_in);
 
-    if (fp_out != stdout)
-        fclose(fp_out);
+    if (fflush(fp_out) != 0 || ferror(fp_out) ||
+            (fp_out != stdout && fclose(fp_out) != 0))
+        error(EIO, "Writing of the output file");
 }
diff --git a/tools/elc3.c b/tools/elc3.c
index 3dce744..0f366a6 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -247,6 +247,9 @@ int main(int argc, char *argv[])
         int nread = nleft <= 0 ? 0 : wave_read_pcm(fp_in, pcm_sbytes,
             nchannels, nleft < frame_samples ? nleft : frame_samples, pcm);
 
+        if (ferror(fp_in))
+            error(EIO, "Reading of the input file");
+
         memset(pcm + nread * nchannels * pcm_sbytes, 0,
             nchannels * (frame_samples - nread) * pcm_sbytes);
 
@@ -274,6 +277,9 @@ int main(int argc, char *argv[])
         }
 
         lc3bin_write_data(fp_out, out, block_bytes);
+
+        if (ferror(fp_out))
+            error(EIO, "Writing of the output file");
     }
 
     unsigned t = (clock_us() - t0) / 1000;
@@ -290,6 +296,7 @@ int main(int argc, char *argv[])
     if (fp_in != stdin)
         fclose(fp_in);
 
-    if (fp_out != stdout)
-        fclose(fp_out);
+    if (fflush(fp_out) != 0 || ferror(fp_out) ||
+            (fp_out != stdout && fclose(fp_out) != 0))
+        error(EIO, "Writing of the output file");
 }
-- 
2.43.0


From 9e64de01bf492aa2211b15c4b4b99c99437f8141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:11 +0000
Subject: [PATCH 17/26] fix: release the memory of the Python encoders and
 decoders

The generator expression that should release the memory was never
evaluated. The memory was lost too when the setup refuses the parameters.
---
 python/lc3.py | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8c4ae71..ae5ec42 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -283,24 +283,32 @@ class Encoder(_Base):
         ]
 
         def new_encoder():
-            return lib.lc3_hr_setup_encoder(
+            mem = self.malloc(
+                lib.lc3_hr_encoder_size(
+                    self.hrmode, self.frame_duration_us, self.pcm_sample_rate_hz
+                )
+            )
+
+            encoder = lib.lc3_hr_setup_encoder(
                 self.hrmode,
                 self.frame_duration_us,
                 self.sample_rate_hz,
                 self.pcm_sample_rate_hz,
-                self.malloc(
-                    lib.lc3_hr_encoder_size(
-                        self.hrmode, self.frame_duration_us, self.pcm_sample_rate_hz
-                    )
-                ),
+                mem,
             )
 
+            if not encoder:
+                self.free(mem)
+
+            return encoder
+
         self.__encoders = [new_encoder() for _ in range(num_channels)]
 
     def __del__(self) -> None:
 
         try:
-            (self.free(encoder) for encoder in self.__encoders)
+            for encoder in self.__encoders:
+                self.free(encoder)
         finally:
             return
 
@@ -449,24 +457,32 @@ class Decoder(_Base):
         ]
 
         def new_decoder():
-            return lib.lc3_hr_setup_decoder(
+            mem = self.malloc(
+                lib.lc3_hr_decoder_size(
+                    self.hrmode, self.frame_duration_us, self.pcm_sample_rate_hz
+                )
+            )
+
+            decoder = lib.lc3_hr_setup_decoder(
                 self.hrmode,
                 self.frame_duration_us,
                 self.sample_rate_hz,
                 self.pcm_sample_rate_hz,
-                self.malloc(
-                    lib.lc3_hr_decoder_size(
-                        self.hrmode, self.frame_duration_us, self.pcm_sample_rate_hz
-                    )
-                ),
+                mem,
             )
 
+            if not decoder:
+                self.free(mem)
+
+            return decoder
+
         self.__decoders = [new_decoder() for i in range(num_channels)]
 
     def __del__(self) -> None:
 
         try:
-            (self.free(decoder) for decoder in self.__decoders)
+            for decoder in self.__decoders:
+                self.free(decoder)
         finally:
             return
 
-- 
2.43.0


From 5956bccbb00aa3b569769e6e57129d5fe0eae7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:11 +0000
Subject: [PATCH 18/26] fix: pad and check floating point input of the Python
 encoder

Vectors shorter than the frame were not padded, as documented, but
refused, so were legal samples of two channels or more.
---
 python/lc3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lc3.py b/python/lc3.py
index ae5ec42..6ce0e68 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -350,10 +350,10 @@ class Encoder(_Base):
             pcm_buffer = array.array("f", pcm)
 
             # Invert test to catch NaN
-            if not abs(sum(pcm_buffer)) / frame_samples < 2:
+            if not abs(sum(pcm_buffer)) / pcm_len < 2:
                 raise InvalidArgumentError("Out of range PCM input")
 
-            padding = max(pcm_len - frame_samples, 0)
+            padding = max(pcm_len - len(pcm_buffer), 0)
             pcm_buffer.extend(array.array("f", [0] * padding))
 
         else:
-- 
2.43.0


From 52d4840bd544826c733b81e87fd3125667989575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:11 +0000
Subject: [PATCH 19/26] fix: do not process a part of the channels in Python on
 bad sizes

When the size of the block was legal for the first channels only, these
were encoded or decoded before the error was raised, and were then one
frame ahead of the others.
---
 python/lc3.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/python/lc3.py b/python/lc3.py
index 6ce0e68..044b304 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -39,6 +39,9 @@ class InvalidArgumentError(ValueError, BaseError):
     """Error raised when a bad argument is given."""
 
 
+_MIN_FRAME_BYTES = 20
+
+
 class _PcmFormat(enum.IntEnum):
     S16 = 0
     S24 = 1
@@ -189,6 +192,21 @@ class _Base:
             raise InvalidArgumentError("Bad parameters")
         return ret
 
+    def _check_block_size(self, num_bytes: int, min_frame_bytes: int) -> None:
+        """
+        Check the size of LC3 frame blocks, before any channel is processed.
+        """
+        max_frame_bytes = self.lib.lc3_hr_frame_block_bytes(
+            self.hrmode, self.frame_duration_us, self.sample_rate_hz, 1, 0x7FFFFFFF
+        )
+
+        if (
+            not self.num_channels * min_frame_bytes
+            <= num_bytes
+            <= self.num_channels * max_frame_bytes
+        ):
+            raise InvalidArgumentError("Bad parameters")
+
     @classmethod
     def _resolve_pcm_format(cls, bit_depth: int | None) -> tuple[
         _PcmFormat,
@@ -360,6 +378,13 @@ class Encoder(_Base):
             padding = max(pcm_len * ctypes.sizeof(pcm_t) - len(pcm), 0)
             pcm_buffer = bytearray(pcm) + bytearray(padding)  # type: ignore
 
+        self._check_block_size(
+            num_bytes,
+            self.lib.lc3_hr_frame_block_bytes(
+                self.hrmode, self.frame_duration_us, self.sample_rate_hz, 1, 0
+            ),
+        )
+
         data_buffer = (c_byte * num_bytes)()
         data_offset = 0
 
@@ -517,6 +542,8 @@ class Decoder(_Base):
         pcm_buffer = (pcm_t * pcm_len)()
 
         data_buffer = bytearray(data)
+        self._check_block_size(len(data_buffer), _MIN_FRAME_BYTES)
+
         data_offset = 0
 
         for ich, decoder in enumerate(self.__decoders):
-- 
2.43.0


From 8ebe4385875c2870c037c6b896dd2f677ba1aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:11 +0000
Subject: [PATCH 20/26] fix: use the libraries without High-Resolution
 interface in Python

The addresses of the contexts were truncated to 32 bits, the process was
killed at the first call. The size of the frames was the one of two
channels whatever their number.
---
 python/lc3.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 044b304..f23abeb 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -110,7 +110,7 @@ class _Base:
             )
             lc3_hr_frame_block_bytes = (
                 lambda hrmode, dt_us, sr_hz, num_channels, bitrate: num_channels
-                * lib.lc3_frame_bytes(dt_us, bitrate // 2)
+                * lib.lc3_frame_bytes(dt_us, bitrate // num_channels)
             )
             lc3_hr_resolve_bitrate = (
                 lambda hrmode, dt_us, sr_hz, nbytes: lib.lc3_resolve_bitrate(
@@ -273,6 +273,12 @@ class Encoder(_Base):
             if self.hrmode:
                 raise InitializationError("High-Resolution interface not available")
 
+            lib.lc3_encoder_size.argtypes = [c_int, c_int]
+            lib.lc3_encoder_size.restype = c_uint
+
+            lib.lc3_setup_encoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_encoder.restype = self.c_encoder_t
+
             lc3_hr_encoder_size = lambda hrmode, dt_us, sr_hz: lib.lc3_encoder_size(
                 dt_us, sr_hz
             )
@@ -454,6 +460,12 @@ class Decoder(_Base):
             if self.hrmode:
                 raise InitializationError("High-Resolution interface not available")
 
+            lib.lc3_decoder_size.argtypes = [c_int, c_int]
+            lib.lc3_decoder_size.restype = c_uint
+
+            lib.lc3_setup_decoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_decoder.restype = self.c_decoder_t
+
             lc3_hr_decoder_size = lambda hrmode, dt_us, sr_hz: lib.lc3_decoder_size(
                 dt_us, sr_hz
             )
-- 
2.43.0


From 21642826ecaf2970b994e9d3bb691e7fce745d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:46 +0000
Subject: [PATCH 21/26] fix: accept the frame durations of 2.5 and 7.5 ms in
 encoder.py

The duration was truncated to milliseconds before the conversion.
---
 python/tools/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/tools/encoder.py b/python/tools/encoder.py
index 3246c4c..ffc2902 100755
--- a/python/tools/encoder.py
+++ b/python/tools/encoder.py
@@ -57,7 +57,7 @@ stream_length = wavfile.getnframes()
 # --- Setup encoder ---
 
 enc = lc3.Encoder(
-    int(args.frame_duration)*1000, samplerate, nchannels, libpath=args.libpath)
+    int(args.frame_duration * 1000), samplerate, nchannels, libpath=args.libpath)
 frame_size = enc.get_frame_bytes(args.bitrate)
 frame_length = enc.get_frame_samples()
 bitrate = enc.resolve_bitrate(frame_size)
-- 
2.43.0


From ad2aa3f75390c79bc979a8acad6503db1e203c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:46 +0000
Subject: [PATCH 22/26] fix: encode the end of the audio in encoder.py

The last samples, by the delay of the codec, were missing in the stream.
The decoder tool in Python fails on such a stream, the one in C gives
silence.
---
 python/tools/encoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/tools/encoder.py b/python/tools/encoder.py
index ffc2902..581457c 100755
--- a/python/tools/encoder.py
+++ b/python/tools/encoder.py
@@ -61,6 +61,7 @@ enc = lc3.Encoder(
 frame_size = enc.get_frame_bytes(args.bitrate)
 frame_length = enc.get_frame_samples()
 bitrate = enc.resolve_bitrate(frame_size)
+encoded_length = stream_length + enc.get_delay_samples()
 
 # --- Setup output ---
 
@@ -72,7 +73,7 @@ f_lc3.write(struct.pack(
 
 # --- Encoding loop ---
 
-for i in range(0, stream_length, frame_length):
+for i in range(0, encoded_length, frame_length):
 
     f_lc3.write(struct.pack('=H', frame_size))
 
-- 
2.43.0


From 7015014e1c8466e2459b1fd7439f748a4abc99ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:46 +0000
Subject: [PATCH 23/26] fix: read the additional parameters of the header in
 decoder.py

The streams encoded with the High-Resolution mode were not decoded.
---
 python/tools/decoder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/tools/decoder.py b/python/tools/decoder.py
index 7cc5127..83b42b0 100755
--- a/python/tools/decoder.py
+++ b/python/tools/decoder.py
@@ -48,9 +48,12 @@ args = parser.parse_args()
 f_lc3 = args.lc3_file
 
 header = struct.unpack('=HHHHHHHI', f_lc3.read(18))
-if header[0] != 0xcc1c:
+if header[0] != 0xcc1c or header[1] < 18:
     raise ValueError('Invalid bitstream file')
 
+params = f_lc3.read(header[1] - 18)
+hrmode = len(params) >= 2 and struct.unpack('=H', params[:2])[0] != 0
+
 samplerate = header[2] * 100
 nchannels = header[4]
 frame_duration = header[5] * 10
@@ -71,7 +74,7 @@ wavfile.setnframes(stream_length)
 # --- Setup decoder ---
 
 dec = lc3.Decoder(
-    frame_duration, samplerate, nchannels, libpath=args.libpath)
+    frame_duration, samplerate, nchannels, hrmode=hrmode, libpath=args.libpath)
 frame_length = dec.get_frame_samples()
 encoded_length = stream_length + dec.get_delay_samples()
 
-- 
2.43.0


From c71a2b58016de5b9674667b82d87c2ac9c5492a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:21 +0000
Subject: [PATCH 24/26] fix: overflow of the gain estimation at high levels

The sum over the 240 groups of lines of a 96 kHz frame exceeds 32 bits, and
the gain of the frame ends at its coarsest value.
---
 src/spec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spec.c b/src/spec.c
index 899910f..ba33c1b 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -151,7 +151,7 @@ LC3_HOT static int estimate_gain(
 
     for (int i = 128, j, j0 = n4-1, j1 ; i > 0; i >>= 1) {
         int gn = (g_int - i) * k_20_28;
-        int v = 0;
+        int64_t v = 0;
 
         for (j = j0; j >= 0 && e[j].q16 < gn; j--);
 
@@ -163,7 +163,7 @@ LC3_HOT static int estimate_gain(
                                    : 2*e_diff - (36 << 16);
         }
 
-        if (v > nbits * k_1u4)
+        if (v > (int64_t)nbits * k_1u4)
             j0 = j1;
         else
             g_int = g_int - i;
-- 
2.43.0


From ba0cb1bba6c6f1826c979f5dc7def474b18e74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:21 +0000
Subject: [PATCH 25/26] fix: quantization of values next to 0.5 in
 high-resolution

The addition of 0.5 to the value right below 0.5 rounds to 1. The value was
coded as 1, but has no residual bit in the encoder; the decoder gave the
residual bits to other values.
---
 src/spec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spec.c b/src/spec.c
index ba33c1b..860324f 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -343,7 +343,7 @@ LC3_HOT static int compute_nbits(
         for ( ; i < LC3_MIN(*n, (ne + 2) >> (1 - h))
                 && nbits <= nbits_budget; i += 2) {
 
-            float xq_off = lc3_hr(sr) ? 0.5f : 6.f/16;
+            float xq_off = lc3_hr(sr) ? 0x1.fffffep-2f : 6.f/16;
             uint32_t a = fabsf(x[i+0]) + xq_off;
             uint32_t b = fabsf(x[i+1]) + xq_off;
 
@@ -432,7 +432,7 @@ LC3_HOT static void put_quantized(lc3_bits_t *bits,
 
         for ( ; i < LC3_MIN(nq, (ne + 2) >> (1 - h)); i += 2) {
 
-            float xq_off = lc3_hr(sr) ? 0.5f : 6.f/16;
+            float xq_off = lc3_hr(sr) ? 0x1.fffffep-2f : 6.f/16;
             uint32_t a = fabsf(x[i+0]) + xq_off;
             uint32_t b = fabsf(x[i+1]) + xq_off;
 
@@ -639,7 +639,7 @@ LC3_HOT static void put_lsb(lc3_bits_t *bits,
 {
     for (int i = 0; i < n && nbits > 0; i += 2) {
 
-        float xq_off = hrmode ? 0.5f : 6.f/16;
+        float xq_off = hrmode ? 0x1.fffffep-2f : 6.f/16;
         uint32_t a = fabsf(x[i+0]) + xq_off;
         uint32_t b = fabsf(x[i+1]) + xq_off;
 
-- 
2.43.0


From a415413a9dbb3513396525cfacafef2b2f77ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:58:49 +0000
Subject: [PATCH 26/26] fix: precision of lc3_exp2f with clang and fast-math

The difference was folded with the sum by reassociation, the argument was
reduced to 0 and 2^x computed in steps of 1/8.
---
 src/fastmath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 7322ab3..01c91c5 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -102,7 +102,8 @@ static inline float lc3_exp2f(float x)
 
     v.f = x + 0x1.8p20f;
     int k = v.s;
-    x -= v.f - 0x1.8p20f;
+    v.f -= 0x1.8p20f;
+    x -= v.f;
 
     /* --- Compute 2^x, with |x| < 1 ---
      * Perform polynomial approximation in range -0.5/8 to 0.5/8,
-- 
2.43.0


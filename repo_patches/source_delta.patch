From 3676f1e34241687474bbed418d1c1100aaa24ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 001/164] fix: vl_lapack_dlasv2 returned wrong right singular
 vectors when the off-diagonal entry dominates

---
 vl/mathop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index 27bd7d4..aab8750 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -767,7 +767,7 @@ vl_lapack_dlasv2 (double *smin,
           *smin = (fa / ga) * ha ; /* 2 ulps */
         }
         cut = 1.0 ; sut = ht / gt ;
-        cvt = 1.0 ; svt = ft / gt ;
+        cvt = ft / gt ; svt = 1.0 ;
       }
     }
 
-- 
2.43.0


From 127c3583dec93b00a422e6a110ee53163fecedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 002/164] fix: vl_svd2 returned NaN for a matrix with a null
 first column

---
 vl/mathop.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index aab8750..33e495d 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -650,8 +650,14 @@ vl_svd2 (double* S, double *U, double *V, double const *M)
   double cu2, su2, cv2, sv2 ;
   double f, g, h ;
   double smin, smax ;
-  cu1 /= norm ;
-  su1 /= norm ;
+  if (norm > 0) {
+    cu1 /= norm ;
+    su1 /= norm ;
+  } else {
+    /* null first column: already upper triangular */
+    cu1 = 1 ;
+    su1 = 0 ;
+  }
 
   f = cu1 * m11 + su1 * m21 ;
   g = cu1 * m12 + su1 * m22 ;
-- 
2.43.0


From 9e70726fa97497479a6669f6886b68320bdaece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 003/164] fix: vl_irodrigues returned NaN for half turns whose
 axis has a null component

---
 vl/rodrigues.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/rodrigues.c b/vl/rodrigues.c
index 14958c9..360abb2 100644
--- a/vl/rodrigues.c
+++ b/vl/rodrigues.c
@@ -233,9 +233,9 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
     W_pt[8] =  0.5*( R(2,2) + R(2,2) ) - 1.0 ;
 
     /* these are only absolute values */
-    x = sqrt( 0.5 * (W(0,0)-W(1,1)-W(2,2)) ) ;
-    y = sqrt( 0.5 * (W(1,1)-W(2,2)-W(0,0)) ) ;
-    z = sqrt( 0.5 * (W(2,2)-W(0,0)-W(1,1)) ) ;
+    x = sqrt( VL_MAX(0.5 * (W(0,0)-W(1,1)-W(2,2)), 0.0) ) ;
+    y = sqrt( VL_MAX(0.5 * (W(1,1)-W(2,2)-W(0,0)), 0.0) ) ;
+    z = sqrt( VL_MAX(0.5 * (W(2,2)-W(0,0)-W(1,1)), 0.0) ) ;
 
     /* set the biggest component to + and use the element of the
     ** matrix W to determine the sign of the other components
-- 
2.43.0


From 5b6b20912b6f05cbcf429757bce8109f10b5ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 004/164] fix: vl_irodrigues returned NaN when rounding makes
 the trace exceed three

---
 vl/rodrigues.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/rodrigues.c b/vl/rodrigues.c
index 360abb2..25690b7 100644
--- a/vl/rodrigues.c
+++ b/vl/rodrigues.c
@@ -189,7 +189,7 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
       ---- = ---------- r,  ---- = ----- [di1 dj3 - di3 dj1].
       dRii     2 sth^2      dRij   2 sth [di1 dj2 - di2 dj1]
 
-      trace(A) < -1 only for small num. errors.
+      trace(A) < -1 or > 3 only for small num. errors.
   */
 
 #define OM(i)    om_pt[(i)]
@@ -200,7 +200,7 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
   const double small = 1e-6 ;
 
   double th = acos
-    (0.5*(VL_MAX(R(0,0)+R(1,1)+R(2,2),-1.0) - 1.0)) ;
+    (0.5*(VL_MIN(VL_MAX(R(0,0)+R(1,1)+R(2,2),-1.0),3.0) - 1.0)) ;
 
   double sth = sin(th) ;
   double cth = cos(th) ;
-- 
2.43.0


From e7265b1950766294286d16b0289348105f2de0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 005/164] fix: vl_imconvcol filters whose support does not
 contain zero

---
 vl/imopv.c      | 3 ++-
 vl/imopv_sse2.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 225b733..788a7f3 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -168,6 +168,7 @@ VL_XCAT(vl_imconvcol_v, SFX)
       srci = src + x - stop * src_stride ;
 
       if (stop > 0) {
+        stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
         if (zeropad) {
           v = 0 ;
         } else {
@@ -188,7 +189,7 @@ VL_XCAT(vl_imconvcol_v, SFX)
         srci += src_stride ;
       }
 
-      if (zeropad) v = 0 ;
+      v = zeropad ? 0 : *(src + x + (src_height - 1) * src_stride) ;
 
       stop = filt_end - filt_begin + 1 ;
       while (filti > filt - stop) {
diff --git a/vl/imopv_sse2.c b/vl/imopv_sse2.c
index 016c23f..b83c319 100644
--- a/vl/imopv_sse2.c
+++ b/vl/imopv_sse2.c
@@ -89,6 +89,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         srci = src + x - stop * src_stride ;
 
         if (stop > 0) {
+          stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
           if (zeropad) {
             v = VSTZ () ;
           } else {
@@ -109,7 +110,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = VSTZ () ;
+        v = zeropad ? VSTZ () : * (VTYPE*) (src + x + (src_height - 1) * src_stride) ;
 
         stop = filt_end - filt_begin + 1;
         while (filti > filt - stop) {
@@ -155,6 +156,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         srci = src + x - stop * src_stride ;
 
         if (stop > 0) {
+          stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
           if (zeropad) {
             v = 0 ;
           } else {
@@ -175,7 +177,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = 0 ;
+        v = zeropad ? 0 : *(src + x + (src_height - 1) * src_stride) ;
 
         stop = filt_end - filt_begin + 1 ;
         while (filti > filt - stop) {
-- 
2.43.0


From 8c05d79a8b4399101e76bbe8a1956f27713df392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 006/164] fix: vl_imgradient on images one pixel wide or high

---
 vl/imopv.c | 68 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 788a7f3..a223546 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -729,10 +729,11 @@ VL_XCAT(vl_imgradient_, SFX)
  vl_size imageStride)
 {
   /* Shortcuts */
-  vl_index const xo = 1 ;
-  vl_index const yo = imageStride ;
   vl_size const w = imageWidth;
   vl_size const h = imageHeight;
+  /* a difference along a direction with only one pixel is zero */
+  vl_index const xo = (w > 1) ? 1 : 0 ;
+  vl_index const yo = (h > 1) ? imageStride : 0 ;
 
   T const *src, *end ;
   T *pgrad_x, *pgrad_y;
@@ -760,11 +761,13 @@ VL_XCAT(vl_imgradient_, SFX)
   }
 
   /* last pixel of the first row */
-  *pgrad_x = src[0]   - src[-xo] ;
-  pgrad_x += gradWidthStride;
-  *pgrad_y = src[+yo] - src[0] ;
-  pgrad_y += gradWidthStride;
-  src++;
+  if (w > 1) {
+    *pgrad_x = src[0]   - src[-xo] ;
+    pgrad_x += gradWidthStride;
+    *pgrad_y = src[+yo] - src[0] ;
+    pgrad_y += gradWidthStride;
+    src++;
+  }
 
   xGradient += gradHeightStride;
   pgrad_x = xGradient;
@@ -793,11 +796,13 @@ VL_XCAT(vl_imgradient_, SFX)
     }
 
     /* last pixel of the middle row */
-    *pgrad_x =        src[0]   - src[-xo] ;
-    pgrad_x += gradWidthStride;
-    *pgrad_y = 0.5 * (src[+yo] - src[-yo]) ;
-    pgrad_y += gradWidthStride;
-    src++;
+    if (w > 1) {
+      *pgrad_x =        src[0]   - src[-xo] ;
+      pgrad_x += gradWidthStride;
+      *pgrad_y = 0.5 * (src[+yo] - src[-yo]) ;
+      pgrad_y += gradWidthStride;
+      src++;
+    }
 
     xGradient += gradHeightStride;
     pgrad_x = xGradient;
@@ -807,6 +812,8 @@ VL_XCAT(vl_imgradient_, SFX)
     src = image;
   }
 
+  if (h <= 1) return ;
+
   /* first pixel of the last row */
   *pgrad_x = src[+xo] - src[0] ;
   pgrad_x += gradWidthStride;
@@ -825,8 +832,10 @@ VL_XCAT(vl_imgradient_, SFX)
   }
 
   /* last pixel of the last row */
-  *pgrad_x = src[0]   - src[-xo] ;
-  *pgrad_y = src[0]   - src[-yo] ;
+  if (w > 1) {
+    *pgrad_x = src[0]   - src[-xo] ;
+    *pgrad_y = src[0]   - src[-yo] ;
+  }
 }
 /* VL_TYPE_FLOAT, VL_TYPE_DOUBLE */
 #endif
@@ -880,10 +889,11 @@ VL_XCAT(vl_imgradient_polar_, SFX)
  vl_size imageWidth, vl_size imageHeight, vl_size imageStride)
 {
   /* Shortcuts */
-  vl_index const xo = 1 ;
-  vl_index const yo = imageStride ;
   vl_size const w = imageWidth;
   vl_size const h = imageHeight;
+  /* a difference along a direction with only one pixel is zero */
+  vl_index const xo = (w > 1) ? 1 : 0 ;
+  vl_index const yo = (h > 1) ? imageStride : 0 ;
 
   T const *src, *end;
   T *pgrad_angl, *pgrad_ampl;
@@ -915,9 +925,11 @@ pgrad_angl += gradientHorizontalStride ;                             \
   }
 
   /* last pixel of the first row */
-  gx = src[0]   - src[-xo] ;
-  gy = src[+yo] - src[0] ;
-  SAVE_BACK ;
+  if (w > 1) {
+    gx = src[0]   - src[-xo] ;
+    gy = src[+yo] - src[0] ;
+    SAVE_BACK ;
+  }
 
   gradientModulus += gradHeightStride;
   pgrad_ampl = gradientModulus;
@@ -942,9 +954,11 @@ pgrad_angl += gradientHorizontalStride ;                             \
     }
 
     /* last pixel of the middle row */
-    gx =        src[0]   - src[-xo] ;
-    gy = 0.5 * (src[+yo] - src[-yo]) ;
-    SAVE_BACK ;
+    if (w > 1) {
+      gx =        src[0]   - src[-xo] ;
+      gy = 0.5 * (src[+yo] - src[-yo]) ;
+      SAVE_BACK ;
+    }
 
     gradientModulus += gradHeightStride;
     pgrad_ampl = gradientModulus;
@@ -954,6 +968,8 @@ pgrad_angl += gradientHorizontalStride ;                             \
     src = image;
   }
 
+  if (h <= 1) return ;
+
   /* first pixel of the last row */
   gx = src[+xo] - src[0] ;
   gy = src[  0] - src[-yo] ;
@@ -968,9 +984,11 @@ pgrad_angl += gradientHorizontalStride ;                             \
   }
 
   /* last pixel of the last row */
-  gx = src[0]   - src[-xo] ;
-  gy = src[0]   - src[-yo] ;
-  SAVE_BACK ;
+  if (w > 1) {
+    gx = src[0]   - src[-xo] ;
+    gy = src[0]   - src[-yo] ;
+    SAVE_BACK ;
+  }
 
 }
 /* VL_TYPE_FLOAT, VL_TYPE_DOUBLE */
-- 
2.43.0


From bda1ffe01768be26dc89ed65afee9caf0aabc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 007/164] fix: vl_string_parse_protocol accepted prefixes of
 protocol names and rejected binary://

---
 vl/stringop.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/stringop.c b/vl/stringop.c
index 5f92df3..6541b6c 100644
--- a/vl/stringop.c
+++ b/vl/stringop.c
@@ -97,10 +97,12 @@ vl_string_parse_protocol (char const *string, int *protocol)
     cpt = string ;
   }
   else {
-    if (strncmp(string, "ascii", cpt - string) == 0) {
+    size_t n = cpt - string ;
+    if (n == 5 && strncmp(string, "ascii", n) == 0) {
       *protocol = VL_PROT_ASCII ;
     }
-    else if (strncmp(string, "bin",   cpt - string) == 0) {
+    else if ((n == 3 && strncmp(string, "bin", n) == 0) ||
+             (n == 6 && strncmp(string, "binary", n) == 0)) {
       *protocol = VL_PROT_BINARY ;
     }
     else {
-- 
2.43.0


From 49758fd0e291cbb7598d9ff3c828d0fa0d4a9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 008/164] fix: getopt_long overwrote the argument following --

---
 vl/getopt_long.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index 0e860f3..727c631 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -150,7 +150,6 @@ getopt_long(int argc, char *const argv[],
         place[0] == '-' &&
         place[1] == '\0') {
 
-      optind  = optend ;
       place   = EMSG ;
       ret_val = -1 ;
       goto done_option ;
-- 
2.43.0


From ec6cd25c7b870992a9b9704cc0a7634e0d95d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 009/164] fix: getopt_long read past the end of a lone -
 argument

---
 vl/getopt_long.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index 727c631..bcab8fe 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -120,8 +120,8 @@ getopt_long(int argc, char *const argv[],
     /* place points to the candidate option */
     place = argv [optbegin] ;
 
-    /* an option is introduced by '-' */
-    if (place [0] != '-') {
+    /* an option is introduced by '-' (alone, this is not an option) */
+    if (place [0] != '-' || place [1] == '\0') {
       /* this argument is not an option: try next argument */
       ++ optbegin ;
       if (optbegin >= argc) {
-- 
2.43.0


From 89713eaa631482cf06a449ad2b54e011bc69092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 010/164] fix: getopt_long accepted the colon of optstring as a
 short option

---
 vl/getopt_long.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index bcab8fe..eeb6104 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -239,7 +239,7 @@ getopt_long(int argc, char *const argv[],
   optopt = (int) *place++ ;
 
   /* search charcater in option list */
-  oli = strchr(optstring, optopt);
+  oli = (optopt == ':') ? NULL : strchr(optstring, optopt);
 
   /* short option not found */
   if (!oli) {
-- 
2.43.0


From d490f8b967984a44550b6f974cc434f7ea0b9642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 011/164] fix: vl_pgm_extract_head rejected every valid PGM
 file and accepted invalid sizes

---
 vl/pgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 72110a3..74d3a55 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -233,7 +233,7 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-  if(! (max_value >= 65536)) {
+  if(width < 1 || height < 1 || max_value < 1 || max_value >= 65536) {
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-- 
2.43.0


From 8ca15eb810c940f3570006088aefde209d535f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 012/164] fix: vl_pgm_extract_data skipped the letter d after
 ASCII pixels

---
 vl/pgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 74d3a55..3ba8380 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -308,7 +308,7 @@ vl_pgm_extract_data (FILE* f, VlPgmImage const *im, void *data)
     for(good = 1, i = 0 ;
         i < data_size && good ;
         ++i) {
-      c = fscanf(f, " %ud", &v) ;
+      c = fscanf(f, " %u", &v) ;
       if (bpp == 1) {
         * ((vl_uint8* )  data + i) = (vl_uint8)  v ;
       } else {
-- 
2.43.0


From 543af295b12c48c01b55b236de12b58eea83e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 013/164] fix: vl_pgm_read_new freed the wrong pointer, closed
 the file twice or never on errors

---
 vl/pgm.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 3ba8380..507335a 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -407,15 +407,20 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   }
 
   if (vl_pgm_get_bpp(im) > 1) {
+    fclose (f) ;
     return vl_set_last_error(VL_ERR_BAD_ARG, "PGM with BPP > 1 not supported") ;
   }
 
   *data = vl_malloc (vl_pgm_get_npixels(im) * sizeof(vl_uint8)) ;
+  if (*data == NULL) {
+    fclose (f) ;
+    return vl_set_last_error(VL_ERR_ALLOC, "Not enough memory to read PGM file `%s'", name) ;
+  }
   err = vl_pgm_extract_data(f, im, *data) ;
 
   if (err) {
-    vl_free (data) ;
-    fclose (f) ;
+    vl_free (*data) ;
+    *data = NULL ;
   }
 
   fclose (f) ;
-- 
2.43.0


From f749883d7f8155ec730bcd2c2515c013c186595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 014/164] fix: kd-tree construction overflowed when rounding
 puts the mean below all data

---
 vl/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 889cc7d..dd580d9 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -296,7 +296,7 @@ vl_kdtree_build_recursively
        * reasons. In this case, also due to numerical accuracy, the
        * mean value can be smaller, equal, or larger than all
        * points. */
-      if (dataBegin <= splitIndex && splitIndex + 1 < dataEnd) break ;
+      if (dataBegin < splitIndex + 1 && splitIndex + 1 < dataEnd) break ;
 
     case VL_KDTREE_MEDIAN :
       medianIndex = (dataBegin + dataEnd - 1) / 2 ;
-- 
2.43.0


From b02630702b46834d55106674d18137c258031a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 015/164] fix: kd-tree exact search used squared L2 bounds for
 the L1 distance

---
 vl/kdtree.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index dd580d9..f16c999 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -577,6 +577,20 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
 }
 
 
+/** ------------------------------------------------------------------
+ ** @internal
+ ** @brief Contribution of one coordinate to the distance of two points
+ ** @param forest forest (determines the distance).
+ ** @param delta difference of the coordinate.
+ ** @return contribution to the distance.
+ **/
+
+VL_INLINE double
+vl_kdforest_coordinate_distance (VlKDForest const * forest, double delta)
+{
+  return (forest->distance == VlDistanceL1) ? vl_abs_d (delta) : delta * delta ;
+}
+
 /** ------------------------------------------------------------------
  ** @internal @brief
  **/
@@ -689,21 +703,21 @@ vl_kdforest_query_recursively (VlKDForestSearcher * searcher,
    */
 
   delta = x - x2 ;
-  saveDist = dist + delta*delta ;
+  saveDist = dist + vl_kdforest_coordinate_distance (searcher->forest, delta) ;
 
   if (x <= x2) {
     nextChild = node->lowerChild ;
     saveChild = node->upperChild ;
     if (x <= x1) {
       delta = x - x1 ;
-      saveDist -= delta*delta ;
+      saveDist -= vl_kdforest_coordinate_distance (searcher->forest, delta) ;
     }
   } else {
     nextChild = node->upperChild ;
     saveChild = node->lowerChild ;
     if (x > x3) {
       delta = x - x3 ;
-      saveDist -= delta*delta ;
+      saveDist -= vl_kdforest_coordinate_distance (searcher->forest, delta) ;
     }
   }
 
-- 
2.43.0


From 2582ccf56350258be365ed904afbc10d176debcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 016/164] fix: vl_kmeans_new_copy left initialization,
 minEnergyVariation and energy unset

---
 vl/kmeans.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index c250ca8..211b701 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -442,6 +442,9 @@ vl_kmeans_new_copy (VlKMeans const * kmeans)
   self->verbosity = kmeans->verbosity ;
   self->maxNumIterations = kmeans->maxNumIterations ;
   self->numRepetitions = kmeans->numRepetitions ;
+  self->initialization = kmeans->initialization ;
+  self->minEnergyVariation = kmeans->minEnergyVariation ;
+  self->energy = kmeans->energy ;
 
   self->dimension = kmeans->dimension ;
   self->numCenters = kmeans->numCenters ;
-- 
2.43.0


From e537ed605598a53c761de58142323b701152d9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 017/164] fix: k-means cluster masses were allocated per point
 instead of per center

---
 vl/kmeans.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 211b701..c2b1aaf 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -841,7 +841,7 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
 
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   vl_uint32 * permutations = NULL ;
   vl_size * numSeenSoFar = NULL ;
   VlRand * rand = vl_get_rand () ;
@@ -900,7 +900,7 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
     previousEnergy = energy ;
 
     /* update clusters */
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
@@ -1021,7 +1021,7 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
   vl_size numRestartedCenters = 0 ;
 
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
 
   if (self->distance == VlDistanceL1) {
@@ -1076,7 +1076,7 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
     previousEnergy = energy ;
 
     /* update clusters */
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
@@ -1174,7 +1174,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
   vl_bool allDone ;
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   VlRand * rand = vl_get_rand () ;
 
 #if (FLT == VL_TYPE_FLOAT)
@@ -1314,7 +1314,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
     /*                         Compute new centers                  */
     /* ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ */
 
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < (signed)numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
-- 
2.43.0


From 9b21bf6698221e92037b0b869eefdb7cf4d5197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 018/164] fix: vl_kmeans_cluster never recorded the energy of
 the fit

---
 vl/kmeans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index c2b1aaf..0c1b13e 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -2092,6 +2092,7 @@ vl_kmeans_cluster (VlKMeans * self,
 
   vl_free (self->centers) ;
   self->centers = bestCenters ;
+  self->energy = bestEnergy ;
   return bestEnergy ;
 }
 
-- 
2.43.0


From 6c98d5501ffe00fc692f05167111e2c4a179b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 019/164] fix: vl_kmeans_quantize_ann ignored update without a
 distances array

---
 vl/kmeans.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 0c1b13e..d1ee347 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -749,23 +749,19 @@ VL_XCAT(_vl_kmeans_quantize_ann_, SFX)
     for(x = 0 ; x < (signed)numData ; ++x) {
       vl_kdforestsearcher_query (searcher, &neighbor, 1, (TYPE const *) (data + x*self->dimension));
 
-      if (distances) {
-        if(!update) {
-          distances[x] = (TYPE) neighbor.distance;
+      if(!update) {
+        if (distances) distances[x] = (TYPE) neighbor.distance;
+        assignments[x] = (vl_uint32) neighbor.index ;
+      } else {
+        TYPE prevDist = (TYPE) distFn(self->dimension,
+                                      data + self->dimension * x,
+                                      (TYPE*)self->centers + self->dimension *assignments[x]);
+        if (prevDist > (TYPE) neighbor.distance) {
+          if (distances) distances[x] = (TYPE) neighbor.distance ;
           assignments[x] = (vl_uint32) neighbor.index ;
         } else {
-          TYPE prevDist = (TYPE) distFn(self->dimension,
-                                        data + self->dimension * x,
-                                        (TYPE*)self->centers + self->dimension *assignments[x]);
-          if (prevDist > (TYPE) neighbor.distance) {
-            distances[x] = (TYPE) neighbor.distance ;
-            assignments[x] = (vl_uint32) neighbor.index ;
-          } else {
-            distances[x] = prevDist ;
-          }
+          if (distances) distances[x] = prevDist ;
         }
-      } else {
-        assignments[x] = (vl_uint32) neighbor.index ;
       }
     } /* end for */
   } /* end of parallel region */
-- 
2.43.0


From e1c79657a254259cc65639349f40a6e61b7c2eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:36 +0000
Subject: [PATCH 020/164] fix: L1 k-means updated only the first coordinate
 when a center was restarted

---
 vl/kmeans.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index d1ee347..2632b55 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -940,15 +940,15 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
             }
             numSeenSoFar[c] ++ ;
           }
-          /* restart the centers as required  */
-          for (c = 0 ; c < self->numCenters ; ++c) {
-            if (clusterMasses[c] == 0) {
-              TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
-              vl_uindex x = vl_rand_uindex(rand, numData) ;
-              numRestartedCenters ++ ;
-              for (d = 0 ; d < self->dimension ; ++d) {
-                cpt[d] = data[x * self->dimension + d] ;
-              }
+        }
+        /* restart the centers as required  */
+        for (c = 0 ; c < self->numCenters ; ++c) {
+          if (clusterMasses[c] == 0) {
+            TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
+            vl_uindex x = vl_rand_uindex(rand, numData) ;
+            numRestartedCenters ++ ;
+            for (d = 0 ; d < self->dimension ; ++d) {
+              cpt[d] = data[x * self->dimension + d] ;
             }
           }
         }
@@ -1116,15 +1116,15 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
             }
             numSeenSoFar[c] ++ ;
           }
-          /* restart the centers as required  */
-          for (c = 0 ; c < self->numCenters ; ++c) {
-            if (clusterMasses[c] == 0) {
-              TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
-              vl_uindex x = vl_rand_uindex(rand, numData) ;
-              numRestartedCenters ++ ;
-              for (d = 0 ; d < self->dimension ; ++d) {
-                cpt[d] = data[x * self->dimension + d] ;
-              }
+        }
+        /* restart the centers as required  */
+        for (c = 0 ; c < self->numCenters ; ++c) {
+          if (clusterMasses[c] == 0) {
+            TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
+            vl_uindex x = vl_rand_uindex(rand, numData) ;
+            numRestartedCenters ++ ;
+            for (d = 0 ; d < self->dimension ; ++d) {
+              cpt[d] = data[x * self->dimension + d] ;
             }
           }
         }
-- 
2.43.0


From 15c0ac7238b326273d590ab6c04df2bedc46a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 021/164] fix: integer k-means cluster counts were allocated
 per point instead of per center

---
 vl/ikmeans_elkan.tc | 2 +-
 vl/ikmeans_lloyd.tc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index d04c436..a655a39 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -75,7 +75,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_ikmacc_t *l_pt = vl_malloc(sizeof(*l_pt) * N * f->K) ; /* lower bound  */
   vl_ikmacc_t *d_pt = f->inter_dist ; /* half inter clst dist  */
   vl_uint32 *asgn = vl_malloc (sizeof(*asgn) * N) ;
-  vl_uint32 *counts =vl_malloc (sizeof(*counts) * N) ;
+  vl_uint32 *counts =vl_malloc (sizeof(*counts) * f->K) ;
 
   int done = 0 ;
 
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 7119267..5cc5fee 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -36,7 +36,7 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   int err =  0 ;
   vl_uindex iter, i, j, k  ;
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
-  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * N) ;
+  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * f->K) ;
 
   for (iter = 0 ; 1 ; ++ iter) {
     vl_bool done = 1 ;
-- 
2.43.0


From 5b4c6b18f4f2e7db164f88cbdb45a1ad6dc41c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 022/164] fix: integer Lloyd k-means compared with
 uninitialized assignments

---
 vl/ikmeans_lloyd.tc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 5cc5fee..fed6a61 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -38,6 +38,9 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
   vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * f->K) ;
 
+  /* no point is assigned yet */
+  memset (asgn, 0xff, sizeof(*asgn) * N) ;
+
   for (iter = 0 ; 1 ; ++ iter) {
     vl_bool done = 1 ;
 
-- 
2.43.0


From f675f9f9e50d53ea9129365a280372035d253b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 023/164] fix: integer k-means zeroed the centers of empty
 clusters

---
 vl/ikmeans_elkan.tc |  3 ++-
 vl/ikmeans_lloyd.tc | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index a655a39..da00f8d 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -156,7 +156,8 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
         }
       } else {
         for(i = 0 ; i < f->M ; ++i) {
-          /*m_pt[c*M + i] = data[pairs_pt[c].j*M + i] ;*/
+          /* no data are assigned to the center: it is not changed */
+          m_pt[c * f->M + i] = f->centers[c * f->M + i] ;
         }
       }
     }
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index fed6a61..48f1ca7 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -82,11 +82,17 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
      * ------------------------------------------------------------ */
 
     /* re-compute centers */
-    memset (f->centers, 0, sizeof(*f->centers) * f->M * f->K);
     memset (counts,  0, sizeof(*counts) * f->K);
+    for (j = 0; j < N; ++j) {
+      ++ counts [asgn [j]] ;
+    }
+    for (k = 0; k < f->K; ++k) {
+      if (counts [k] > 0) {
+        memset (f->centers + k * f->M, 0, sizeof(*f->centers) * f->M) ;
+      }
+    }
     for (j = 0; j < N; ++j) {
       vl_uindex this_center = asgn [j] ;
-      ++ counts [this_center] ;
       for (i = 0; i < f->M ; ++i) {
         f->centers [this_center * f->M + i] += data[j * f->M + i] ;
       }
-- 
2.43.0


From 99e4f65be78a14d142216e3e9c3d71f40c0be7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:50 +0000
Subject: [PATCH 024/164] fix: vl_ikm_init_rand drew centers whose distances
 overflow

---
 vl/ikmeans_init.tc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/ikmeans_init.tc b/vl/ikmeans_init.tc
index 87f989f..824b113 100644
--- a/vl/ikmeans_init.tc
+++ b/vl/ikmeans_init.tc
@@ -102,7 +102,7 @@ vl_ikm_init_rand
 
   for (k = 0 ; k < K ; ++ k) {
     for (i = 0 ; i < M ; ++ i) {
-      f-> centers [k * M + i] = (vl_ikmacc_t) (vl_rand_uint32 (rand)) ;
+      f-> centers [k * M + i] = (vl_ikmacc_t) (vl_rand_uint32 (rand) & 0xff) ;
     }
   }
 
-- 
2.43.0


From a3b8c96e212c01537faab365c00a31f6e76f4659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 025/164] fix: vl_hikm_push read past the children of an empty
 node

---
 vl/hikmeans.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index c727208..b7b09f8 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -266,6 +266,7 @@ vl_hikm_push (VlHIKMTree *f, vl_uint32 *asgn, vl_uint8 const *data, vl_size N)
     d = 0 ;
     while (node) {
       vl_uint32 best ;
+      if (vl_ikm_get_K (node->filter) == 0) break ;
       vl_ikm_push (node->filter,
                    &best,
                    data + i * M, 1) ;
@@ -274,6 +275,8 @@ vl_hikm_push (VlHIKMTree *f, vl_uint32 *asgn, vl_uint8 const *data, vl_size N)
       if (!node->children) break ;
       node = node->children [best] ;
     }
+    /* the path ended early in a node without centers */
+    for (; d < depth ; ++d) asgn[i * depth + d] = (vl_uint32) -1 ;
   }
 }
 
-- 
2.43.0


From 5c61d6e9bc6372120faad9c24def9544b0d09fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:48 +0000
Subject: [PATCH 026/164] fix: vl_gmm_delete leaked the covariance lower bounds

---
 vl/gmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index 5850445..39224cd 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -417,6 +417,7 @@ vl_gmm_delete (VlGMM * self)
   if(self->covariances) vl_free(self->covariances);
   if(self->priors) vl_free(self->priors);
   if(self->posteriors) vl_free(self->posteriors);
+  if(self->sigmaLowBound) vl_free(self->sigmaLowBound);
   if(self->kmeansInit && self->kmeansInitIsOwner) {
     vl_kmeans_delete(self->kmeansInit);
   }
-- 
2.43.0


From e032d2c4ced7393e0c8052003b1fbd2eca09ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:48 +0000
Subject: [PATCH 027/164] fix: GMM EM leaked the mode masses at every iteration

---
 vl/gmm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index 39224cd..d58f26b 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -828,7 +828,7 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
 
   TYPE * mass = vl_calloc(sizeof(TYPE), self->numClusters) ;
 
-  if (numClusters <= 1) { return 0 ; }
+  if (numClusters <= 1) { vl_free(mass) ; return 0 ; }
 
   /* compute statistics */
   {
@@ -996,6 +996,7 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
     (self,posteriors,priors,covariances,means,data,self->numData) ;
   }
 
+  vl_free(mass) ;
   return zeroWNum;
 }
 
-- 
2.43.0


From 14123d00fb4586be4c45e579c5e5301ab06c14e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:49 +0000
Subject: [PATCH 028/164] fix: vl_gmm_new_copy dropped the covariance lower
 bounds

---
 vl/gmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index d58f26b..ae61cfe 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1493,6 +1493,7 @@ vl_gmm_new_copy (VlGMM const * self)
   memcpy(gmm->means, self->means, size*self->numClusters*self->dimension);
   memcpy(gmm->covariances, self->covariances, size*self->numClusters*self->dimension);
   memcpy(gmm->priors, self->priors, size*self->numClusters);
+  memcpy(gmm->sigmaLowBound, self->sigmaLowBound, sizeof(double)*self->dimension);
   return gmm ;
 }
 
-- 
2.43.0


From c4dade3da7cf04082e896ff6f633f5612672f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 029/164] fix: vl_gmm_cluster with custom initialization
 repeated EM from uninitialized memory

---
 vl/gmm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index ae61cfe..ab05802 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1630,6 +1630,9 @@ double vl_gmm_cluster (VlGMM * self,
 
       bestLL = LL;
     }
+
+    /* the user-defined parameters are now gone and EM is deterministic */
+    if (self->initialization == VlGMMCustom) break ;
   }
 
   vl_free (self->priors) ;
-- 
2.43.0


From 6b9afe6646e299bc718e6cd519fd3196c9af9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0000
Subject: [PATCH 030/164] fix: vl_gmm_em did not record the log-likelihood of
 the fit

---
 vl/gmm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index ab05802..2ad623e 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1663,13 +1663,13 @@ double vl_gmm_em (VlGMM * self, void const * data, vl_size numData)
 {
   switch (self->dataType) {
     case VL_TYPE_FLOAT:
-      return _vl_gmm_em_f (self, (float const *)data, numData) ; break ;
+      self->LL = _vl_gmm_em_f (self, (float const *)data, numData) ; break ;
     case VL_TYPE_DOUBLE:
-      return _vl_gmm_em_d (self, (double const *)data, numData) ; break ;
+      self->LL = _vl_gmm_em_d (self, (double const *)data, numData) ; break ;
     default:
       abort() ;
   }
-  return 0 ;
+  return self->LL ;
 }
 
 /** @brief Explicitly set the initial means for EM.
-- 
2.43.0


From ed71914c63d502b89d75020d83638cb7b29c45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:02 +0000
Subject: [PATCH 031/164] fix: invalidate the gradient cache when SIFT starts a
 new image

---
 vl/sift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/sift.c b/vl/sift.c
index 03963fe..c8ace45 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -994,6 +994,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
 
   /* restart from the first */
   f->o_cur = o_min ;
+  f->grad_o = o_min - 1 ;
   f->nkeys = 0 ;
   w = f-> octave_width  = VL_SHIFT_LEFT(f->width,  - f->o_cur) ;
   h = f-> octave_height = VL_SHIFT_LEFT(f->height, - f->o_cur) ;
-- 
2.43.0


From 77797f0a6911b57c1416654e244277f4c214dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:02 +0000
Subject: [PATCH 032/164] fix: SIFT downsampling writes only the rows of the
 smaller octave

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index c8ace45..c067702 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -841,7 +841,7 @@ copy_and_downsample
   int x, y ;
 
   d = 1 << d ; /* d = 2^d */
-  for(y = 0 ; y < height ; y+=d) {
+  for(y = 0 ; y < height - (d-1) ; y+=d) {
     vl_sift_pix const * srcrowp = src + y * width ;
     for(x = 0 ; x < width - (d-1) ; x+=d) {
       *dst++ = *srcrowp ;
-- 
2.43.0


From 3c6469e82dda1d5859d5ebf24d5664ddcc5c5e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:10 +0000
Subject: [PATCH 033/164] fix: SIFT upsampling by four and more of non-square
 images

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index c067702..26a466c 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1025,7 +1025,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
       copy_and_upsample_rows (temp, octave,
                               width << -o,      height << -o ) ;
       copy_and_upsample_rows (octave, temp,
-                              width << -o, 2 * (height << -o)) ;
+                              height << -o, 2 * (width << -o)) ;
     }
   }
   else if (o_min > 0) {
-- 
2.43.0


From f43b90e4b26d8c72c54469de8197069f2f7a3b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:34 +0000
Subject: [PATCH 034/164] fix: SIFT exponential table lookup at the end of its
 range

---
 vl/sift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index 26a466c..7d7ab3a 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -670,7 +670,7 @@ Gaussian window size is set to have standard deviation
 
 #define EXPN_SZ  256          /**< ::fast_expn table size @internal */
 #define EXPN_MAX 25.0         /**< ::fast_expn table max  @internal */
-double expn_tab [EXPN_SZ+1] ; /**< ::fast_expn table      @internal */
+double expn_tab [EXPN_SZ+2] ; /**< ::fast_expn table      @internal */
 
 #define NBO 8
 #define NBP 4
@@ -714,7 +714,7 @@ VL_INLINE void
 fast_expn_init ()
 {
   int k  ;
-  for(k = 0 ; k < EXPN_SZ + 1 ; ++ k) {
+  for(k = 0 ; k < EXPN_SZ + 2 ; ++ k) {
     expn_tab [k] = exp (- (double) k * (EXPN_MAX / EXPN_SZ)) ;
   }
 }
-- 
2.43.0


From 0c9285a5c9301f58f5af4404f1edf11c8abd1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 035/164] fix: scale space geometry comparison

---
 vl/scalespace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 962f285..5cef333 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -343,7 +343,8 @@ vl_scalespacegeometry_is_equal (VlScaleSpaceGeometry a,
   a.firstOctave == b.firstOctave &&
   a.lastOctave == b.lastOctave &&
   a.octaveResolution == b.octaveResolution &&
-  a.octaveFirstSubdivision == b.octaveLastSubdivision &&
+  a.octaveFirstSubdivision == b.octaveFirstSubdivision &&
+  a.octaveLastSubdivision == b.octaveLastSubdivision &&
   a.baseScale == b.baseScale &&
   a.nominalScale == b.nominalScale ;
 }
-- 
2.43.0


From d09736756d4090624bfd9f3f032dc03b8dbc25dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 036/164] fix: scale space downsampling writes only the rows of
 the octave

---
 vl/scalespace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 5cef333..d6d3a63 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -510,7 +510,7 @@ copy_and_downsample
   if (numOctaves == 0) {
     memcpy(destination, source, sizeof(float) * width * height) ;
   } else {
-    for(y = 0 ; y < (signed)height ; y += step) {
+    for(y = 0 ; y < (signed)height - ((signed)step - 1) ; y += step) {
       float const *p = source + y * width ;
       for(x = 0 ; x < (signed)width - ((signed)step - 1) ; x += step) {
         *destination++ = *p ;
-- 
2.43.0


From e2ac9fc8847449678ee3c21c081ff7f40fccef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 037/164] fix: scale spaces whose last octave is negative

---
 vl/scalespace.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index d6d3a63..52d5f40 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -716,14 +716,26 @@ _vl_scalespace_start_octave_from_image (VlScaleSpace *self,
    * downscaling as needed.
    */
 
-  level = vl_scalespace_get_level(self, VL_MAX(0, o), self->geom.octaveFirstSubdivision) ;
-  copy_and_downsample(level, image, self->geom.width, self->geom.height, VL_MAX(0, o)) ;
-
-  for (op = -1 ; op >= o ; --op) {
-    VlScaleSpaceOctaveGeometry ogeom = vl_scalespace_get_octave_geometry(self, op + 1) ;
-    float *succLevel = vl_scalespace_get_level(self, op + 1, self->geom.octaveFirstSubdivision) ;
-    level = vl_scalespace_get_level(self, op, self->geom.octaveFirstSubdivision) ;
-    copy_and_upsample(level, succLevel, ogeom.width, ogeom.height) ;
+  if (o >= 0) {
+    level = vl_scalespace_get_level(self, o, self->geom.octaveFirstSubdivision) ;
+    copy_and_downsample(level, image, self->geom.width, self->geom.height, o) ;
+  } else {
+    float const *succLevel = image ;
+    float *buffer = NULL ; /* octaves past the last one are not stored */
+    for (op = -1 ; op >= o ; --op) {
+      VlScaleSpaceOctaveGeometry ogeom = vl_scalespace_get_octave_geometry(self, op + 1) ;
+      float *previousBuffer = buffer ;
+      if (op <= self->geom.lastOctave) {
+        buffer = NULL ;
+        level = vl_scalespace_get_level(self, op, self->geom.octaveFirstSubdivision) ;
+      } else {
+        buffer = vl_malloc(4 * ogeom.width * ogeom.height * sizeof(float)) ;
+        level = buffer ;
+      }
+      copy_and_upsample(level, succLevel, ogeom.width, ogeom.height) ;
+      if (previousBuffer) vl_free(previousBuffer) ;
+      succLevel = level ;
+    }
   }
 
   /*
-- 
2.43.0


From d637555028b4bd80477e466371ab9d0e15403cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:22 +0000
Subject: [PATCH 038/164] fix: dense SIFT on images one pixel wide or high

---
 vl/dsift.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 4819a1f..4b5bf0d 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -685,7 +685,9 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       int bint ;
 
       /* y derivative */
-      if (y == 0) {
+      if (self->imHeight == 1) {
+        gy = 0 ;
+      } else if (y == 0) {
         gy = at(x,y+1) - at(x,y) ;
       } else if (y == self->imHeight - 1) {
         gy = at(x,y) - at(x,y-1) ;
@@ -694,7 +696,9 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       }
 
       /* x derivative */
-      if (x == 0) {
+      if (self->imWidth == 1) {
+        gx = 0 ;
+      } else if (x == 0) {
         gx = at(x+1,y) - at(x,y) ;
       } else if (x == self->imWidth - 1) {
         gx = at(x,y) - at(x-1,y) ;
-- 
2.43.0


From 73dcde8be983e20c207fabd15812eb21053781ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:22 +0000
Subject: [PATCH 039/164] fix: dense SIFT with a single orientation bin

---
 vl/dsift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 4b5bf0d..0a083d5 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -716,8 +716,8 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       rbint = nt - bint ;
 
       /* write it back */
-      self->grads [(bint    ) % self->geom.numBinT][x + y * self->imWidth] = (1 - rbint) * mod ;
-      self->grads [(bint + 1) % self->geom.numBinT][x + y * self->imWidth] = (    rbint) * mod ;
+      self->grads [(bint    ) % self->geom.numBinT][x + y * self->imWidth] += (1 - rbint) * mod ;
+      self->grads [(bint + 1) % self->geom.numBinT][x + y * self->imWidth] += (    rbint) * mod ;
     }
   }
 
-- 
2.43.0


From 5eaa330d16bb6642df4e5aeef2b49e4aac324e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:10 +0000
Subject: [PATCH 040/164] fix: normalisation of weak dense SIFT descriptors

---
 vl/dsift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 0a083d5..8dbf777 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -302,7 +302,7 @@ _vl_dsift_normalize_histogram (float * begin, float * end)
   for (iter = begin ; iter < end ; ++ iter) {
     norm += (*iter) * (*iter) ;
   }
-  norm = vl_fast_sqrt_f (norm) + VL_EPSILON_F ;
+  norm = sqrtf (norm) + VL_EPSILON_F ;
 
   for (iter = begin; iter < end ; ++ iter) {
     *iter /= norm ;
-- 
2.43.0


From fbf5a1b184ef9fc24a33d86299d135b0815f12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:10 +0000
Subject: [PATCH 041/164] fix: normalisation of weak SIFT descriptors

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index 7d7ab3a..49f4f71 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1710,7 +1710,7 @@ normalize_histogram
   for (iter = begin ; iter != end ; ++ iter)
     norm += (*iter) * (*iter) ;
 
-  norm = vl_fast_sqrt_f (norm) + VL_EPSILON_F ;
+  norm = sqrtf (norm) + VL_EPSILON_F ;
 
   for (iter = begin; iter != end ; ++ iter)
     *iter /= norm ;
-- 
2.43.0


From 8c3a6b9e6fa61f9b14edafe16f2de343a5569324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:22 +0000
Subject: [PATCH 042/164] fix: bilinear orientation weights of polar fields in
 HOG

---
 vl/hog.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/vl/hog.c b/vl/hog.c
index 0a14875..34a2da0 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -818,8 +818,6 @@ void vl_hog_put_polar_field (VlHog * self,
 
         wx1 *= orientationWeights[o] ;
         wx2 *= orientationWeights[o] ;
-        wy1 *= orientationWeights[o] ;
-        wy2 *= orientationWeights[o] ;
 
         /*VL_PRINTF("%d %d - %d %d %f %f - %f %f %f %f - %d \n ",x,y,binx,biny,hx,hy,wx1,wx2,wy1,wy2,o);*/
 
-- 
2.43.0


From 7777daf0196e6cfec48a78a25361fde41eb71fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:22 +0000
Subject: [PATCH 043/164] fix: extracting HOG features twice

---
 vl/hog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hog.c b/vl/hog.c
index 34a2da0..e50536c 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -865,6 +865,7 @@ vl_hog_extract (VlHog * self, float * features)
    cell histogram. The unoriented version is obtained by folding
    the 2*numOrientations compotnent into numOrientations only.
    */
+  memset(self->hogNorm, 0, sizeof(float) * self->hogWidth * self->hogHeight) ;
   {
     float const * iter = self->hog ;
     for (k = 0 ; k < self->numOrientations ; ++k) {
-- 
2.43.0


From 013f6bbf56cfda80492408917ba27b72dcda5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 044/164] fix: MSER region seeds depending on uninitialised
 memory

---
 vl/mser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/mser.c b/vl/mser.c
index 4c55db2..c030802 100644
--- a/vl/mser.c
+++ b/vl/mser.c
@@ -555,8 +555,8 @@ vl_mser_process (VlMserFilt* f, vl_mser_pix const* im)
 
         vl_mser_pix nr_val = 0 ;
         vl_uint     nr_idx = 0 ;
-        int         hgt   = r [ r_idx] .height ;
-        int         n_hgt = r [nr_idx] .height ;
+        int         hgt ;
+        int         n_hgt ;
 
         /*
           Now we join the two subtrees rooted at
@@ -570,6 +570,8 @@ vl_mser_process (VlMserFilt* f, vl_mser_pix const* im)
 
          r_idx = climb(r,   idx) ;
         nr_idx = climb(r, n_idx) ;
+        hgt    = r [ r_idx] .height ;
+        n_hgt  = r [nr_idx] .height ;
 
         /*
           At this point we have three possibilities:
-- 
2.43.0


From 8be10121c23a32ab6aa771d8684bdc9bc8113926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 045/164] fix: density when processing again with the same
 quick shift object

---
 vl/quickshift.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index 802dbf2..c9e713d 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -277,6 +277,9 @@ void vl_quickshift_process(VlQS * q)
     n = (vl_qs_type *) vl_calloc(N1*N2,   sizeof(vl_qs_type)) ;
   }
 
+  /* clear the density left by a previous call */
+  memset (E, 0, sizeof(vl_qs_type) * N1 * N2) ;
+
   R = (int) ceil (3 * sigma) ;
   tR = (int) ceil (tau) ;
 
-- 
2.43.0


From d9a098de8f89d50e35e64d4ac90fa88b5ebe69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:34 +0000
Subject: [PATCH 046/164] fix: medoid shift when every candidate scores below
 zero

---
 vl/quickshift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index c9e713d..cc70b36 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -366,7 +366,7 @@ void vl_quickshift_process(VlQS * q)
     for (i2 = 0 ; i2 < N2 ; ++i2) {
       for (i1 = 0 ; i1 < N1 ; ++i1) {
 
-        vl_qs_type sc_best = 0  ;
+        vl_qs_type sc_best = - VL_QS_INF ;
         /* j1/j2 best are the best indicies for each i */
         vl_qs_type j1_best = i1 ;
         vl_qs_type j2_best = i2 ;
-- 
2.43.0


From 20421cb9d97fc5456dba9b11770d6a4564958190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:50 +0000
Subject: [PATCH 047/164] fix: homogeneous kernel map of arguments between
 2^-20 and 2^-19

---
 vl/homkermap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index d7e4e9c..702c176 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -544,7 +544,7 @@ VL_XCAT(vl_homogeneouskernelmap_evaluate_,SFX)
   exponent -- ;
 
   if (mantissa == 0 ||
-      exponent <= self->minExponent ||
+      exponent < self->minExponent ||
       exponent >= self->maxExponent) {
     for (j = 0 ; j < 2*self->order+1 ; ++j) {
       *destination = (T) 0.0 ;
-- 
2.43.0


From 02bc281ebda375eeebc8f4644882f4ce1e1c0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:50 +0000
Subject: [PATCH 048/164] fix: absolute loss coordinate update of a null vector
 fitted exactly

---
 vl/svm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 49af2eb..1007092 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1716,7 +1716,10 @@ vl_svm_l1_conjugate_loss (double u, double label) {
 double
 vl_svm_l1_dca_update (double alpha, double inner, double norm2, double label) {
   if (vl_abs_d(alpha) <= 1) {
-    double palpha = (label - inner) / norm2 + alpha ;
+    double residual = label - inner ;
+    double palpha ;
+    if (residual == 0) return 0 ; /* already optimal (norm2 may be zero) */
+    palpha = residual / norm2 + alpha ;
     return VL_MAX(-1.0, VL_MIN(1.0, palpha)) - alpha ;
   } else {
     return VL_INFINITY_D ;
-- 
2.43.0


From 205295facee6ab41a597077ff5cf3a33fe012064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:41 +0000
Subject: [PATCH 049/164] fix: SVM scores of data points with zero weight

---
 vl/svm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 1007092..e07530c 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1886,10 +1886,10 @@ void _vl_svm_update_statistics (VlSvm *self)
 
   for (k = 0; k < self->numData ; k++) {
     p = (self->weights) ? self->weights[k] : 1.0 ;
-    if (p <= 0) continue ;
     inner = self->innerProductFn(self->data, k, self->model) ;
     inner += self->bias * self->biasMultiplier ;
     self->scores[k] = inner ;
+    if (p <= 0) continue ;
     self->statistics.loss += p * self->lossFn(inner, self->labels[k]) ;
     if (self->solver == VlSvmSolverSdca) {
 
-- 
2.43.0


From d4b0b8c7c9908eac04a963b8fecc94b0d01d8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 050/164] fix: SVM dual variables leaving the feasible set by
 rounding with weights

---
 vl/svm.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vl/svm.c b/vl/svm.c
index e07530c..0269b8c 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1936,7 +1936,7 @@ void _vl_svm_sdca_train (VlSvm *self)
   double * norm2 ;
   vl_index * permutation ;
   vl_uindex i, t  ;
-  double inner, delta, multiplier, p ;
+  double inner, alpha = 0, delta, multiplier, p ;
 
   double startTime = vl_get_cpu_time () ;
   VlRand * rand = vl_get_rand() ;
@@ -1972,15 +1972,17 @@ void _vl_svm_sdca_train (VlSvm *self)
     if (p > 0) {
       inner = self->innerProductFn(self->data, i, self->model) ;
       inner += self->bias * self->biasMultiplier ;
-      delta = p * self->dcaUpdateFn(self->alpha[i] / p, inner, p * norm2[i], self->labels[i]) ;
+      alpha = self->alpha[i] / p ;
+      delta = self->dcaUpdateFn(alpha, inner, p * norm2[i], self->labels[i]) ;
     } else {
       delta = 0 ;
     }
 
     /* apply update */
     if (delta != 0) {
-      self->alpha[i] += delta ;
-      multiplier = delta / (self->numData * self->lambda) ;
+      /* scaling by the weight last keeps alpha / p in the feasible set exactly */
+      self->alpha[i] = p * (alpha + delta) ;
+      multiplier = p * delta / (self->numData * self->lambda) ;
       self->accumulateFn(self->data,i,self->model,multiplier) ;
       self->bias += self->biasMultiplier * multiplier;
     }
-- 
2.43.0


From 5e20f45f7bf7d6fa8df636c55c92dc2c9c74cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 051/164] fix: SVM scores leaked on deletion

---
 vl/svm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vl/svm.c b/vl/svm.c
index 0269b8c..1d25c9b 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1085,6 +1085,7 @@ err_alloc:
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  vl_free (self) ;
   return 0 ;
 }
 
@@ -1104,6 +1105,10 @@ vl_svm_delete (VlSvm * self)
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  if (self->scores) {
+    vl_free (self->scores) ;
+    self->scores = 0 ;
+  }
   if (self->ownDataset) {
     vl_svmdataset_delete(self->ownDataset) ;
     self->ownDataset = 0 ;
-- 
2.43.0


From da1db8bccc01c39377b30ae4c744a4c02d6f7f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:10 +0000
Subject: [PATCH 052/164] fix: SVM iteration number ignored by SGD warm starts

---
 vl/svm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 1d25c9b..fae5407 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -2090,7 +2090,7 @@ void _vl_svm_sgd_train (VlSvm *self)
     scores[i] = inner ;
 
     /* apply update */
-    rate = 1.0 /  (self->lambda * (t + t0)) ;
+    rate = 1.0 / (self->lambda * (t + t0 + self->iteration)) ;
     biasRate = rate * self->biasLearningRate ;
     factor *= (1.0 - self->lambda * rate) ;
     biasFactor *= (1.0 - self->lambda * biasRate) ;
-- 
2.43.0


From 5c2d286feea94745b8d896c32d133d1b0ee13980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 053/164] fix: vl_covdet_reset left the number of features and
 the buffer size behind

---
 vl/covdet.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index d3cfa96..924aeed 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1623,6 +1623,9 @@ vl_covdet_reset (VlCovDet * self)
     vl_free(self->features) ;
     self->features = NULL ;
   }
+  self->numFeatures = 0 ;
+  self->numFeatureBufferSize = 0 ;
+  self->numNonExtremaSuppressed = 0 ;
   if (self->css) {
     vl_scalespace_delete(self->css) ;
     self->css = NULL ;
-- 
2.43.0


From 05e1bf433c801c2c22a0a0899f183a24adda0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 054/164] fix: covdet number of octaves counted from the wrong
 end

---
 vl/covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 924aeed..e17aed7 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1711,7 +1711,7 @@ vl_covdet_put_image (VlCovDet * self,
   /* (minOctaveSize - 1) 2^lastOctave <= min(width,height) - 1 */
   lastOctave = vl_floor_d(vl_log2_d(VL_MIN((double)width-1,(double)height-1) / (minOctaveSize - 1))) ;
   if (self->numOctaves > 0) {
-      lastOctave = VL_MIN((vl_index)self->numOctaves - self->firstOctave - 1, lastOctave);
+      lastOctave = VL_MIN(self->firstOctave + self->numOctaves - 1, lastOctave);
   }
 
   if (self->method == VL_COVDET_METHOD_DOG) {
-- 
2.43.0


From 326b344bb1ffaf98e0791edd9bee993a95e8773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 055/164] fix: multiscale and Laplace covariant detectors
 skipped the last level of each octave

---
 vl/covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index e17aed7..02edb58 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2060,7 +2060,7 @@ vl_covdet_detect (VlCovDet * self)
 
         default:
         {
-          for (s = cgeom.octaveFirstSubdivision ; s < cgeom.octaveLastSubdivision ; ++s) {
+          for (s = cgeom.octaveFirstSubdivision ; s <= cgeom.octaveLastSubdivision ; ++s) {
             /* space extrema */
             float const * level = vl_scalespace_get_level(self->css,o,s) ;
             numExtrema = vl_find_local_extrema_2(&extrema, &extremaBufferSize,
-- 
2.43.0


From ff2dd9fd4892d37da595f427cc138bb239d0e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 056/164] fix: covdet crashed on small images

---
 vl/covdet.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 02edb58..b7a4fe8 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1709,10 +1709,12 @@ vl_covdet_put_image (VlCovDet * self,
   assert (height >= 1) ;
 
   /* (minOctaveSize - 1) 2^lastOctave <= min(width,height) - 1 */
-  lastOctave = vl_floor_d(vl_log2_d(VL_MIN((double)width-1,(double)height-1) / (minOctaveSize - 1))) ;
+  lastOctave = vl_floor_d(vl_log2_d(VL_MAX(VL_MIN((double)width-1,(double)height-1), 1.0) / (minOctaveSize - 1))) ;
   if (self->numOctaves > 0) {
       lastOctave = VL_MIN(self->firstOctave + self->numOctaves - 1, lastOctave);
   }
+  /* small images have at least the first octave */
+  lastOctave = VL_MAX(self->firstOctave, lastOctave) ;
 
   if (self->method == VL_COVDET_METHOD_DOG) {
     octaveFirstSubdivision = -1 ;
@@ -1778,6 +1780,12 @@ _vl_det_hessian_response (float * hessian,
   /* setup output pointer to be centered at 1,1 */
   float *out = hessian + xo + yo;
 
+  /* there are no second derivatives in images this small */
+  if (width < 3 || height < 3) {
+    memset(hessian, 0, sizeof(float) * width * height) ;
+    return ;
+  }
+
   /* move 3x3 window and convolve */
   for (r = 1; r < height - 1; ++r)
   {
-- 
2.43.0


From 594b1a8f5ffc7a5f92b199a2e6b6e19a6d315df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 057/164] fix: padding of covariant frames crossing or outside
 the image

---
 vl/covdet.c | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index b7a4fe8..06f32dd 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2327,12 +2327,6 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
      
       vl_index xi, yi ;
 
-      /* compute the amount of l,r,t,b padding needed to complete the patch */
-      vl_index padx0 = VL_MAX(0, - x0i) ;
-      vl_index pady0 = VL_MAX(0, - y0i) ;
-      vl_index padx1 = VL_MAX(0, x1i - ((signed)width - 1)) ;
-      vl_index pady1 = VL_MAX(0, y1i - ((signed)height - 1)) ;
-
       /* make enough room for the patch */
       vl_index patchWidth = x1i - x0i + 1 ;
       vl_index patchHeight = y1i - y0i + 1 ;
@@ -2342,29 +2336,13 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
         if (err) return vl_set_last_error(VL_ERR_ALLOC, "Unable to allocate data.") ;
       }
 
-      if (pady0 < patchHeight - pady1) {
-        /* start by filling the central horizontal band */
-        for (yi = y0i + pady0 ; yi < y0i + patchHeight - pady1 ; ++ yi) {
-          float *dst = self->patch + (yi - y0i) * patchWidth ;
-          float const *src = level + yi * width + VL_MIN(VL_MAX(0, x0i),(signed)width-1) ;
-          for (xi = x0i ; xi < x0i + padx0 ; ++xi) *dst++ = *src ;
-          for ( ; xi < x0i + patchWidth - padx1 - 2 ; ++xi) *dst++ = *src++ ;
-          for ( ; xi < x0i + patchWidth ; ++xi) *dst++ = *src ;
-        }
-        /* now extend the central band up and down */
-        for (yi = 0 ; yi < pady0 ; ++yi) {
-          memcpy(self->patch + yi * patchWidth,
-                 self->patch + pady0 * patchWidth,
-                 patchWidth * sizeof(float)) ;
+      for (yi = y0i ; yi <= y1i ; ++ yi) {
+        float *dst = self->patch + (yi - y0i) * patchWidth ;
+        float const *src = level +
+          VL_MIN(VL_MAX(0, yi), (signed)height - 1) * (signed)width ;
+        for (xi = x0i ; xi <= x1i ; ++xi) {
+          *dst++ = src [VL_MIN(VL_MAX(0, xi), (signed)width - 1)] ;
         }
-        for (yi = patchHeight - pady1 ; yi < patchHeight ; ++yi) {
-          memcpy(self->patch + yi * patchWidth,
-                 self->patch + (patchHeight - pady1 - 1) * patchWidth,
-                 patchWidth * sizeof(float)) ;
-        }
-      } else {
-        /* should be handled better! */
-        memset(self->patch, 0, self->patchBufferSize) ;
       }
 #if 0
       {
-- 
2.43.0


From 38680f10e2ad019421305642f97ee18b710a11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 058/164] fix: affine adaptation of one-dimensional structures
 divided by zero

---
 vl/covdet.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index 06f32dd..2f39535 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2570,6 +2570,12 @@ vl_covdet_extract_affine_shape_for_frame (VlCovDet * self,
     /* decompose M = P * Q * P' */
     vl_svd2 (Q, P, P_, M) ;
 
+    /* structure along one direction only */
+    if (!(Q[0] > 0 && Q[3] > 0)) {
+      *adapted = frame ;
+      break ;
+    }
+
     /*
      Setting A <- A * dA results in M to change approximatively as
 
-- 
2.43.0


From 1616a335adcae1cd90c858105cf3f3aa92fd7eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 059/164] fix: covdet kept the first orientations instead of
 the best ones

---
 vl/covdet.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 2f39535..8638b6f 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2728,6 +2728,8 @@ vl_covdet_extract_orientations_for_frame (VlCovDet * self,
   double sigma1, sigma2 ;
   double sigmaD = 1.0 ;
   double theta0 ;
+  VlCovDetFeatureOrientation peaks [VL_COVDET_OR_NUM_ORIENTATION_HISTOGAM_BINS] ;
+  vl_size numPeaks = 0 ;
 
   assert(self);
   assert(numOrientations) ;
@@ -2820,7 +2822,6 @@ vl_covdet_extract_orientations_for_frame (VlCovDet * self,
   }
 
   /* find peaks within 80% from max */
-  *numOrientations = 0 ;
   for(i = 0 ; i < (signed)numBins ; ++i) {
     double h0 = hist [i] ;
     double hm = hist [(i - 1 + numBins) % numBins] ;
@@ -2835,21 +2836,23 @@ vl_covdet_extract_orientations_for_frame (VlCovDet * self,
         /* the axis to the right is y, measure orientations from this */
         th = th - VL_PI/2 ;
       }
-      self->orientations[*numOrientations].angle = th ;
-      self->orientations[*numOrientations].score = h0 ;
-      *numOrientations += 1 ;
-      //VL_PRINTF("%d %g\n", *numOrientations, th) ;
-
-      if (*numOrientations >= self->maxNumOrientations) break ;
+      peaks[numPeaks].angle = th ;
+      peaks[numPeaks].score = h0 ;
+      numPeaks += 1 ;
     }
   }
 
-  /* sort the orientations by decreasing scores */
-  qsort(self->orientations,
-        *numOrientations,
+  /* sort the orientations by decreasing scores and keep the best ones */
+  qsort(peaks,
+        numPeaks,
         sizeof(VlCovDetFeatureOrientation),
         _vl_covdet_compare_orientations_descending) ;
 
+  *numOrientations = VL_MIN(numPeaks, self->maxNumOrientations) ;
+  *numOrientations = VL_MIN(*numOrientations, VL_COVDET_MAX_NUM_ORIENTATIONS) ;
+  memcpy(self->orientations, peaks,
+         sizeof(VlCovDetFeatureOrientation) * *numOrientations) ;
+
   return self->orientations ;
 }
 
-- 
2.43.0


From 9c9bfeadb4da741998cda6fcd7d73c4099b38790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 060/164] fix: symmetric saddles passed the edge test of the
 covariant detector

---
 vl/covdet.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 8638b6f..8b78a9f 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1285,10 +1285,11 @@ vl_refine_local_extreum_3 (VlCovDetExtremum3 * refined,
   {
     double peakScore = at(0,0,0)
     + 0.5 * (Dx * b[0] + Dy * b[1] + Dz * b[2]) ;
-    double alpha = (Dxx+Dyy)*(Dxx+Dyy) / (Dxx*Dyy - Dxy*Dxy) ;
+    double det = Dxx*Dyy - Dxy*Dxy ;
+    double alpha = (Dxx+Dyy)*(Dxx+Dyy) / det ;
     double edgeScore ;
 
-    if (alpha < 0) {
+    if (det <= 0) {
       /* not an extremum */
       edgeScore = VL_INFINITY_D ;
     } else {
@@ -1397,10 +1398,11 @@ vl_refine_local_extreum_2 (VlCovDetExtremum2 * refined,
   /* check threshold and other conditions */
   {
     double peakScore = at(0,0) + 0.5 * (Dx * b[0] + Dy * b[1]) ;
-    double alpha = (Dxx+Dyy)*(Dxx+Dyy) / (Dxx*Dyy - Dxy*Dxy) ;
+    double det = Dxx*Dyy - Dxy*Dxy ;
+    double alpha = (Dxx+Dyy)*(Dxx+Dyy) / det ;
     double edgeScore ;
 
-    if (alpha < 0) {
+    if (det <= 0) {
       /* not an extremum */
       edgeScore = VL_INFINITY_D ;
     } else {
-- 
2.43.0


From febaf6322cf200be589526638c3a6fb224744de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 061/164] fix: stale number of suppressed features

---
 vl/covdet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index 8b78a9f..11ceaed 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1959,6 +1959,7 @@ vl_covdet_detect (VlCovDet * self)
 
   /* clear previous detections if any */
   self->numFeatures = 0 ;
+  self->numNonExtremaSuppressed = 0 ;
 
   /* prepare buffers ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ */
   cgeom = geom ;
-- 
2.43.0


From ceb913dcdb325e8c0789bcbfb37638abb378544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 062/164] fix: covariant patches of reflected frames used
 negative scales

---
 vl/covdet.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 11ceaed..7ba303f 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2239,6 +2239,9 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
    Given the range of octave availables, do the best you can.
    */
 
+  /* the singular values of a reflected frame have opposite signs */
+  d1 = vl_abs_d(d1) ;
+  d2 = vl_abs_d(d2) ;
   factor = 1.0 / VL_MIN(d1, d2) ;
 
   for (o = geom.firstOctave + 1 ; o <= geom.lastOctave ; ++o) {
@@ -2498,7 +2501,8 @@ vl_covdet_extract_affine_shape_for_frame (VlCovDet * self,
 
     /* A = U D V' */
     vl_svd2(D, U, V, A) ;
-    anisotropy = VL_MAX(D[0]/D[3], D[3]/D[0]) ;
+    anisotropy = vl_abs_d(D[0]/D[3]) ;
+    anisotropy = VL_MAX(anisotropy, 1.0 / anisotropy) ;
 
     /* VL_PRINTF("anisot: %g\n", anisotropy); */
 
@@ -2510,10 +2514,10 @@ vl_covdet_extract_affine_shape_for_frame (VlCovDet * self,
     /* make sure that the smallest singluar value stays fixed
        after the first iteration */
     if (iter == 0) {
-      referenceScale = VL_MIN(D[0], D[3]) ;
+      referenceScale = VL_MIN(vl_abs_d(D[0]), vl_abs_d(D[3])) ;
       factor = 1.0 ;
     } else {
-      factor = referenceScale / VL_MIN(D[0],D[3]) ;
+      factor = referenceScale / VL_MIN(vl_abs_d(D[0]), vl_abs_d(D[3])) ;
     }
 
     D[0] *= factor ;
-- 
2.43.0


From 925eb61bb2bec572a8124467247d08dffc5d4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:09 +0000
Subject: [PATCH 063/164] fix: k-means quantization bypassed the configured
 allocator

---
 vl/kmeans.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 2632b55..5184c73 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -678,7 +678,7 @@ VL_XCAT(_vl_kmeans_quantize_, SFX)
 #endif
   {
     /* vl_malloc cannot be used here if mapped to MATLAB malloc */
-    TYPE * distanceToCenters = malloc(sizeof(TYPE) * self->numCenters) ;
+    TYPE * distanceToCenters = vl_malloc(sizeof(TYPE) * self->numCenters) ;
 
 #ifdef _OPENMP
 #pragma omp for
@@ -700,7 +700,7 @@ VL_XCAT(_vl_kmeans_quantize_, SFX)
       if (distances) distances[i] = bestDistance ;
     }
 
-    free(distanceToCenters) ;
+    vl_free(distanceToCenters) ;
   }
 }
 
-- 
2.43.0


From 2c9ff0a64d296b54960ad496683347aa6af9e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:09 +0000
Subject: [PATCH 064/164] fix: vl_hikm_train leaked the tree of a previous
 training

---
 vl/hikmeans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index b7b09f8..85be653 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -237,6 +237,7 @@ vl_hikm_init (VlHIKMTree *f, vl_size M, vl_size K, vl_size depth)
 void
 vl_hikm_train (VlHIKMTree *f, vl_uint8 const *data, vl_size N)
 {
+  xdelete (f->root) ; /* tree of a previous training */
   f->root= xmeans (f, data, N, VL_MIN(f->K, N), f->depth) ;
 }
 
-- 
2.43.0


From f438701b0135221751b394d186e07dd9be4399ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:09 +0000
Subject: [PATCH 065/164] fix: vl_kdforest_build leaked previous trees and left
 searchers undersized

---
 vl/kdtree.c | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index f16c999..cff4956 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -452,21 +452,14 @@ vl_kdforest_get_searcher (VlKDForest const * self, vl_uindex pos)
 }
 
 /** ------------------------------------------------------------------
- ** @brief Delete KDForest object
- ** @param self KDForest object to delete
- ** @sa ::vl_kdforest_new
+ ** @internal @brief Delete the trees of a KDForest object
+ ** @param self KDForest object.
  **/
 
-void
-vl_kdforest_delete (VlKDForest * self)
+static void
+vl_kdforest_delete_trees (VlKDForest * self)
 {
   vl_uindex ti ;
-  VlKDForestSearcher * searcher ;
-
-  while ((searcher = vl_kdforest_get_searcher(self, 0))) {
-    vl_kdforestsearcher_delete(searcher) ;
-  }
-
   if (self->trees) {
     for (ti = 0 ; ti < self->numTrees ; ++ ti) {
       if (self->trees[ti]) {
@@ -476,7 +469,26 @@ vl_kdforest_delete (VlKDForest * self)
       }
     }
     vl_free (self->trees) ;
+    self->trees = NULL ;
   }
+}
+
+/** ------------------------------------------------------------------
+ ** @brief Delete KDForest object
+ ** @param self KDForest object to delete
+ ** @sa ::vl_kdforest_new
+ **/
+
+void
+vl_kdforest_delete (VlKDForest * self)
+{
+  VlKDForestSearcher * searcher ;
+
+  while ((searcher = vl_kdforest_get_searcher(self, 0))) {
+    vl_kdforestsearcher_delete(searcher) ;
+  }
+
+  vl_kdforest_delete_trees (self) ;
   vl_free (self) ;
 }
 
@@ -532,13 +544,14 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
   vl_uindex di, ti ;
   vl_size maxNumNodes ;
   double * searchBounds;
+  VlKDForestSearcher * searcher ;
 
   assert(data) ;
   assert(numData >= 1) ;
 
-  /* need to check: if alredy built, clean first */
   self->data = data ;
   self->numData = numData ;
+  vl_kdforest_delete_trees (self) ;
   self->trees = vl_malloc (sizeof(VlKDTree*) * self->numTrees) ;
   maxNumNodes = 0 ;
 
@@ -574,6 +587,15 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
 
   vl_free(searchBounds);
   self -> maxNumNodes = maxNumNodes;
+
+  /* searchers created for a previous dataset must fit the new one */
+  for (searcher = self->headSearcher ; searcher ; searcher = searcher->next) {
+    vl_free(searcher->searchHeapArray) ;
+    vl_free(searcher->searchIdBook) ;
+    searcher->searchHeapArray = vl_malloc (sizeof(VlKDForestSearchState) * self->maxNumNodes) ;
+    searcher->searchIdBook = vl_calloc (sizeof(vl_uindex), self->numData) ;
+    searcher->searchId = 0 ;
+  }
 }
 
 
-- 
2.43.0


From 0519ce5d00932093960fea9dcf1f7761333e95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:09 +0000
Subject: [PATCH 066/164] fix: no SIFT descriptor was computed on the last
 image row

---
 vl/sift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index 49f4f71..70711c1 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1788,7 +1788,7 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
   if(xi    <  0               ||
      xi    >= w               ||
      yi    <  0               ||
-     yi    >= h -    1        )
+     yi    >= h               )
     return ;
 
   /* clear descriptor */
@@ -1978,7 +1978,7 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
      xi    <  0               ||
      xi    >= w               ||
      yi    <  0               ||
-     yi    >= h -    1        ||
+     yi    >= h               ||
      si    <  f->s_min + 1    ||
      si    >  f->s_max - 2     )
     return ;
-- 
2.43.0


From 66e241a5016bf3976e698dda86114dca0c92c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:35 +0000
Subject: [PATCH 067/164] fix: sift program went on with an uninitialised image
 after a malformed PGM header

---
 src/sift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 1de8f33..cff01e3 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -474,9 +474,9 @@ main(int argc, char **argv)
         snprintf(err_msg, sizeof(err_msg),
                  "Cannot read from '%s'.", name) ;
         err = VL_ERR_IO ;
-        break ;
+        goto done ;
 
-      case VL_ERR_PGM_INV_HEAD :
+      default :
         snprintf(err_msg, sizeof(err_msg),
                  "'%s' contains a malformed PGM header.", name) ;
         err = VL_ERR_IO ;
-- 
2.43.0


From bab4a4ab87cc4909ddaf26668a28c508e9b92794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:35 +0000
Subject: [PATCH 068/164] fix: sift and mser programs read 16-bit images as
 8-bit ones

---
 src/mser.c | 7 +++++++
 src/sift.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/mser.c b/src/mser.c
index 61cf75f..c56b9d6 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -359,6 +359,13 @@ main(int argc, char **argv)
              pim. height) ;
     }
 
+    if (vl_pgm_get_bpp (&pim) != 1) {
+      err = VL_ERR_IO ;
+      snprintf(err_msg, sizeof(err_msg),
+               "'%s' has more than 8 bits per pixel.", name) ;
+      goto done ;
+    }
+
     /* allocate buffer */
     data = malloc(vl_pgm_get_npixels (&pim) *
                   vl_pgm_get_bpp       (&pim)) ;
diff --git a/src/sift.c b/src/sift.c
index cff01e3..1cdfc6c 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -489,6 +489,13 @@ main(int argc, char **argv)
               pim. width,
               pim. height) ;
 
+    if (vl_pgm_get_bpp (&pim) != 1) {
+      err = VL_ERR_IO ;
+      snprintf(err_msg, sizeof(err_msg),
+               "'%s' has more than 8 bits per pixel.", name) ;
+      goto done ;
+    }
+
     /* allocate buffer */
     data  = malloc(vl_pgm_get_npixels (&pim) *
                    vl_pgm_get_bpp       (&pim) * sizeof (vl_uint8)   ) ;
-- 
2.43.0


From e854d7edf264ec24ca70ade98bda8e160f0f32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:35 +0000
Subject: [PATCH 069/164] fix: binary frame files were always reported as
 malformed

---
 src/generic-driver.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 2d74a44..e157b96 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -250,8 +250,9 @@ vl_file_meta_get_double (VlFileMeta *self, double *x)
     break ;
 
   case VL_PROT_BINARY :
-    n = fread (&y, sizeof(double), 1, self -> file) ;
-    if (n < 1) return VL_ERR_BAD_ARG ;
+    n = fread (&y, 1, sizeof(double), self -> file) ;
+    if (n == 0 && feof (self -> file)) return VL_ERR_EOF ;
+    if (n < sizeof(double)) return VL_ERR_BAD_ARG ;
     vl_swap_host_big_endianness_8 (x, &y) ;
     break ;
 
-- 
2.43.0


From 1938239a5db3482b81897cccc42bb50e4cba7732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 070/164] fix: sift program dropped an incomplete last frame
 without notice

---
 src/sift.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 1cdfc6c..8882e76 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -561,9 +561,7 @@ main(int argc, char **argv)
         else QERR ;
         err = vl_file_meta_get_double (&ifr, &y ) ; QERR ;
         err = vl_file_meta_get_double (&ifr, &s ) ; QERR ;
-        err = vl_file_meta_get_double (&ifr, &th) ;
-        if   (err == VL_ERR_EOF) break;
-        else QERR ;
+        err = vl_file_meta_get_double (&ifr, &th) ; QERR ;
 
         /* make enough space */
         if (ikeys_size < nikeys + 1) {
-- 
2.43.0


From 346252bdc0caee4fcb643d53f1bd25c99c5a09b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 071/164] fix: sift program detected keypoints when told to
 read an empty frame file

---
 src/sift.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 8882e76..6be4c91 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -579,7 +579,7 @@ main(int argc, char **argv)
       }
 
       /* now order by scale */
-      qsort (ikeys, nikeys, 4 * sizeof(double), korder) ;
+      if (nikeys) qsort (ikeys, nikeys, 4 * sizeof(double), korder) ;
 
       if (verbose) {
         printf ("sift: read %d keypoints from '%s'\n", nikeys, ifr.name) ;
@@ -637,7 +637,7 @@ main(int argc, char **argv)
       printf ("sift:   magnif                = %g\n",
               vl_sift_get_magnif       (filt)) ;
       printf ("sift: will source frames? %s\n",
-              ikeys ? "yes" : "no") ;
+              ifr.active ? "yes" : "no") ;
       printf ("sift: will force orientations? %s\n",
               force_orientations ? "yes" : "no") ;
     }
@@ -680,7 +680,7 @@ main(int argc, char **argv)
       }
 
       /* run detector ............................................. */
-      if (ikeys == 0) {
+      if (! ifr.active) {
         vl_sift_detect (filt) ;
 
         keys  = vl_sift_get_keypoints     (filt) ;
@@ -702,7 +702,7 @@ main(int argc, char **argv)
         VlSiftKeypoint const *k ;
 
         /* obtain keypoint orientations ........................... */
-        if (ikeys) {
+        if (ifr.active) {
           vl_sift_keypoint_init (filt, &ik,
                                  ikeys [4 * i + 0],
                                  ikeys [4 * i + 1],
-- 
2.43.0


From 54dd4f56d40af2cc8fa957d29c304a69bae2c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 072/164] fix: descriptor values above 255 wrapped around in
 the aggregate SIFT file

---
 src/sift.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sift.c b/src/sift.c
index 6be4c91..f5fd53a 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -745,7 +745,9 @@ main(int argc, char **argv)
             vl_file_meta_put_double (&out, k -> sigma ) ;
             vl_file_meta_put_double (&out, angles [q] ) ;
             for (l = 0 ; l < 128 ; ++l) {
-              vl_file_meta_put_uint8 (&out, (vl_uint8) (512.0 * descr [l])) ;
+              double x = 512.0 * descr[l] ;
+              x = (x < 255.0) ? x : 255.0 ;
+              vl_file_meta_put_uint8 (&out, (vl_uint8) (x)) ;
             }
             if (out.protocol == VL_PROT_ASCII) fprintf(out.file, "\n") ;
           }
-- 
2.43.0


From 0366068d61d6a67bfb13ee762c72ebd21761bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 073/164] fix: SIFT descriptor of a keypoint outside the image
 was left uninitialised

---
 vl/sift.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index 70711c1..7218ef0 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1784,6 +1784,9 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
   vl_sift_pix const *pt ;
   vl_sift_pix       *dpt ;
 
+  /* clear descriptor */
+  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
+
   /* check bounds */
   if(xi    <  0               ||
      xi    >= w               ||
@@ -1791,9 +1794,6 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
      yi    >= h               )
     return ;
 
-  /* clear descriptor */
-  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
-
   /* Center the scale space and the descriptor on the current keypoint.
    * Note that dpt is pointing to the bin of center (SBP/2,SBP/2,0).
    */
@@ -1973,6 +1973,9 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
   vl_sift_pix const *pt ;
   vl_sift_pix       *dpt ;
 
+  /* clear descriptor */
+  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
+
   /* check bounds */
   if(k->o  != f->o_cur        ||
      xi    <  0               ||
@@ -1988,9 +1991,6 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
 
   /* VL_PRINTF("W = %d ; magnif = %g ; SBP = %g\n", W,magnif,SBP) ; */
 
-  /* clear descriptor */
-  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
-
   /* Center the scale space and the descriptor on the current keypoint.
    * Note that dpt is pointing to the bin of center (SBP/2,SBP/2,0).
    */
-- 
2.43.0


From 44caa1e0d977cdc5dffcd5cd613c5c28a48ef0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 074/164] fix: SIFT gradient of an octave one pixel wide was
 computed out of bounds

---
 vl/sift.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vl/sift.c b/vl/sift.c
index 7218ef0..6d97702 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1458,6 +1458,13 @@ update_gradient (VlSiftFilt *f)
 
   if (f->grad_o == f->o_cur) return ;
 
+  /* the differences below require at least two pixels per side */
+  if (w < 2 || h < 2) {
+    memset (f->grad, 0, sizeof(vl_sift_pix) * 2 * so * (s_max - s_min - 2)) ;
+    f->grad_o = f->o_cur ;
+    return ;
+  }
+
   for (s  = s_min + 1 ;
        s <= s_max - 2 ; ++ s) {
 
-- 
2.43.0


From f530a0e3141114209577c56fd854653f8be8886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 075/164] fix: mser program accepted a delta that does not fit
 a pixel

---
 src/mser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index c56b9d6..d45f7e5 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -164,8 +164,8 @@ main(int argc, char **argv)
       /* .......................................................... */
     case 'd' :
       n = sscanf (optarg, "%lf", &delta) ;
-      if (n == 0 || delta < 0)
-        ERRF("The argument of '%s' must be a non-negative number.",
+      if (n == 0 || delta < 0 || delta > 255)
+        ERRF("The argument of '%s' must be a number in the [0,255] range.",
             argv [optind - 1]) ;
       break ;
 
-- 
2.43.0


From c60f80905765251aceedfb4e5d509bb298d7b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 076/164] fix: an empty option value was silently ignored by
 the sift and mser programs

---
 src/mser.c | 14 +++++++-------
 src/sift.c | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index d45f7e5..c5b917e 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -164,7 +164,7 @@ main(int argc, char **argv)
       /* .......................................................... */
     case 'd' :
       n = sscanf (optarg, "%lf", &delta) ;
-      if (n == 0 || delta < 0 || delta > 255)
+      if (n <= 0 || delta < 0 || delta > 255)
         ERRF("The argument of '%s' must be a number in the [0,255] range.",
             argv [optind - 1]) ;
       break ;
@@ -172,25 +172,25 @@ main(int argc, char **argv)
       /* ........................................................... */
     case opt_max_area :
       n = sscanf (optarg, "%lf", &max_area) ;
-      if (n == 0 || max_area < 0 || max_area > 1)
+      if (n <= 0 || max_area < 0 || max_area > 1)
         ERR("max-area argument must be in the [0,1] range.") ;
       break ;
 
     case opt_min_area :
       n = sscanf (optarg, "%lf", &min_area) ;
-      if (n == 0 || min_area < 0 || min_area > 1)
+      if (n <= 0 || min_area < 0 || min_area > 1)
         ERR("min-area argument must be in the [0,1] range.") ;
       break ;
 
     case opt_max_variation :
       n = sscanf (optarg, "%lf", &max_variation) ;
-      if (n == 0 || max_variation < 0)
+      if (n <= 0 || max_variation < 0)
         ERR("max-variation argument must be non-negative.") ;
       break ;
 
     case opt_min_diversity :
       n = sscanf (optarg, "%lf", &min_diversity) ;
-      if (n == 0 || min_diversity < 0 || min_diversity > 1)
+      if (n <= 0 || min_diversity < 0 || min_diversity > 1)
         ERR("min-diversity argument must be in the [0,1] range.") ;
       break ;
 
@@ -218,13 +218,13 @@ main(int argc, char **argv)
 
     case opt_bright :
       n = sscanf (optarg, "%d", &bright_on_dark) ;
-      if (n == 0 || (bright_on_dark != 0 && bright_on_dark != 1))
+      if (n <= 0 || (bright_on_dark != 0 && bright_on_dark != 1))
         ERR("bright_on_dark must be 0 or 1.") ;
       break ;
 
     case opt_dark :
       n = sscanf (optarg, "%d", &dark_on_bright) ;
-      if (n == 0 || (dark_on_bright != 0 && dark_on_bright != 1))
+      if (n <= 0 || (dark_on_bright != 0 && dark_on_bright != 1))
         ERR("dark_on_bright must be 0 or 1.") ;
       break ;
 
diff --git a/src/sift.c b/src/sift.c
index f5fd53a..1f9e4f4 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -308,7 +308,7 @@ main(int argc, char **argv)
     case 'O' :
       /* --octaves ............................................... */
       n = sscanf (optarg, "%d", &O) ;
-      if (n == 0 || O < 0)
+      if (n <= 0 || O < 0)
         ERRF("The argument of '%s' must be a non-negative integer.",
             argv [optind - 1]) ;
       break ;
@@ -316,7 +316,7 @@ main(int argc, char **argv)
     case 'S' :
       /* --levels ............................................... */
       n = sscanf (optarg, "%d", &S) ;
-      if (n == 0 || S < 0)
+      if (n <= 0 || S < 0)
         ERRF("The argument of '%s' must be a non-negative integer.",
             argv [optind - 1]) ;
       break ;
@@ -324,7 +324,7 @@ main(int argc, char **argv)
     case opt_first_octave :
       /* --first-octave ......................................... */
       n = sscanf (optarg, "%d", &omin) ;
-      if (n == 0)
+      if (n <= 0)
         ERRF("The argument of '%s' must be an integer.",
             argv [optind - 1]) ;
       break ;
@@ -334,7 +334,7 @@ main(int argc, char **argv)
     case opt_edge_thresh :
       /* --edge-thresh ........................................... */
       n = sscanf (optarg, "%lf", &edge_thresh) ;
-      if (n == 0 || edge_thresh < 1)
+      if (n <= 0 || edge_thresh < 1)
         ERRF("The argument of '%s' must be not smaller than 1.",
             argv [optind - 1]) ;
       break ;
@@ -342,7 +342,7 @@ main(int argc, char **argv)
     case opt_peak_thresh :
       /* --edge-thresh ........................................... */
       n = sscanf (optarg, "%lf", &peak_thresh) ;
-      if (n == 0 || peak_thresh < 0)
+      if (n <= 0 || peak_thresh < 0)
         ERRF("The argument of '%s' must be a non-negative float.",
             argv [optind - 1]) ;
       break ;
@@ -350,7 +350,7 @@ main(int argc, char **argv)
     case opt_magnif :
       /* --magnif  .............................................. */
       n = sscanf (optarg, "%lf", &magnif) ;
-      if (n == 0 || magnif < 1)
+      if (n <= 0 || magnif < 1)
         ERRF("The argument of '%s' must be a non-negative float.",
             argv [optind - 1]) ;
       break ;
-- 
2.43.0


From ea3f05996a0e944bd87584e0eb0c2a607c52c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:57 +0000
Subject: [PATCH 077/164] fix: vl_binsum read the values of an empty array

---
 toolbox/misc/vl_binsum.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index 4460c6d..abc3c05 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -97,7 +97,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
   B_end = B_pt + KB ;
 
-  if ((KX != KB) && (KX > 1)) {
+  if ((KX != KB) && (KX != 1)) {
     vlmxError(vlmxErrInvalidArgument,
               "VALUES and INDEXES do not have the same number of elements nor VALUES is a scalar.") ;
   }
-- 
2.43.0


From fed5a2cbedbf9894ff38eb4526deb9f06a5338f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:57 +0000
Subject: [PATCH 078/164] fix: vl_binsum along a dimension mishandled scalar
 values and mismatched dimensions

---
 toolbox/misc/vl_binsum.def | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index abc3c05..b4c5f03 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -146,6 +146,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
     __INDEX_T__ const * B_nbrk ;
 
     vl_size srd ;
+    vl_size Bd ;
 
     /* We need to check a few more details about the matrices */
     if (d >= HD) {
@@ -163,7 +164,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
      */
 
     if (HD != BD) {
-      if (! (d == HD - 1) && BD == HD - 1) {
+      if (! (d == HD - 1 && BD == HD - 1)) {
         vlmxError(vlmxErrInconsistentData,
                   "ACCUMULATOR and INDEXES do not have the same number of dimensions.") ;
       }
@@ -180,7 +181,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
     srd = 1 ;
 
-    for(k = 0 ; k < (signed) XD ; ++k) {
+    for(k = 0 ; k < (signed) BD ; ++k) {
       if (KX > 1 &&  Xdims[k] != Bdims[k]) {
         vlmxError(vlmxErrInconsistentData,
                   "VALUES and INDEXES have incompatible dimensions.") ;
@@ -232,7 +233,8 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
     KH     = Hdims[d] ;
     B_brk  = B_pt + srd ;              /* next time case (b) */
-    B_nbrk = B_pt + srd * Bdims [d] ;  /* next time case (c) */
+    Bd     = (d < BD) ? Bdims [d] : 1 ;
+    B_nbrk = B_pt + srd * Bd ;         /* next time case (c) */
 
     while (B_pt < B_end) {
 
@@ -261,7 +263,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
         B_brk += srd ;                     /* next time case (b) */
         H_pt  -= srd ;
         if (B_pt == B_nbrk) {              /* case (c) occurs */
-          B_nbrk += srd * Bdims[d] ;       /* next time case (c) */
+          B_nbrk += srd * Bd ;             /* next time case (c) */
           H_pt   += srd * Hdims[d] ;
         }
       }
-- 
2.43.0


From c635a1f347d4b470f8cb23b957fb3001a912c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:57 +0000
Subject: [PATCH 079/164] fix: vl_whistc did not skip samples with NaN weight

---
 toolbox/misc/vl_whistc.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_whistc.m b/toolbox/misc/vl_whistc.m
index c4b0ab3..6c92c3e 100644
--- a/toolbox/misc/vl_whistc.m
+++ b/toolbox/misc/vl_whistc.m
@@ -26,7 +26,7 @@ if numEdges > 0
 end
 
 % NaNs must be also removed
-binIndexes(isnan(x)) = 0 ;
+binIndexes(isnan(x) | isnan(w)) = 0 ;
 
 % find operating dimension
 dimensions = size(x) ;
-- 
2.43.0


From 0e62d724fd8cc261036084ef9486235209d21276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:57 +0000
Subject: [PATCH 080/164] fix: vl_histmarg scrambled the histogram if dims are
 not increasing

---
 toolbox/misc/vl_histmarg.m | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/misc/vl_histmarg.m b/toolbox/misc/vl_histmarg.m
index 3ee5d96..0b14962 100644
--- a/toolbox/misc/vl_histmarg.m
+++ b/toolbox/misc/vl_histmarg.m
@@ -25,6 +25,9 @@ for d=setdiff(1:length(sz), dims(:))
   H = sum(H, d) ;
 end
 
+% Bring the remaining dimensions in the requested order
+H = permute(H, [dims(:)' setdiff(1:length(sz), dims(:))]) ;
+
 % Squeeze out marginalized dimensions
 sz = sz(dims(:)) ;
 sz = [sz ones(1,2-length(dims(:)))] ;
-- 
2.43.0


From 26acd64709f1d444e7356ca3bce5bcd231e480e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:58 +0000
Subject: [PATCH 081/164] fix: vl_inthist used the masses of the first label
 map for all maps

---
 toolbox/misc/vl_inthist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index bab2143..743c9c9 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -116,7 +116,7 @@ mexFunction(int nout, mxArray *out[],
         if (mxGetNumberOfDimensions(optArg) != numDims ||
             height != dimsPt [0] ||
             width  != dimsPt [1] ||
-            ((numDims > 2) && numMaps < dimsPt[2])) {
+            ((numDims > 2) && numMaps != dimsPt[2])) {
           mexErrMsgTxt("MASS must have the same dimensions of LABELS.") ;
         }
 
@@ -189,7 +189,7 @@ mexFunction(int nout, mxArray *out[],
       for (k = 0 ; k < K ; ++ k) {                                      \
         size_t label = *labelsPt++ ;                                    \
         if (label) dataPt [k + (label - 1) * K]                         \
-                     += ((T*)massPt) [k] ;                              \
+                     += ((T*)massPt) [k + q * K] ;                              \
       }                                                                 \
     }                                                                   \
   }                                                                     \
-- 
2.43.0


From cb96d54d27337e174c3db72409aa5ae3be8519be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:58 +0000
Subject: [PATCH 082/164] fix: vl_inthist looked for the largest label in the
 first map only

---
 toolbox/misc/vl_inthist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index 743c9c9..586c056 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -147,11 +147,11 @@ mexFunction(int nout, mxArray *out[],
 
   /* If numLabels is not specified, guess it from LABELS */
   if (numLabels == 0) {
-    for (k = 0 ; k < width*height ; ++k) {
+    for (k = 0 ; k < width*height*numMaps ; ++k) {
       numLabels = VL_MAX(numLabels, labelsPt [k]) ;
     }
   } else {
-    for (k = 0 ; k < width*height ; ++k) {
+    for (k = 0 ; k < width*height*numMaps ; ++k) {
       if (labelsPt [k] > numLabels) {
         mexErrMsgTxt("LABELS contains an element greater than NUMLABELS.") ;
       }
-- 
2.43.0


From 432f419309c95ba360f98302a51beee66914d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:36 +0000
Subject: [PATCH 083/164] fix: vl_ihashsum and vl_ihashfind divided by zero if
 K is zero

---
 toolbox/misc/vl_ihashfind.c | 4 ++++
 toolbox/misc/vl_ihashsum.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/toolbox/misc/vl_ihashfind.c b/toolbox/misc/vl_ihashfind.c
index 6932e2c..8ca3826 100644
--- a/toolbox/misc/vl_ihashfind.c
+++ b/toolbox/misc/vl_ihashfind.c
@@ -121,6 +121,10 @@ mexFunction(int nout, mxArray *out[],
   if(! vlmxIsPlainScalar(in[IN_K])) {
     mexErrMsgTxt("K must be a scalar") ;
   }
+  if(! (*mxGetPr(in[IN_K]) >= 1)) {
+    mexErrMsgTxt("K must be at least 1") ;
+  }
+
   K     = (unsigned int) *mxGetPr(in[IN_K]) ;
 
   N    = mxGetN(in[IN_X]) ;
diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index 5fb7f09..9bfb912 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -127,6 +127,10 @@ mexFunction(int nout, mxArray *out[],
   if(! vlmxIsPlainScalar(in[IN_K])) {
     mexErrMsgTxt("K must be a scalar") ;
   }
+  if(! (*mxGetPr(in[IN_K]) >= 1)) {
+    mexErrMsgTxt("K must be at least 1") ;
+  }
+
   K     = (unsigned int) *mxGetPr(in[IN_K]) ;
 
   h_    = mxDuplicateArray(in[IN_H]) ;
-- 
2.43.0


From b724b817981ea1fc6b8479743fd1f3040c1bf984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:36 +0000
Subject: [PATCH 084/164] fix: stable output of vl_roc and vl_pr if some scores
 are -inf

---
 toolbox/plotop/vl_pr.m  | 4 ++--
 toolbox/plotop/vl_roc.m | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/plotop/vl_pr.m b/toolbox/plotop/vl_pr.m
index dfe9971..0954af6 100644
--- a/toolbox/plotop/vl_pr.m
+++ b/toolbox/plotop/vl_pr.m
@@ -217,8 +217,8 @@ if opts.stable
   recall(1) = [] ;
   precision_ = precision ;
   recall_ = recall ;
-  precision = NaN(size(precision)) ;
-  recall = NaN(size(recall)) ;
+  precision = NaN(1,numel(labels)) ;
+  recall = NaN(1,numel(labels)) ;
   precision(perm) = precision_ ;
   recall(perm) = recall_ ;
 end
diff --git a/toolbox/plotop/vl_roc.m b/toolbox/plotop/vl_roc.m
index 4f34877..95c5cfd 100644
--- a/toolbox/plotop/vl_roc.m
+++ b/toolbox/plotop/vl_roc.m
@@ -252,8 +252,8 @@ if opts.stable
   tnr(1) = [] ;
   tpr_ = tpr ;
   tnr_ = tnr ;
-  tpr = NaN(size(tpr)) ;
-  tnr = NaN(size(tnr)) ;
+  tpr = NaN(1,numel(labels)) ;
+  tnr = NaN(1,numel(labels)) ;
   tpr(perm) = tpr_ ;
   tnr(perm) = tnr_ ;
 end
-- 
2.43.0


From ae6bb1e1a919a85d6b6f8bcca943e928837d45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:36 +0000
Subject: [PATCH 085/164] fix: vl_localmax read and wrote out of bounds on
 empty arrays

---
 toolbox/misc/vl_localmax.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/misc/vl_localmax.c b/toolbox/misc/vl_localmax.c
index 39ef7d8..b3cfa67 100644
--- a/toolbox/misc/vl_localmax.c
+++ b/toolbox/misc/vl_localmax.c
@@ -174,6 +174,10 @@ mexFunction(int nout, mxArray *out[],
     for(h=0 ; h < pdims ; ++h)
       if(dims[h] < 3) goto end ;
 
+    /* Similarly if there are no elements at all. */
+    for(h=0 ; h < ndims ; ++h)
+      if(dims[h] == 0) goto end ;
+
     while(VL_TRUE) {
       double v ;
       bool is_greater;
-- 
2.43.0


From 64e6744d6fefc4e7ad1ed12c1e1f09d4caec20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:36 +0000
Subject: [PATCH 086/164] fix: vl_imwbackward with derivatives read past the
 end of the grid

---
 toolbox/imop/vl_imwbackwardmx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index d9e8840..3c48566 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -215,9 +215,9 @@ mexFunction(int nout, mxArray *out[],
 
 	  /* Weights. */
 	  double x0 = X_pt[j] ;
-	  double x1 = X_pt[j+1] ;
+	  double x1 = (j < N-1) ? X_pt[j+1] : x0 + 1;
 	  double y0 = Y_pt[i] ;
-	  double y1 = Y_pt[i+1] ;
+	  double y1 = (i < M-1) ? Y_pt[i+1] : y0 + 1;
 	  double wx = (x-x0)/(x1-x0) ;
 	  double wy = (y-y0)/(y1-y0) ;
 
-- 
2.43.0


From 7c36883d314b15a805e75d85171766ebea4643a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 087/164] fix: vl_tpsumx accepted arrays which are not DOUBLE

---
 toolbox/imop/vl_tpsumx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_tpsumx.c b/toolbox/imop/vl_tpsumx.c
index 3046437..505c7ce 100644
--- a/toolbox/imop/vl_tpsumx.c
+++ b/toolbox/imop/vl_tpsumx.c
@@ -44,11 +44,11 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if(!vlmxIsMatrix(in[X], 2, -1)) {
+  if(!vlmxIsPlainMatrix(in[X], 2, -1)) {
     mexErrMsgTxt("X must be a 2xNP real matrix") ;
   }
 
-  if(!vlmxIsMatrix(in[Y], 2, -1)) {
+  if(!vlmxIsPlainMatrix(in[Y], 2, -1)) {
     mexErrMsgTxt("Y must be a 2xNCP real matrix") ;
   }
 
-- 
2.43.0


From 3cbf68d379ff758659e764ed6ff3f728e184acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 088/164] fix: vl_imgrad did not accept the documented
 arguments

---
 toolbox/imop/vl_imgrad.m | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toolbox/imop/vl_imgrad.m b/toolbox/imop/vl_imgrad.m
index 5678780..c0ff8f7 100644
--- a/toolbox/imop/vl_imgrad.m
+++ b/toolbox/imop/vl_imgrad.m
@@ -23,6 +23,8 @@ for k=1:2:length(varargin)
   switch varargin{k}
     case 'Type'
       type = varargin{k+1} ;
+    case {'central', 'forward', 'backward'}
+      type = varargin{k} ;
     otherwise
       error(['Parameter ''', varargin{k}, ''' unknown']) ;
   end
-- 
2.43.0


From 2d693207c05938c577bdf1749fbdaf2b60b66ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 089/164] fix: vl_imup saturated integer images

---
 toolbox/imop/vl_imup.m | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toolbox/imop/vl_imup.m b/toolbox/imop/vl_imup.m
index d30ffbe..a523e06 100644
--- a/toolbox/imop/vl_imup.m
+++ b/toolbox/imop/vl_imup.m
@@ -11,6 +11,8 @@ function J = vl_imup(I)
 % This file is part of the VLFeat library and is made available under
 % the terms of the BSD license (see the COPYING file).
 
+if isinteger(I), I = double(I) ; end
+
 [M,N,K] = size(I) ;
 
 J = zeros(2*M,2*N,K) ;
-- 
2.43.0


From aa513c65cf85d0ffec7e2871dfda5a46466e10f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:40 +0000
Subject: [PATCH 090/164] fix: vl_alldist2 read a sparse Y as full if X is full

---
 toolbox/misc/vl_alldist2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_alldist2.c b/toolbox/misc/vl_alldist2.c
index 83bff52..9eb0f5c 100644
--- a/toolbox/misc/vl_alldist2.c
+++ b/toolbox/misc/vl_alldist2.c
@@ -316,8 +316,8 @@ mexFunction(int nout, mxArray *out[],
 
   sparse = mxIsSparse(in[IN_S1]) ;
 
-  if (sparse && nin >=2 && mxIsNumeric(in[IN_S2])) {
-    if (! mxIsSparse(in[IN_S2])) {
+  if (nin >=2 && mxIsNumeric(in[IN_S2])) {
+    if (! sparse != ! mxIsSparse(in[IN_S2])) {
       mexErrMsgTxt ("X and Y must be either both full or sparse.") ;
     }
   }
-- 
2.43.0


From 0a35be2014725dc82a89b6aae5cf1a3df021e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:40 +0000
Subject: [PATCH 091/164] fix: vl_alldist aborted the interpreter for LINF and
 L0

---
 toolbox/misc/vl_alldist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_alldist.c b/toolbox/misc/vl_alldist.c
index 17bf510..0531e9e 100644
--- a/toolbox/misc/vl_alldist.c
+++ b/toolbox/misc/vl_alldist.c
@@ -117,7 +117,7 @@ mexFunction(int nout, mxArray *out[],
       case opt_KHELL : comparisonType = VlKernelHellinger ; break ;
       case opt_KJS   : comparisonType = VlKernelJS ; break ;
       default:
-        abort() ;
+        vlmxError(vlmxErrInvalidArgument, "The comparison is not supported.") ;
     }
   }
 
-- 
2.43.0


From c786bbcc036fe066fc25d86caef39ee858525724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 092/164] fix: vl_alphanum misordered large numbers and failed
 on empty strings

---
 toolbox/misc/vl_alphanum.m | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_alphanum.m b/toolbox/misc/vl_alphanum.m
index 7fa2af3..408bfce 100644
--- a/toolbox/misc/vl_alphanum.m
+++ b/toolbox/misc/vl_alphanum.m
@@ -22,10 +22,14 @@ function [strings, perm] = vl_alphanum(strings)
 
 chunks = regexp(strings, '(\d+|\D+)', 'tokens') ;
 for i = 1:length(strings)
+  if isempty(chunks{i}), chunks{i} = '' ; continue ; end
   chunks{i} = [chunks{i}{:}] ;
   for j = 1:length(chunks{i})
     if isstrprop(chunks{i}{j},'digit')
-      chunks{i}{j} = sprintf('%020.0f',sscanf(chunks{i}{j},'%d')) ;
+      % prefix the number of digits, so that numbers of any length
+      % compare by value
+      digits = regexprep(chunks{i}{j}, '^0+', '') ;
+      chunks{i}{j} = sprintf('%020d%s', numel(digits), digits) ;
     end
   end
   chunks{i} = [chunks{i}{:}] ;
-- 
2.43.0


From 426452a1cb2c6c9aa3354f10b9adb5de4e7e5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 093/164] fix: vl_argparse did not return all the unknown
 parameters

---
 toolbox/misc/vl_argparse.m | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/toolbox/misc/vl_argparse.m b/toolbox/misc/vl_argparse.m
index bdc6be3..caa69b9 100644
--- a/toolbox/misc/vl_argparse.m
+++ b/toolbox/misc/vl_argparse.m
@@ -87,7 +87,7 @@ optNames = fieldnames(opts)' ;
 
 % convert ARGS into a structure
 ai = 1 ;
-keep = false(size(args)) ;
+unknown = {} ;
 while ai <= numel(args)
   % Check whether the argument is a (param,value) pair or a structure.
   if recursive && isstruct(args{ai})
@@ -97,8 +97,7 @@ while ai <= numel(args)
       opts = vl_argparse(opts, vertcat(params,values), varargin{:}) ;
     else
       [opts, rest] = vl_argparse(opts, reshape(vertcat(params,values), 1, []), varargin{:}) ;
-      args{ai} = cell2struct(rest(2:2:end), rest(1:2:end), 2) ;
-      keep(ai) = true ;
+      unknown = [unknown, rest] ;
     end
     ai = ai + 1 ;
     continue ;
@@ -127,7 +126,7 @@ while ai <= numel(args)
     elseif nargout <= 1
       error('vl:invalidArgument', 'Unknown parameter ''%s''', param) ;
     else
-      keep([ai,ai+1]) = true ;
+      unknown = [unknown, reshape(args([ai,ai+1]), 1, [])] ;
       ai = ai + 2 ;
       continue ;
     end
@@ -147,7 +146,10 @@ while ai <= numel(args)
           field) ;
       end
       if nargout > 1
-        [opts.(field), args{ai+1}] = vl_argparse(opts.(field), value, varargin{:}) ;
+        [opts.(field), rest] = vl_argparse(opts.(field), value, varargin{:}) ;
+        if ~isempty(rest)
+          unknown = [unknown, {field, cell2struct(rest(2:2:end), rest(1:2:end), 2)}] ;
+        end
       else
         opts.(field) = vl_argparse(opts.(field), value, varargin{:}) ;
       end
@@ -165,4 +167,4 @@ while ai <= numel(args)
   ai = ai + 2 ;
 end
 
-args = args(keep) ;
+args = unknown ;
-- 
2.43.0


From e4936c6ebdc634166f70b5fbafecf408b729fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 094/164] fix: vl_argparse failed on structure values of other
 parameters

---
 toolbox/misc/vl_argparse.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_argparse.m b/toolbox/misc/vl_argparse.m
index caa69b9..bcac4c7 100644
--- a/toolbox/misc/vl_argparse.m
+++ b/toolbox/misc/vl_argparse.m
@@ -156,7 +156,7 @@ while ai <= numel(args)
     else
       % The parameter does not have a struct value in OPTS: copy as is, or
       % merge it, if it contains a struct.
-      if ~isstruct(value)
+      if ~isstruct(value) || ~isfield(opts, field) || ~isstruct(opts.(field))
         opts.(field) = value ;
       else
         opts.(field) = vl_argparse(opts.(field), value, 'merge') ;
-- 
2.43.0


From 7a77846ec79d1d32aea75656288ac3f54aeeb5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 095/164] fix: vl_override ignored its options in nested
 structures

---
 toolbox/misc/vl_override.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_override.m b/toolbox/misc/vl_override.m
index 598c43c..ed7cbc6 100644
--- a/toolbox/misc/vl_override.m
+++ b/toolbox/misc/vl_override.m
@@ -107,7 +107,7 @@ for idx=1:numel(update)
     if ~isempty(configFieldName)
       config(idx).(configFieldName) = ...
           vl_override(config(idx).(configFieldName), ...
-                      update(idx).(updateFieldName)) ;
+                      update(idx).(updateFieldName), varargin{:}) ;
     else
       if warn
         warning(sprintf('copied field ''%s'' which is in UPDATE but not in CONFIG', ...
-- 
2.43.0


From db55eee4bce299c2941e9fcd8f69286a83259c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 096/164] fix: vl_cummax read sparse arrays as full

---
 toolbox/misc/vl_cummax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_cummax.c b/toolbox/misc/vl_cummax.c
index 81bbe46..7f6f5ca 100644
--- a/toolbox/misc/vl_cummax.c
+++ b/toolbox/misc/vl_cummax.c
@@ -78,8 +78,8 @@ mexFunction(int nout, mxArray *out[],
   }
 
   /* get information on the data */
-  if (!mxIsNumeric(IN(X))) {
-    vlmxError(vlmxErrInvalidArgument, "X is not a numeric array.") ;
+  if (!mxIsNumeric(IN(X)) || mxIsSparse(IN(X))) {
+    vlmxError(vlmxErrInvalidArgument, "X is not a numeric (full) array.") ;
   }
   classId = mxGetClassID(IN(X)) ;
   numDimensions = mxGetNumberOfDimensions(IN(X)) ;
-- 
2.43.0


From d7be1ba6d2628a64ec17a8d1f8a5577d41ac5e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 097/164] fix: vl_impattern exchanged width and height for most
 patterns

---
 toolbox/imop/vl_impattern.m | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/imop/vl_impattern.m b/toolbox/imop/vl_impattern.m
index 829557b..c1b495c 100644
--- a/toolbox/imop/vl_impattern.m
+++ b/toolbox/imop/vl_impattern.m
@@ -106,13 +106,13 @@ end
 function [u,v,opts,args] = commonOpts(args)
 opts.size = [128 128] ;
 [opts,args] = vl_argparse(opts, args) ;
-ur = linspace(-1,1,opts.size(2)) ;
-vr = linspace(-1,1,opts.size(1)) ;
+ur = linspace(-1,1,opts.size(1)) ;
+vr = linspace(-1,1,opts.size(2)) ;
 [u,v] = meshgrid(ur,vr);
 
 function im = wedge(args)
 [u,v,opts,args] = commonOpts(args) ;
-im = abs(u) + abs(v) > (1/4) ;
+im = double(abs(u) + abs(v) > (1/4)) ;
 im(v < 0) = 0 ;
 
 function im = cone(args)
@@ -237,7 +237,7 @@ end
 im = imread(fullfile(vl_root,'data',path)) ;
 im = im2double(im) ;
 if ~isempty(opts.size)
-  im = imresize(im, opts.size) ;
+  im = imresize(im, opts.size([2 1])) ;
   im = max(im,0) ;
   im = min(im,1) ;
 end
-- 
2.43.0


From 667bb74773c5bf5059ba79d021c5820d68f7bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 098/164] fix: vl_harris returned an isotropy score that is not
 a factor of the strength

---
 toolbox/vl_harris.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/vl_harris.m b/toolbox/vl_harris.m
index 83b059c..df72fc0 100644
--- a/toolbox/vl_harris.m
+++ b/toolbox/vl_harris.m
@@ -97,7 +97,7 @@ if nargout > 1
   Lm = real(Lm) ;
   Lp = real(Lp) ;
 
-  gamma=sqrt(Lm./Lp) ;
+  gamma = Lm ./ Lp ;
 
   details.sigmap = Lp ;
   if nargin > 2
-- 
2.43.0


From d987a30531a502f8bdaa5d505f7d30651032590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 099/164] fix: vl_twister ignored the state of a generator not
 used yet

---
 toolbox/misc/vl_twister.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index 265baab..c05942c 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -147,7 +147,7 @@ mexFunction(int nout, mxArray *out[],
         } else if (mxIsNumeric(in[1])                                &&
                    mxGetClassID(in[1]) == mxUINT32_CLASS             &&
                    mxGetNumberOfElements(in[1]) == 624+1             &&
-                   ((vl_uint32 const*)mxGetData(in[1]))[624] <= 624  ) {
+                   ((vl_uint32 const*)mxGetData(in[1]))[624] <= 624+1) {
           /* TWISTER('state', STATE) */
           vl_uindex i ;
           vl_uint32 * data = mxGetData(in[1]) ;
-- 
2.43.0


From 99ac807e5104c2956e53dd7074f3c4092e0d6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 100/164] fix: vl_xyz2lab used a wrong threshold and white
 point of illuminant B

---
 toolbox/imop/vl_xyz2lab.m | 8 ++++----
 toolbox/imop/vl_xyz2luv.m | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/imop/vl_xyz2lab.m b/toolbox/imop/vl_xyz2lab.m
index 735bab3..73eddc9 100644
--- a/toolbox/imop/vl_xyz2lab.m
+++ b/toolbox/imop/vl_xyz2lab.m
@@ -22,8 +22,8 @@ switch lower(il)
     xw = 0.4476 ;
     yw = 0.4074 ;
   case 'b'
-    xw = 0.3324 ;
-    yw = 0.3474 ;
+    xw = 0.3484 ;
+    yw = 0.3516 ;
   case 'c'
     xw = 0.3101 ;
     yw = 0.3162 ;
@@ -72,8 +72,8 @@ J = cat(3,L,a,b) ;
 % --------------------------------------------------------------------
 function b=f(a)
 % --------------------------------------------------------------------
-sp = find(a  > 0.00856) ;
-sm = find(a <= 0.00856) ;
+sp = find(a  > 0.008856) ;
+sm = find(a <= 0.008856) ;
 k = 903.3 ;
 b=zeros(size(a)) ;
 b(sp) = a(sp).^(1/3) ;
diff --git a/toolbox/imop/vl_xyz2luv.m b/toolbox/imop/vl_xyz2luv.m
index 05c2ccf..aa0c7bb 100644
--- a/toolbox/imop/vl_xyz2luv.m
+++ b/toolbox/imop/vl_xyz2luv.m
@@ -24,8 +24,8 @@ switch lower(il)
     xw = 0.4476 ;
     yw = 0.4074 ;
   case 'b'
-    xw = 0.3324 ;
-    yw = 0.3474 ;
+    xw = 0.3484 ;
+    yw = 0.3516 ;
   case 'c'
     xw = 0.3101 ;
     yw = 0.3162 ;
-- 
2.43.0


From e1b3e0e9a6f9414c081bd18d09a58397d71b2bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 101/164] fix: vl_xyz2luv ignored the illuminant

---
 toolbox/imop/vl_xyz2luv.m | 2 --
 1 file changed, 2 deletions(-)

diff --git a/toolbox/imop/vl_xyz2luv.m b/toolbox/imop/vl_xyz2luv.m
index aa0c7bb..614abdc 100644
--- a/toolbox/imop/vl_xyz2luv.m
+++ b/toolbox/imop/vl_xyz2luv.m
@@ -52,8 +52,6 @@ end
 J=zeros(size(I)) ;
 
 % Reference white
-xw = 1/3 ;
-yw = 1/3 ;
 Yw = 1.0 ;
 Xw = xw/yw ;
 Zw = (1-xw-yw)/yw * Yw ;
-- 
2.43.0


From dbeca97a9dd853360e0363ce89e939e4800bc8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 102/164] fix: vl_xyz2luv returned NaN for black

---
 toolbox/imop/vl_xyz2luv.m | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_xyz2luv.m b/toolbox/imop/vl_xyz2luv.m
index 614abdc..643b73b 100644
--- a/toolbox/imop/vl_xyz2luv.m
+++ b/toolbox/imop/vl_xyz2luv.m
@@ -65,8 +65,10 @@ Z = I(:,:,3) ;
 upw = 4*Xw / (Xw + 15*Yw + 3*Zw) ;
 vpw = 9*Yw / (Xw + 15*Yw + 3*Zw) ;
 
-up = 4*X ./ (X + 15*Y + 3*Z) ;
-vp = 9*Y ./ (X + 15*Y + 3*Z) ;
+den = X + 15*Y + 3*Z ;
+den(den == 0) = 1 ; % black
+up = 4*X ./ den ;
+vp = 9*Y ./ den ;
 
 sp = find( Y / Yw  > 0.008856) ;
 sm = find( Y / Yw <= 0.008856) ;
-- 
2.43.0


From b58efcfb584ecaf9a5df0e781227e10cff783709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 103/164] fix: vl_xyz2rgb returned complex images

---
 toolbox/imop/vl_xyz2rgb.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/imop/vl_xyz2rgb.m b/toolbox/imop/vl_xyz2rgb.m
index cd8dd6e..3b75f7f 100644
--- a/toolbox/imop/vl_xyz2rgb.m
+++ b/toolbox/imop/vl_xyz2rgb.m
@@ -45,4 +45,4 @@ end
 
 I = reshape(I, M*N, K) ;
 J = inv(A)*I' ;
-J = reshape(J'.^(1/gamma), M, N, K) ;
+J = reshape(max(J',0).^(1/gamma), M, N, K) ; % clamp rounding errors
-- 
2.43.0


From 842caab4b1733a34c5d05162db3a04109a3f1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 104/164] fix: vl_erfill listed the seed pixel twice

---
 toolbox/mser/vl_erfill.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/mser/vl_erfill.c b/toolbox/mser/vl_erfill.c
index 3ae1424..4243148 100644
--- a/toolbox/mser/vl_erfill.c
+++ b/toolbox/mser/vl_erfill.c
@@ -119,6 +119,7 @@ mexFunction(int nout, mxArray *out[],
       mexErrMsgTxt(buff) ;
     }
     members_pt [last++] = idx - 1 ;
+    visited_pt [idx - 1] = 1 ;
   }
   value = I_pt[ members_pt[0] ]  ;
 
-- 
2.43.0


From 4aedea2cbfc5a1204fbf757c4f115d832d45a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 105/164] fix: vl_quickshift wrote outputs that were not
 requested

---
 toolbox/quickshift/vl_quickshift.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/toolbox/quickshift/vl_quickshift.c b/toolbox/quickshift/vl_quickshift.c
index 9858bb0..e2fe0c0 100644
--- a/toolbox/quickshift/vl_quickshift.c
+++ b/toolbox/quickshift/vl_quickshift.c
@@ -56,7 +56,7 @@ mexFunction(int nout, mxArray *out[],
   mxArray const  *optarg ;
 
   double const *I ;
-  double *parents, *dists, *density ;
+  double *parents ;
   int *parentsi;
   double sigma ;
   double tau ;
@@ -122,11 +122,14 @@ mexFunction(int nout, mxArray *out[],
   out[OUT_PARENTS] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
   parents          = mxGetPr (out[OUT_PARENTS]) ;
 
-  out[OUT_DISTS]   = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
-  dists            = mxGetPr (out[OUT_DISTS]) ;
+  /* optional outputs are written only if requested */
+  if (nout > OUT_DISTS) {
+    out[OUT_DISTS]   = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
+  }
 
-  out[OUT_DENSITY] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
-  density          = mxGetPr (out[OUT_DENSITY]) ;
+  if (nout > OUT_DENSITY) {
+    out[OUT_DENSITY] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
+  }
 
   if (verb) {
     mexPrintf("quickshift: [N1,N2,K]: [%d,%d,%d]\n", N1,N2,K) ;
@@ -147,8 +150,12 @@ mexFunction(int nout, mxArray *out[],
   parentsi = vl_quickshift_get_parents(q);
   /* Copy results */
   for(i = 0; i < N1*N2; i++) parents[i] = parentsi[i] + 1;
-  memcpy(dists, vl_quickshift_get_dists(q), sizeof(double)*N1*N2);
-  memcpy(density, vl_quickshift_get_density(q), sizeof(double)*N1*N2);
+  if (nout > OUT_DISTS) {
+    memcpy(mxGetPr(out[OUT_DISTS]), vl_quickshift_get_dists(q), sizeof(double)*N1*N2);
+  }
+  if (nout > OUT_DENSITY) {
+    memcpy(mxGetPr(out[OUT_DENSITY]), vl_quickshift_get_density(q), sizeof(double)*N1*N2);
+  }
 
   /* Delete quick shift object */
   vl_quickshift_delete(q);
-- 
2.43.0


From e470d81247fc1552f566634ba764322693c6b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 106/164] fix: vl_dsift wrote the descriptors even when not
 requested

---
 toolbox/sift/vl_dsift.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/toolbox/sift/vl_dsift.c b/toolbox/sift/vl_dsift.c
index cf3aafc..1fa8cad 100644
--- a/toolbox/sift/vl_dsift.c
+++ b/toolbox/sift/vl_dsift.c
@@ -203,6 +203,7 @@ mexFunction(int nout, mxArray *out[],
     int descrSize ;
     VlDsiftKeypoint const *frames ;
     float const *descrs ;
+    mxArray *descrs_array ;
     int k, i ;
 
     VlDsiftFilter *dsift ;
@@ -274,10 +275,10 @@ mexFunction(int nout, mxArray *out[],
       dims [1] = numFrames ;
 
       if (floatDescriptors) {
-        out[OUT_DESCRIPTORS] = mxCreateNumericArray
+        descrs_array = mxCreateNumericArray
         (2, dims, mxSINGLE_CLASS, mxREAL) ;
       } else {
-        out[OUT_DESCRIPTORS] = mxCreateNumericArray
+        descrs_array = mxCreateNumericArray
         (2, dims, mxUINT8_CLASS, mxREAL) ;
       }
 
@@ -293,7 +294,7 @@ mexFunction(int nout, mxArray *out[],
     {
       float *tmpDescr = mxMalloc(sizeof(float) * descrSize) ;
       double *outFrameIter = mxGetPr(out[OUT_FRAMES]) ;
-      void *outDescrIter = mxGetData(out[OUT_DESCRIPTORS]) ;
+      void *outDescrIter = mxGetData(descrs_array) ;
       for (k = 0 ; k < numFrames ; ++k) {
         *outFrameIter++ = frames[k].y + 1 ;
         *outFrameIter++ = frames[k].x + 1 ;
@@ -325,6 +326,12 @@ mexFunction(int nout, mxArray *out[],
         }
       }
       mxFree(tmpDescr) ;
+      /* the descriptors are returned only if requested */
+      if (nout > OUT_DESCRIPTORS) {
+        out[OUT_DESCRIPTORS] = descrs_array ;
+      } else {
+        mxDestroyArray(descrs_array) ;
+      }
     }
     vl_dsift_delete (dsift) ;
   }
-- 
2.43.0


From dc7b6ce55be197e5b4c45e9d7765439a49976202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 107/164] fix: vl_liop truncated the radius to an integer

---
 toolbox/sift/vl_liop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_liop.c b/toolbox/sift/vl_liop.c
index 1f742ad..fa04764 100644
--- a/toolbox/sift/vl_liop.c
+++ b/toolbox/sift/vl_liop.c
@@ -119,7 +119,7 @@ mexFunction(int nout, mxArray *out[],
         break ;
 
       case opt_radius :
-        if (!vlmxIsPlainScalar(optarg) || (radius = (int) *mxGetPr(optarg)) <= 0) {
+        if (!vlmxIsPlainScalar(optarg) || (radius = (float) *mxGetPr(optarg)) <= 0) {
           vlmxError(vlmxErrInvalidArgument,"RADIUS is not a positive scalar.") ;
         }
         break ;
-- 
2.43.0


From 22f9787378e8ee5ca123fdabab2aef9dd041c544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 108/164] fix: vl_covdet ran the detector given an empty set of
 frames, and returned uninitialised scores

---
 toolbox/sift/vl_covdet.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 830b67b..f76a357 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -20,6 +20,7 @@ the terms of the BSD license (see the COPYING file).
 #include <vl/liop.h>
 
 #include <math.h>
+#include <string.h>
 #include <assert.h>
 
 /* option codes */
@@ -496,7 +497,7 @@ mexFunction(int nout, mxArray *out[],
     vl_covdet_put_image(covdet, image, numRows, numCols) ;
 
     /* fill with frames: either run the detector of poure them in */
-    if (numUserFrames > 0) {
+    if (userFrameDimension > 0) {
       vl_index k ;
 
       if (verbose) {
@@ -507,6 +508,7 @@ mexFunction(int nout, mxArray *out[],
         double const * uframe = userFrames + userFrameDimension * k ;
         double a11, a21, a12, a22 ;
         VlCovDetFeature feature ;
+        memset(&feature, 0, sizeof(feature)) ;
         feature.peakScore = VL_INFINITY_F ;
         feature.edgeScore = 1.0 ;
         feature.frame.x = (float)uframe[1] - 1 ;
-- 
2.43.0


From 3339301131184b5be9c41453307386af76cc4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 109/164] fix: vl_ubcread did not accept the documented format
 OXFORD

---
 toolbox/sift/vl_ubcread.m | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/sift/vl_ubcread.m b/toolbox/sift/vl_ubcread.m
index 294d92d..d7f93f5 100644
--- a/toolbox/sift/vl_ubcread.m
+++ b/toolbox/sift/vl_ubcread.m
@@ -20,6 +20,7 @@ function [f,d] = vl_ubcread(file, varargin)
 opts.verbosity = 0 ;
 opts.format = 'ubc' ;
 opts = vl_argparse(opts, varargin) ;
+opts.format = lower(opts.format) ;
 
 g = fopen(file, 'r');
 if g == -1
-- 
2.43.0


From 9c1b7ce604e5f788893f8b0abc87d55fbe68a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:40 +0000
Subject: [PATCH 110/164] fix: vl_gmm wrote outputs that were not requested

---
 toolbox/gmm/vl_gmm.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 7b9445b..3c016b1 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -336,21 +336,26 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   /* copy centers */
   OUT(MEANS) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
-  OUT(COVARIANCES) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
-  OUT(PRIORS) = mxCreateNumericMatrix (numClusters, 1, classID, mxREAL) ;
-  OUT(POSTERIORS) = mxCreateNumericMatrix (numClusters, numData, classID, mxREAL) ;
 
   memcpy (mxGetData(OUT(MEANS)),
           vl_gmm_get_means (gmm),
           vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
 
-  memcpy (mxGetData(OUT(COVARIANCES)),
-          vl_gmm_get_covariances (gmm),
-          vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
+  /* optionally return covariances */
+  if (nout > 1) {
+    OUT(COVARIANCES) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
+    memcpy (mxGetData(OUT(COVARIANCES)),
+            vl_gmm_get_covariances (gmm),
+            vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
+  }
 
-  memcpy (mxGetData(OUT(PRIORS)),
-          vl_gmm_get_priors (gmm),
-          vl_get_type_size (dataType) * vl_gmm_get_num_clusters(gmm)) ;
+  /* optionally return priors */
+  if (nout > 2) {
+    OUT(PRIORS) = mxCreateNumericMatrix (numClusters, 1, classID, mxREAL) ;
+    memcpy (mxGetData(OUT(PRIORS)),
+            vl_gmm_get_priors (gmm),
+            vl_get_type_size (dataType) * vl_gmm_get_num_clusters(gmm)) ;
+  }
 
   /* optionally return loglikelihood */
   if (nout > 3) {
@@ -359,6 +364,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   /* optionally return posterior probabilities */
   if (nout > 4) {
+    OUT(POSTERIORS) = mxCreateNumericMatrix (numClusters, numData, classID, mxREAL) ;
     memcpy (mxGetData(OUT(POSTERIORS)),
             vl_gmm_get_posteriors (gmm),
             vl_get_type_size (dataType) * numData * vl_gmm_get_num_clusters(gmm)) ;
-- 
2.43.0


From b6877bc931bcf120a653db793e2450dc2a798b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:40 +0000
Subject: [PATCH 111/164] fix: vl_fisher and vl_vlad read past their table of
 options

---
 toolbox/fisher/vl_fisher.c | 3 ++-
 toolbox/vlad/vl_vlad.c     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/toolbox/fisher/vl_fisher.c b/toolbox/fisher/vl_fisher.c
index d5233c0..fd6033f 100644
--- a/toolbox/fisher/vl_fisher.c
+++ b/toolbox/fisher/vl_fisher.c
@@ -30,7 +30,8 @@ vlmxOption  options [] = {
   {"Normalized",          0,   opt_normalized               },
   {"SquareRoot",          0,   opt_square_root              },
   {"Improved",            0,   opt_improved                 },
-  {"Fast",                0,   opt_fast                     }
+  {"Fast", 0, opt_fast },
+  {0, 0, 0 }
 } ;
 
 /* driver */
diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index 0cb3bac..2da2bd5 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -30,7 +30,8 @@ vlmxOption  options [] = {
   {"Unnormalized",        0,   opt_unnormalized             },
   {"NormalizeComponents", 0,   opt_normalize_components     },
   {"NormalizeMass",       0,   opt_normalize_mass           },
-  {"SquareRoot",          0,   opt_square_root              }
+  {"SquareRoot", 0, opt_square_root },
+  {0, 0, 0 }
 } ;
 
 /* driver */
-- 
2.43.0


From 33f5813c49215980bd5ac02becd42332312f066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:40 +0000
Subject: [PATCH 112/164] fix: vl_vlad did not check the number of assignments

---
 toolbox/vlad/vl_vlad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index 2da2bd5..1d44c8e 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -111,7 +111,7 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
     vlmxError (vlmxErrInvalidArgument, "MEANS is not a matrix or does not have the right size.") ;
   }
 
-  if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, -1)) {
+  if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, numData)) {
     vlmxError (vlmxErrInvalidArgument, "ASSIGNMENTS is not a matrix or does not have the right size.") ;
   }
 
-- 
2.43.0


From d323026a08b8377ea86d3b05cbb259cd44ee85c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:40 +0000
Subject: [PATCH 113/164] fix: vl_kdtreequery wrote the distances when not
 requested

---
 toolbox/misc/vl_kdtreequery.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 08c5e2b..492597c 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -56,6 +56,7 @@ mexFunction(int nout, mxArray *out[],
   mxArray const * query_array = in[IN_QUERY] ;
   void * query ;
   vl_uint32 * index ;
+  mxArray * distance_array ;
   void * distance ;
   vl_size numNeighbors = 1 ;
   vl_size numQueries ;
@@ -123,10 +124,10 @@ mexFunction(int nout, mxArray *out[],
   numQueries = mxGetN (query_array) ;
 
   out[OUT_INDEX] = mxCreateNumericMatrix (numNeighbors, numQueries, mxUINT32_CLASS, mxREAL) ;
-  out[OUT_DISTANCE] = mxCreateNumericMatrix (numNeighbors, numQueries, dataClass, mxREAL) ;
+  distance_array = mxCreateNumericMatrix (numNeighbors, numQueries, dataClass, mxREAL) ;
 
   index = mxGetData (out[OUT_INDEX]) ;
-  distance = mxGetData (out[OUT_DISTANCE]) ;
+  distance = mxGetData (distance_array) ;
 
   if (verbose) {
     VL_PRINTF ("vl_kdforestquery: number of queries: %d\n", numQueries) ;
@@ -139,6 +140,12 @@ mexFunction(int nout, mxArray *out[],
 
   vl_kdforest_delete(forest) ;
 
+  if (nout > OUT_DISTANCE) {
+    out[OUT_DISTANCE] = distance_array ;
+  } else {
+    mxDestroyArray (distance_array) ;
+  }
+
   /* adjust for MATLAB indexing */
   for (i = 0 ; i < (signed) (numNeighbors * numQueries) ; ++i) { index[i] ++ ; }
 
-- 
2.43.0


From a4989b181f7651fc321902baaf229f371e5749b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:40 +0000
Subject: [PATCH 114/164] fix: vl_kdtreequery trusted the structure of the
 forest

---
 toolbox/misc/kdtree.h | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/toolbox/misc/kdtree.h b/toolbox/misc/kdtree.h
index b66f003..b4ecf81 100644
--- a/toolbox/misc/kdtree.h
+++ b/toolbox/misc/kdtree.h
@@ -231,6 +231,11 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
     FOREST.TREES
    */
 
+  if (! mxIsStruct (forest_array) ||
+      mxGetNumberOfElements (forest_array) != 1) {
+    vlmxError (vlmxErrInconsistentData,
+              "FOREST must be a 1 x 1 structure.") ;
+  }
   distance_array = mxGetField (forest_array, 0, "distance") ;
   if(distance_array && vlmxIsString (distance_array, -1)){
     if (vlmxCompareToStringI(distance_array, "l1") == 0) {
@@ -246,11 +251,6 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
               "FOREST.DISTANCE must be a string.") ;
   }
 
-  if (! mxIsStruct (forest_array) ||
-      mxGetNumberOfElements (forest_array) != 1) {
-    vlmxError (vlmxErrInconsistentData,
-              "FOREST must be a 1 x 1 structure.") ;
-  }
   dimension_array = mxGetField (forest_array, 0, "dimension") ;
   if (! dimension_array ||
       ! vlmxIsPlainScalar (dimension_array) ||
@@ -266,7 +266,7 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
              "FOREST.NUMDATA must be a poisitve integer.") ;
   }
   trees_array = mxGetField (forest_array, 0, "trees") ;
-  if (! mxIsStruct (trees_array)) {
+  if (! trees_array || ! mxIsStruct (trees_array)) {
     vlmxError(vlmxErrInconsistentData,
              "FOREST.TREES must be a structure array.") ;
   }
@@ -307,7 +307,8 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
     dataIndex_array = mxGetField (trees_array, ti, "dataIndex") ;
 
     if (! nodes_array ||
-        ! mxIsStruct (nodes_array)) {
+        ! mxIsStruct (nodes_array) ||
+        mxGetNumberOfElements (nodes_array) != 1) {
       vlmxError(vlmxErrInconsistentData,
                "FOREST.TREES(%d).NODES must be a struct array.", ti+1) ;
     }
@@ -326,10 +327,10 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
     lowerBound_array = mxGetField (nodes_array, 0, "lowerBound") ;
     upperBound_array = mxGetField (nodes_array, 0, "upperBound") ;
 
-    numUsedNodes = mxGetN (lowerChild_array) ;
+    numUsedNodes = lowerChild_array ? mxGetN (lowerChild_array) : 0 ;
     maxNumNodes += numUsedNodes ;
 
-    if (! lowerChild_array ||
+    if (! lowerChild_array || numUsedNodes < 1 ||
         ! vlmxIsMatrix (lowerChild_array, 1, numUsedNodes) ||
         mxGetClassID (lowerChild_array) != mxINT32_CLASS) {
       vlmxError(vlmxErrInconsistentData,
@@ -353,13 +354,13 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
       vlmxError(vlmxErrInconsistentData,
                "FOREST.TREES(%d).NODES.SPLITTHRESHOLD must be a 1 x NUMNODES DOUBLE array",ti+1) ;
     }
-    if (! splitThreshold_array ||
+    if (! lowerBound_array ||
         ! vlmxIsMatrix (lowerBound_array, 1, numUsedNodes) ||
         mxGetClassID (lowerBound_array) != mxDOUBLE_CLASS) {
       vlmxError(vlmxErrInconsistentData,
                "FOREST.TREES(%d).NODES.LOWERBOUND must be a 1 x NUMNODES DOUBLE array",ti+1) ;
     }
-    if (! splitThreshold_array ||
+    if (! upperBound_array ||
         ! vlmxIsMatrix (upperBound_array, 1, numUsedNodes) ||
         mxGetClassID (upperBound_array) != mxDOUBLE_CLASS) {
       vlmxError(vlmxErrInconsistentData,
@@ -401,7 +402,12 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
                     "TREE.NODES.LOWERCHILD(%d)=%d out of bounds",
                     ni+1,lc) ;
         }
-        if (d > dimension) {
+        if ((lc < 0) != (uc < 0)) {
+          vlmxError (vlmxErrInconsistentData,
+                    "TREE.NODES.LOWERCHILD(%d) and UPPERCHILD(%d) are inconsistent",
+                    ni+1,ni+1) ;
+        }
+        if (d < 1 || d > dimension) {
           vlmxError (vlmxErrInconsistentData,
                     "TREE.NODES.SPLITDIMENSION(%d)=%d out of bounds",
                     ni+1,d) ;
@@ -421,6 +427,11 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
       vl_uindex di ;
       vl_uint32 * dataIndex = mxGetData (dataIndex_array) ;
       for (di = 0 ; di < numData ; ++ di) {
+        if (dataIndex [di] < 1 || dataIndex [di] > numData) {
+          vlmxError (vlmxErrInconsistentData,
+                    "FOREST.TREES(%d).DATAINDEX(%d)=%d out of bounds",
+                    ti+1,di+1,dataIndex[di]) ;
+        }
         tree->dataIndex[di].index = dataIndex [di] - 1 ;
       }
     }
-- 
2.43.0


From 5aa9ff4eeda15ca1b05b2361e36ce762d8dd9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:40 +0000
Subject: [PATCH 115/164] fix: vl_rodr and vl_irodr with several rotations

---
 toolbox/geometry/vl_irodr.c | 6 +++---
 toolbox/geometry/vl_rodr.c  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/toolbox/geometry/vl_irodr.c b/toolbox/geometry/vl_irodr.c
index 11b6d91..fc4d817 100644
--- a/toolbox/geometry/vl_irodr.c
+++ b/toolbox/geometry/vl_irodr.c
@@ -44,7 +44,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Exactly one argument required.") ;
   }
 
-  if(!vlmxIsMatrix(in[IN_R],-1,-1)) {
+  if(!mxIsDouble(in[IN_R]) || !vlmxIsReal(in[IN_R]) || mxIsSparse(in[IN_R])) {
     mexErrMsgTxt("R must be a DOUBLE array") ;
   }
 
@@ -56,7 +56,7 @@ mexFunction(int nout, mxArray *out[],
   R_pt = mxGetPr(in[IN_R]) ;
 
   /* space for output (OM) */
-  out[OUT_OM] = mxCreateDoubleMatrix(3,1,mxREAL) ;
+  out[OUT_OM] = mxCreateDoubleMatrix(3,K,mxREAL) ;
   om_pt = mxGetPr(out[OUT_OM]) ;
 
   /* space for optional output (dR) */
@@ -78,7 +78,7 @@ mexFunction(int nout, mxArray *out[],
   for(k = 0 ; k < K ; ++k) {
     vl_irodrigues(om_pt, dom_pt, R_pt) ;
     om_pt  += 3 ;
-    dom_pt += 3*9 ;
+    if (dom_pt) dom_pt += 3*9 ;
     R_pt   += 3*3 ;
   }
 
diff --git a/toolbox/geometry/vl_rodr.c b/toolbox/geometry/vl_rodr.c
index 7f3357a..c5c609a 100644
--- a/toolbox/geometry/vl_rodr.c
+++ b/toolbox/geometry/vl_rodr.c
@@ -42,7 +42,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Exactly one argument required.") ;
   }
 
-  if(!vlmxIsMatrix(in[IN_OM],-1,-1)) {
+  if(!mxIsDouble(in[IN_OM]) || !vlmxIsReal(in[IN_OM]) || mxIsSparse(in[IN_OM])) {
     mexErrMsgTxt("OM must be a DOUBLE array") ;
   }
 
@@ -83,6 +83,6 @@ mexFunction(int nout, mxArray *out[],
     vl_rodrigues(R_pt, dR_pt, om_pt) ;
     om_pt += 3 ;
     R_pt  += 3*3 ;
-    dR_pt += 9*3 ;
+    if (dR_pt) dR_pt += 9*3 ;
   }
 }
-- 
2.43.0


From b2b63f94b85232f3eba4e09a1589b04fd213fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:40 +0000
Subject: [PATCH 116/164] fix: vl_aib read any class as double

---
 toolbox/aib/vl_aib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index 33f506b..3f646d4 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -220,7 +220,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Too many output arguments.");
   }
 
-  if (!vlmxIsMatrix(in[IN_PCX], -1, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_PCX], -1, -1) || mxGetNumberOfElements(in[IN_PCX]) == 0) {
     mexErrMsgTxt("PCX must be a real matrix.") ;
   }
 
-- 
2.43.0


From 864abe2b502ed7afaac9d9d1012c20a0b9e91ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:40 +0000
Subject: [PATCH 117/164] fix: vl_aib ClusterNull wrote out of bounds without
 merges and wrong costs

---
 toolbox/aib/vl_aib.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index 3f646d4..9809a2b 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -68,6 +68,21 @@ cluster_null_nodes (vl_uint32* parents, vl_uint32 nvalues, double *cost, int ver
 
   if (nnull == 0) return ;
 
+  /* nothing was merged: just chain all the nodes together */
+  if (nnull == nvalues) {
+    for (n = 0 ; n < nvalues ; ++ n) {
+      parents [n] = nvalues + (n < 1 ? 0 : n - 1) ;
+    }
+    for (n = nvalues ; n < 2 * nvalues - 2 ; ++ n) {
+      parents [n] = n + 1 ;
+    }
+    parents [2 * nvalues - 2] = 0 ;
+    if (cost) {
+      for (n = 1 ; n < nvalues ; ++ n) cost [n] = cost [0] ;
+    }
+    return ;
+  }
+
   /* = : leaves
    * 0 : null leaves
    * i : internal node
@@ -179,7 +194,7 @@ cluster_null_nodes (vl_uint32* parents, vl_uint32 nvalues, double *cost, int ver
       cost [n] = cost [n - (e - ep)] ;
     }
     for (n = c ; n >= a ; --n) {
-      cost [n] = cost [d] ;
+      cost [n] = cost [nvalues - 1] ;
     }
   }
 }
-- 
2.43.0


From b653a6c5708aa5c7cc874eda5e00a91a94d382fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:40 +0000
Subject: [PATCH 118/164] fix: vl_aibhist histogram mode and leaf check

---
 toolbox/aib/vl_aibhist.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/toolbox/aib/vl_aibhist.c b/toolbox/aib/vl_aibhist.c
index 2e604d7..7ddba13 100644
--- a/toolbox/aib/vl_aibhist.c
+++ b/toolbox/aib/vl_aibhist.c
@@ -53,7 +53,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     mexErrMsgTxt ("Too many output arguments.") ;
   }
 
-  if (!vlmxIsMatrix(in[IN_DATA], -1, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_DATA], -1, -1)) {
     mexErrMsgTxt ("DATA must be a matrix of DOUBLE");
   }
 
@@ -79,7 +79,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     }
     mxGetString(in[IN_OPT], buf, buflen) ;
     buf [buflen - 1] = 0 ;
-    if (!vlmxCompareStringsI("hist", buf)) {
+    if (vlmxCompareStringsI("hist", buf)) {
       mexErrMsgTxt("OPT must be equal to 'hist'") ;
     }
     histmode = 1 ;
@@ -95,7 +95,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   {
     char buf [1024] ;
     vl_uint32 max_node = 0 ;
-    vl_uint32 min_node = 0 ;
+    vl_uint32 min_node = P + 1 ;
     vl_uint32 last_leaf = 0 ;
     /*vl_uint32 root = 0 ;*/
 
@@ -116,7 +116,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       }
 
       /* check node points to something above him */
-      if ((node != 0) & (node != 1) & (node < i)) {
+      if ((node != 0) & (node != 1) & (node < i + 1)) {
         snprintf(buf, sizeof(buf),
                  "Backward link PARENTS[%d] = %u < %d", i, node, i) ;
         mexErrMsgTxt (buf) ;
@@ -138,10 +138,12 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     for (i = 0 ; i < N ; ++i) {
       /*int w = 1 ;*/
       vl_uint32 x = data [i] ;
+      vl_uint32 count = 1 ;
 
       if (histmode) {
         /*w = x ;*/
-        x = i ;
+        x = i + 1 ;
+        count = data [i] ;
       }
 
       if ((x < 1) | (x > last_leaf)) {
@@ -158,7 +160,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       while (VL_TRUE) {
         vl_uint32 x_ = parents [x -1] ;
         /*     mexPrintf("%u : x_=%u, x=%u\n", i, x_, x) ; */
-        ++ tree [x - 1] ;
+        tree [x - 1] += count ;
         if ((x_ == x) | (x_ == 0) | (x_ == 1)) break ;
         x = x_ ;
       }
-- 
2.43.0


From 3a1559152548a4c2b7dc4fb38911d1a1fd1c59c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:40 +0000
Subject: [PATCH 119/164] fix: vl_hikmeans ignored MaxIters

---
 toolbox/kmeans/vl_hikmeans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/kmeans/vl_hikmeans.c b/toolbox/kmeans/vl_hikmeans.c
index b18ffce..cab9c4f 100644
--- a/toolbox/kmeans/vl_hikmeans.c
+++ b/toolbox/kmeans/vl_hikmeans.c
@@ -202,6 +202,7 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   }
 
   vl_hikm_set_verbosity (tree, verb) ;
+  vl_hikm_set_max_niters (tree, max_niters) ;
   vl_hikm_init (tree, M, K, depth) ;
   vl_hikm_train (tree, data, N) ;
 
-- 
2.43.0


From ba18df76d673fd8dba5edcbe57d5816692f36b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:41 +0000
Subject: [PATCH 120/164] fix: vl_hikmeans accepted less than two clusters

---
 toolbox/kmeans/vl_hikmeans.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/toolbox/kmeans/vl_hikmeans.c b/toolbox/kmeans/vl_hikmeans.c
index cab9c4f..7255e3a 100644
--- a/toolbox/kmeans/vl_hikmeans.c
+++ b/toolbox/kmeans/vl_hikmeans.c
@@ -143,8 +143,16 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   M = mxGetM (in[IN_DATA]);   /* n of components */
   N = mxGetN (in[IN_DATA]);   /* n of elements */
 
+  if (M < 1) {
+    mexErrMsgTxt ("DATA must have at least one row.") ;
+  }
+
   if (! vlmxIsPlainScalar (in[IN_K])    ||
-      (K = (int) *mxGetPr (in[IN_K])) > N) {
+      *mxGetPr (in[IN_K]) < 2) {
+    mexErrMsgTxt ("K must be a scalar not smaller than 2.") ;
+  }
+
+  if ((K = (int) *mxGetPr (in[IN_K])) > N) {
     mexErrMsgTxt ("Cannot have more clusters than data.") ;
   }
 
-- 
2.43.0


From 488488501826055a342ee3f73bbbc379f737df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:41 +0000
Subject: [PATCH 121/164] fix: vl_hikmeanspush trusted the tree and the size of
 the data

---
 toolbox/kmeans/vl_hikmeanspush.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/toolbox/kmeans/vl_hikmeanspush.c b/toolbox/kmeans/vl_hikmeanspush.c
index efcbc6c..ff03070 100644
--- a/toolbox/kmeans/vl_hikmeanspush.c
+++ b/toolbox/kmeans/vl_hikmeanspush.c
@@ -45,7 +45,7 @@ vlmxOption  options [] = {
  **/
 
 static VlHIKMNode *
-xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
+xcreate (VlHIKMTree *tree, mxArray const *mnode, int i, vl_size height)
 {
   mxArray const *mcenters, *msub ;
   VlHIKMNode *node ;
@@ -85,7 +85,7 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
   vl_ikm_init (node->filter, mxGetData(mcenters), M, node_K) ;
 
   /* has any childer? */
-  if (msub) {
+  if (msub && mxGetNumberOfElements (msub) > 0) {
 
     /* sanity checks */
     if (mxGetClassID (msub) != mxSTRUCT_CLASS) {
@@ -95,9 +95,13 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
       mexErrMsgTxt("A NODE.SUB does not correspond to NODE.CENTERS.") ;
     }
 
+    if (height <= 1) {
+      mexErrMsgTxt("TREE is deeper than TREE.DEPTH.") ;
+    }
+
     node->children = mxMalloc (sizeof(VlHIKMNode *) * node_K) ;
     for(k = 0 ; k < node_K ; ++ k) {
-      node->children[k] = xcreate (tree, msub, k) ;
+      node->children[k] = xcreate (tree, msub, k, height - 1) ;
     }
   }
   return node ;
@@ -119,7 +123,8 @@ matlab_to_hikm (mxArray const *mtree, int method_type)
 
   VL_USE_MATLAB_ENV ;
 
-  if (mxGetClassID (mtree) != mxSTRUCT_CLASS) {
+  if (mxGetClassID (mtree) != mxSTRUCT_CLASS ||
+      mxGetNumberOfElements (mtree) != 1) {
     mexErrMsgTxt("TREE must be a MATLAB structure.") ;
   }
 
@@ -143,7 +148,9 @@ matlab_to_hikm (mxArray const *mtree, int method_type)
   tree->K = (vl_size)K ;
   tree->M = 0 ; /* to be initialized later */
   tree->method = method_type ;
-  tree->root = xcreate (tree, mtree, 0) ;
+  tree->verb = 0 ;
+  tree->max_niters = 0 ; /* not used */
+  tree->root = xcreate (tree, mtree, 0, tree->depth) ;
   return tree ;
 }
 
@@ -223,6 +230,10 @@ void mexFunction (int nout, mxArray * out[],
     tree = matlab_to_hikm (in[IN_TREE], method_type) ;
     depth = vl_hikm_get_depth (tree) ;
 
+    if (mxGetM (in[IN_DATA]) != vl_hikm_get_ndims (tree)) {
+      mexErrMsgTxt ("DATA does not have the same number of rows as TREE.CENTERS.") ;
+    }
+
     if (verb) {
       mexPrintf("vl_hikmeanspush: ndims: %d K: %d depth: %d\n",
                 vl_hikm_get_ndims (tree),
-- 
2.43.0


From ac64a97971b279b8bd565172e3bf340799b6c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:41 +0000
Subject: [PATCH 122/164] fix: vl_hikmeanshist counted paths that end early as
 other nodes

---
 toolbox/kmeans/vl_hikmeanshist.m | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/kmeans/vl_hikmeanshist.m b/toolbox/kmeans/vl_hikmeanshist.m
index 214a419..237b27e 100644
--- a/toolbox/kmeans/vl_hikmeanshist.m
+++ b/toolbox/kmeans/vl_hikmeanshist.m
@@ -47,5 +47,8 @@ h(1) = size(path,2) ;
 
 for d=1:D
   p = p * K + double(path(d,:))  ;
+  % paths can end before the last level (such entries are zero)
+  p = p(path(d,:) > 0) ;
+  path = path(:, path(d,:) > 0) ;
   h = vl_binsum(h, 1, p + 1) ;
 end
-- 
2.43.0


From 4237d3b125d47eab864ab1b8ed8a049a2f890b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:41 +0000
Subject: [PATCH 123/164] fix: vlmxIsMatrix read past the array dimensions

---
 toolbox/mexutils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index d7559af..710e74d 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -412,7 +412,7 @@ vlmxIsMatrix (mxArray const * array, vl_index M, vl_index N)
   }
 
   /* ok if any dimension beyond the first two is singleton */
-  for (di = 2 ; ((unsigned)dimensions[di] == 1) && di < numDimensions ; ++ di) ;
+  for (di = 2 ; di < numDimensions && ((unsigned)dimensions[di] == 1) ; ++ di) ;
   return di == numDimensions ;
 }
 
-- 
2.43.0


From 8b10d6bd01b96ab15ebb042e51729d4020df3be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:41 +0000
Subject: [PATCH 124/164] fix: vl_svmtrain wrote the bias when not requested

---
 toolbox/misc/vl_svmtrain.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index e62d9c9..39bb4aa 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -622,7 +622,9 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
              vl_svm_get_model(svm),
              vl_svm_get_dimension(svm) * sizeof(double)) ;
     }
-    out[OUT_BIAS] = vlmxCreatePlainScalar(vl_svm_get_bias(svm)) ;
+    if (nout >= 2) {
+      out[OUT_BIAS] = vlmxCreatePlainScalar(vl_svm_get_bias(svm)) ;
+    }
     if (nout >= 3) {
       out[OUT_INFO] = makeInfoStruct(svm) ;
     }
-- 
2.43.0


From e12387bd0939db89627a4a8f5c0f55aaae5d422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:41 +0000
Subject: [PATCH 125/164] fix: vl_svmtrain scaled the initial bias by the wrong
 multiplier

---
 toolbox/misc/vl_svmtrain.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index 39bb4aa..5c3bdbc 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -557,6 +557,9 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
       vl_svm_set_model(svm, mxGetPr(initialModel_array)) ;
     }
 
+    /* the bias is stored relative to the multiplier, which must be set first */
+    if (biasMultipler >= 0) vl_svm_set_bias_multiplier(svm, biasMultipler) ;
+
     if (! vl_is_nan_d(initialBias)) {
       if (solver != VlSvmSolverNone && solver != VlSvmSolverSgd) {
         vlmxError(vlmxErrInvalidArgument, "BIAS cannot be specified with this type of solver.") ;
@@ -566,7 +569,6 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
 
     if (epsilon >= 0) vl_svm_set_epsilon(svm, epsilon) ;
     if (maxNumIterations >= 0) vl_svm_set_max_num_iterations(svm, maxNumIterations) ;
-    if (biasMultipler >= 0) vl_svm_set_bias_multiplier(svm, biasMultipler) ;
     if (sgdBiasLearningRate >= 0) vl_svm_set_bias_learning_rate(svm, sgdBiasLearningRate) ;
     if (diagnosticFrequency >= 0) vl_svm_set_diagnostic_frequency(svm, diagnosticFrequency) ;
     if (startingIteration >= 0) vl_svm_set_iteration_number(svm, (unsigned)startingIteration) ;
-- 
2.43.0


From 6d2dce9b11fc9dac1684fa1f849d61f3cbe81031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:41 +0000
Subject: [PATCH 126/164] fix: vl_kmeans aborted MATLAB given the unsupported
 distance CHI2

---
 toolbox/kmeans/vl_kmeans.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/toolbox/kmeans/vl_kmeans.c b/toolbox/kmeans/vl_kmeans.c
index 4976a1b..80e5fbc 100644
--- a/toolbox/kmeans/vl_kmeans.c
+++ b/toolbox/kmeans/vl_kmeans.c
@@ -201,8 +201,6 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
           distance = VlDistanceL2 ;
         } else if (vlmxCompareStringsI("l1", buf) == 0) {
           distance = VlDistanceL1 ;
-        } else if (vlmxCompareStringsI("chi2", buf) == 0) {
-          distance = VlDistanceChi2 ;
         } else {
           vlmxError (vlmxErrInvalidArgument,
                     "Invalid value %s for DISTANCE", buf) ;
-- 
2.43.0


From 966b2e643602da9ce91879b4e66908b0d0ac8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:41 +0000
Subject: [PATCH 127/164] fix: vl_aibcut did not map null nodes in the cut

---
 toolbox/aib/vl_aibcut.m | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/aib/vl_aibcut.m b/toolbox/aib/vl_aibcut.m
index 8becf61..c48ee77 100644
--- a/toolbox/aib/vl_aibcut.m
+++ b/toolbox/aib/vl_aibcut.m
@@ -101,3 +101,4 @@ map(cut)        = 1:n ;
 map(short >  0) = map(short(short > 0)) ;
 map(short == 0) = 0 ;
 map(mu+1:end)   = 0 ;
+map(cut)        = 1:n ;
-- 
2.43.0


From 41e33b8817323dde27064fc589c27e6b9d24b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:14 +0000
Subject: [PATCH 128/164] fix: vl_vlad and vl_kdtreequery read missing
 arguments

---
 toolbox/misc/vl_kdtreequery.c | 10 +++++++---
 toolbox/vlad/vl_vlad.c        | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 492597c..73bf54b 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -51,9 +51,9 @@ mexFunction(int nout, mxArray *out[],
   mxArray const *optarg ;
 
   VlKDForest * forest ;
-  mxArray const * forest_array = in[IN_FOREST] ;
-  mxArray const * data_array = in[IN_DATA] ;
-  mxArray const * query_array = in[IN_QUERY] ;
+  mxArray const * forest_array ;
+  mxArray const * data_array ;
+  mxArray const * query_array ;
   void * query ;
   vl_uint32 * index ;
   mxArray * distance_array ;
@@ -78,6 +78,10 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
+  forest_array = in[IN_FOREST] ;
+  data_array = in[IN_DATA] ;
+  query_array = in[IN_QUERY] ;
+
   forest = new_kdforest_from_array (forest_array, data_array) ;
 
   dataClass = mxGetClassID (data_array) ;
diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index 1d44c8e..88742b0 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -45,9 +45,9 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
   int next = IN_END ;
   mxArray const  *optarg ;
 
-  mxArray const * means_array = in[IN_MEANS] ;
-  mxArray const * data_array = in[IN_DATA] ;
-  mxArray const * assign_array = in[IN_ASSIGNMENTS] ;
+  mxArray const * means_array ;
+  mxArray const * data_array ;
+  mxArray const * assign_array ;
 
   vl_size numClusters ;
   vl_size dimension ;
@@ -77,6 +77,10 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
                "At most one output argument.");
   }
 
+  means_array = in[IN_MEANS] ;
+  data_array = in[IN_DATA] ;
+  assign_array = in[IN_ASSIGNMENTS] ;
+
   if (!vlmxIsMatrix(IN(DATA),-1,-1)) {
     vlmxError (vlmxErrInvalidArgument,
                "DATA is not a dense matrix.") ;
-- 
2.43.0


From 3c195d8056ab3011053a169cd1501c2cd8afefd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:14 +0000
Subject: [PATCH 129/164] fix: plain arrays may not be sparse

---
 toolbox/mexutils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index 710e74d..aed1bcb 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -468,6 +468,7 @@ vlmxIsArray (mxArray const * array, vl_index numDimensions, vl_index* dimensions
  {
  return
    vlmxIsReal (array) &&
+   (! mxIsSparse (array)) &&
    vlmxIsOfClass (array, mxDOUBLE_CLASS) ;
  }
 
-- 
2.43.0


From bc1e1f9d2ad2a4f425e783179ed6374a7f3c1758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:14 +0000
Subject: [PATCH 130/164] fix: functions of the toolbox read sparse arrays as
 full ones

---
 toolbox/gmm/vl_gmm.c         |  4 ++++
 toolbox/imop/vl_imintegral.c |  4 ++--
 toolbox/kmeans/vl_kmeans.c   |  4 ++++
 toolbox/misc/vl_binsum.c     | 12 ++++++------
 toolbox/misc/vl_homkermap.c  |  3 +++
 toolbox/misc/vl_twister.c    |  1 +
 toolbox/sift/vl_ubcmatch.c   |  4 +++-
 7 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 3c016b1..7996c08 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -107,6 +107,10 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       abort() ;
   }
 
+  if (! vlmxIsMatrix (IN(DATA), -1, -1)) {
+    vlmxError (vlmxErrInvalidArgument, "DATA is not a non-sparse matrix.") ;
+  }
+
   dimension = mxGetM (IN(DATA)) ;
   numData = mxGetN (IN(DATA)) ;
 
diff --git a/toolbox/imop/vl_imintegral.c b/toolbox/imop/vl_imintegral.c
index 759cf0c..8da9cfb 100644
--- a/toolbox/imop/vl_imintegral.c
+++ b/toolbox/imop/vl_imintegral.c
@@ -48,9 +48,9 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if (! mxIsNumeric(IN(I))) {
+  if (! mxIsNumeric(IN(I)) || mxIsSparse(IN(I))) {
     vlmxError(vlmxErrInvalidArgument,
-              "I is not numeric.") ;
+              "I is not a numeric non-sparse array.") ;
   }
 
   dimensions = mxGetDimensions(IN(I)) ;
diff --git a/toolbox/kmeans/vl_kmeans.c b/toolbox/kmeans/vl_kmeans.c
index 80e5fbc..cddd25b 100644
--- a/toolbox/kmeans/vl_kmeans.c
+++ b/toolbox/kmeans/vl_kmeans.c
@@ -107,6 +107,10 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       abort() ;
   }
 
+  if (! vlmxIsMatrix (IN(DATA), -1, -1)) {
+    vlmxError (vlmxErrInvalidArgument, "DATA is not a non-sparse matrix.") ;
+  }
+
   dimension = mxGetM (IN(DATA)) ;
   numData = mxGetN (IN(DATA)) ;
 
diff --git a/toolbox/misc/vl_binsum.c b/toolbox/misc/vl_binsum.c
index 42592ad..71bf8b5 100644
--- a/toolbox/misc/vl_binsum.c
+++ b/toolbox/misc/vl_binsum.c
@@ -88,14 +88,14 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if (!vlmxIsReal(IN(ACCUMULATOR))) {
-    vlmxError(vlmxErrInvalidArgument, "ACCUMULATOR is not a numeric real array.") ;
+  if (!vlmxIsReal(IN(ACCUMULATOR)) || mxIsSparse(IN(ACCUMULATOR))) {
+    vlmxError(vlmxErrInvalidArgument, "ACCUMULATOR is not a numeric real non-sparse array.") ;
   }
-  if (!vlmxIsReal(IN(VALUES))) {
-    vlmxError(vlmxErrInvalidArgument, "VALUES is not a numeric real array.") ;
+  if (!vlmxIsReal(IN(VALUES)) || mxIsSparse(IN(VALUES))) {
+    vlmxError(vlmxErrInvalidArgument, "VALUES is not a numeric real non-sparse array.") ;
   }
-  if (!vlmxIsReal(IN(INDEXES))) {
-    vlmxError(vlmxErrInvalidArgument, "INDEXES is not a numeric real array.") ;
+  if (!vlmxIsReal(IN(INDEXES)) || mxIsSparse(IN(INDEXES))) {
+    vlmxError(vlmxErrInvalidArgument, "INDEXES is not a numeric real non-sparse array.") ;
   }
 
   indexClass = mxGetClassID(IN(INDEXES)) ;
diff --git a/toolbox/misc/vl_homkermap.c b/toolbox/misc/vl_homkermap.c
index c7483fc..95c235f 100644
--- a/toolbox/misc/vl_homkermap.c
+++ b/toolbox/misc/vl_homkermap.c
@@ -84,6 +84,9 @@ mexFunction(int nout, mxArray *out[],
       dataClassId != mxSINGLE_CLASS) {
     vlmxError(vlmxErrInvalidArgument, "X is neither DOUBLE nor SINGLE.") ;
   }
+  if (mxIsSparse(IN(X))) {
+    vlmxError(vlmxErrInvalidArgument, "X is sparse.") ;
+  }
 
   numDimensions = mxGetNumberOfDimensions(IN(X)) ;
   dimensions = mxGetDimensions(IN(X)) ;
diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index c05942c..9538712 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -154,6 +154,7 @@ mexFunction(int nout, mxArray *out[],
           for (i = 0 ; i < 624 ; ++i) rand->mt[i] = data[i] ;
           rand->mti = data [624] ;
         } else if (mxIsNumeric(in[1])                    &&
+                   ! mxIsSparse(in[1])                   &&
                    mxGetClassID(in[1]) == mxDOUBLE_CLASS &&
                    mxGetNumberOfElements(in[1]) <= 624) {
           /* TWISTER('state', KEY) */
diff --git a/toolbox/sift/vl_ubcmatch.c b/toolbox/sift/vl_ubcmatch.c
index 05525eb..d3969d0 100644
--- a/toolbox/sift/vl_ubcmatch.c
+++ b/toolbox/sift/vl_ubcmatch.c
@@ -129,9 +129,11 @@ mexFunction(int nout, mxArray *out[],
 
   if(!mxIsNumeric(in[L1]) ||
      !mxIsNumeric(in[L2]) ||
+     mxIsSparse(in[L1]) ||
+     mxIsSparse(in[L2]) ||
      mxGetNumberOfDimensions(in[L1]) > 2 ||
      mxGetNumberOfDimensions(in[L2]) > 2) {
-    mexErrMsgTxt("L1 and L2 must be two dimensional numeric arrays") ;
+    mexErrMsgTxt("L1 and L2 must be two dimensional numeric non-sparse arrays") ;
   }
 
   K1 = mxGetN(in[L1]) ;
-- 
2.43.0


From b9408bc77977e480ff25e24528f4a2d5da1ddaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:14 +0000
Subject: [PATCH 131/164] fix: vl_imsmooth accepted a negative Subsample

---
 toolbox/imop/vl_imsmooth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 081bca3..ae7d43e 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -228,11 +228,11 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be a scalar.") ;
         }
-        step = *mxGetPr(optarg) ;
-        if (step < 1) {
+        if (! (*mxGetPr(optarg) >= 1)) {
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be not less than one.") ;
         }
+        step = *mxGetPr(optarg) ;
         break ;
 
       case opt_kernel :
-- 
2.43.0


From 2a6e22281110172aa71d3d6577bfd47233869f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:14 +0000
Subject: [PATCH 132/164] fix: vl_imwbackwardmx wrote an output that was not
 requested

---
 toolbox/imop/vl_imwbackwardmx.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index 3c48566..3486dbd 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -70,6 +70,7 @@ mexFunction(int nout, mxArray *out[],
     *wIx_pt   = 0,
     *wIy_pt   = 0 ;
 
+  mxArray * wIy_array ;
   double Xmin, Xmax, Ymin, Ymax ;
   const double NaN = mxGetNaN() ;
 
@@ -122,9 +123,12 @@ mexFunction(int nout, mxArray *out[],
 
   if (nout > 1) {
     out[wIx] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
-    out[wIy] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
+    wIy_array = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
     wIx_pt = mxGetPr (out[wIx]) ;
-    wIy_pt = mxGetPr (out[wIy]) ;
+    wIy_pt = mxGetPr (wIy_array) ;
+    if (nout > 2) {
+      out[wIy] = wIy_array ;
+    }
   }
 
   /* -----------------------------------------------------------------
-- 
2.43.0


From d0604697b2647171011c3a4e07841e0842f410c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 133/164] fix: vl_hog('render') read a missing argument

---
 toolbox/misc/vl_hog.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/misc/vl_hog.c b/toolbox/misc/vl_hog.c
index a2bffdf..52cb72c 100644
--- a/toolbox/misc/vl_hog.c
+++ b/toolbox/misc/vl_hog.c
@@ -88,6 +88,9 @@ mexFunction(int nout, mxArray *out[],
     } else if (vlmxIsEqualToStringI(string_array, "render")) {
       /* image = vl_hog('render', descriptor) */
       mode = Render ;
+      if (nin < 2) {
+        vlmxError(vlmxErrNotEnoughInputArguments, NULL) ;
+      }
       descriptor_array = IN(CELLSIZE) ;
       next = 2 ;
       if (! mxIsNumeric(descriptor_array) ||
-- 
2.43.0


From ba4631eef9d69ad39326eef4353300af4c9382df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 134/164] fix: vl_ihashfind and vl_ihashsum divided by zero for
 huge K

---
 toolbox/misc/vl_ihashfind.c | 3 +++
 toolbox/misc/vl_ihashsum.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/toolbox/misc/vl_ihashfind.c b/toolbox/misc/vl_ihashfind.c
index 8ca3826..727f9bd 100644
--- a/toolbox/misc/vl_ihashfind.c
+++ b/toolbox/misc/vl_ihashfind.c
@@ -124,6 +124,9 @@ mexFunction(int nout, mxArray *out[],
   if(! (*mxGetPr(in[IN_K]) >= 1)) {
     mexErrMsgTxt("K must be at least 1") ;
   }
+  if(*mxGetPr(in[IN_K]) > res) {
+    mexErrMsgTxt("K cannot be larger then the size of H") ;
+  }
 
   K     = (unsigned int) *mxGetPr(in[IN_K]) ;
 
diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index 9bfb912..5142b31 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -130,6 +130,9 @@ mexFunction(int nout, mxArray *out[],
   if(! (*mxGetPr(in[IN_K]) >= 1)) {
     mexErrMsgTxt("K must be at least 1") ;
   }
+  if(*mxGetPr(in[IN_K]) > res) {
+    mexErrMsgTxt("K cannot be larger then the size of H") ;
+  }
 
   K     = (unsigned int) *mxGetPr(in[IN_K]) ;
 
-- 
2.43.0


From 393029f3f03d55d0709c8fd216c177799058694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 135/164] fix: vl_ihashsum wrote outputs that were not
 requested

---
 toolbox/misc/vl_ihashsum.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index 5142b31..b4ddf5f 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -242,6 +242,6 @@ mexFunction(int nout, mxArray *out[],
   mxSetM(id_,   ndims) ;
 
   out[OUT_H]    = h_ ;
-  out[OUT_ID]   = id_ ;
-  out[OUT_NEXT] = next_ ;
+  if (nout > OUT_ID) out[OUT_ID]   = id_ ;
+  if (nout > OUT_NEXT) out[OUT_NEXT] = next_ ;
 }
-- 
2.43.0


From 00f118f000e2bfe1eefb972cd0b1b1f990665dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 136/164] fix: vl_lbp divided by zero for huge or NaN cell
 sizes

---
 toolbox/misc/vl_lbp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_lbp.c b/toolbox/misc/vl_lbp.c
index 2bf8178..ac1b1e7 100644
--- a/toolbox/misc/vl_lbp.c
+++ b/toolbox/misc/vl_lbp.c
@@ -56,15 +56,17 @@ mexFunction(int nout, mxArray *out[],
               "CELLSIZE is not a plain scalar.") ;
   }
 
-  if (mxGetScalar(IN(CELLSIZE)) < 1.0) {
+  if (! (mxGetScalar(IN(CELLSIZE)) >= 1.0)) {
     vlmxError(vlmxErrInvalidArgument,
               "CELLSIZE is less than 1.") ;
   }
 
-  cellSize = (vl_size) mxGetScalar(IN(CELLSIZE)) ;
   image = mxGetData(IN(I)) ;
   width = mxGetN(IN(I)) ;
   height = mxGetM(IN(I)) ;
+  /* any cell larger than the image gives the same (empty) result */
+  cellSize = (vl_size) VL_MIN(mxGetScalar(IN(CELLSIZE)),
+                              (double) VL_MAX(width, height) + 1) ;
 
   /* do job */
   {
-- 
2.43.0


From 56773a8cbbd093fb0358c590007955526cb10190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 137/164] fix: vl_kdtreebuild and vl_kdtreequery options were
 not validated

---
 toolbox/misc/vl_kdtreebuild.c | 10 +++++++---
 toolbox/misc/vl_kdtreequery.c |  7 ++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/toolbox/misc/vl_kdtreebuild.c b/toolbox/misc/vl_kdtreebuild.c
index 05c9dba..7507e05 100644
--- a/toolbox/misc/vl_kdtreebuild.c
+++ b/toolbox/misc/vl_kdtreebuild.c
@@ -95,11 +95,14 @@ mexFunction(int nout, mxArray *out[],
     char buffer [1024] ;
     switch (opt) {
       case opt_threshold_method :
-        mxGetString (optarg, buffer, sizeof(buffer)/sizeof(buffer[0])) ;
         if (! vlmxIsString(optarg, -1)) {
           vlmxError(vlmxErrInvalidOption,
                    "THRESHOLDMETHOD must be a string") ;
         }
+        if (mxGetString (optarg, buffer, sizeof(buffer)/sizeof(buffer[0]))) {
+          vlmxError(vlmxErrInvalidOption,
+                   "THRESHOLDMETHOD argument too long") ;
+        }
         if (vl_string_casei_cmp(buffer, "median") == 0) {
           thresholdingMethod = VL_KDTREE_MEDIAN ;
         } else if (vl_string_casei_cmp(buffer, "mean") == 0) {
@@ -111,11 +114,12 @@ mexFunction(int nout, mxArray *out[],
         break ;
 
       case opt_num_trees :
-        if (! vlmxIsScalar(optarg) ||
-            (numTrees = mxGetScalar(optarg)) < 1) {
+        if (! vlmxIsScalar(optarg) || ! vlmxIsReal(optarg) ||
+            ! (mxGetScalar(optarg) >= 1)) {
           vlmxError(vlmxErrInvalidOption,
                    "NUMTREES must be not smaller than one") ;
         }
+        numTrees = mxGetScalar(optarg) ;
         break ;
 
       case opt_verbose :
diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 73bf54b..e55e2ad 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -101,15 +101,16 @@ mexFunction(int nout, mxArray *out[],
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0) {
     switch (opt) {
       case opt_num_neighs :
-        if (! vlmxIsScalar(optarg) ||
-            (numNeighbors = mxGetScalar(optarg)) < 1) {
+        if (! vlmxIsScalar(optarg) || ! vlmxIsReal(optarg) ||
+            ! (mxGetScalar(optarg) >= 1)) {
           vlmxError(vlmxErrInvalidArgument,
                     "NUMNEIGHBORS must be a scalar not smaller than one.") ;
         }
+        numNeighbors = mxGetScalar(optarg) ;
         break;
 
       case opt_max_num_comparisons :
-        if (! vlmxIsScalar(optarg)) {
+        if (! vlmxIsScalar(optarg) || ! vlmxIsReal(optarg)) {
           vlmxError(vlmxErrInvalidArgument,
                     "MAXNUMCOMPARISONS must be a scalar.") ;
         }
-- 
2.43.0


From 4b72a0209a875c51730229a60bf61201e53f7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 138/164] fix: vl_quickshift did not validate its arguments

---
 toolbox/quickshift/vl_quickshift.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/toolbox/quickshift/vl_quickshift.c b/toolbox/quickshift/vl_quickshift.c
index e2fe0c0..afeabb5 100644
--- a/toolbox/quickshift/vl_quickshift.c
+++ b/toolbox/quickshift/vl_quickshift.c
@@ -97,6 +97,18 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("I must be DOUBLE.")  ;
   }
 
+  if (mxIsSparse(in[IN_I])) {
+    mexErrMsgTxt("I must not be sparse.")  ;
+  }
+
+  if (! vlmxIsPlainScalar(in[IN_KERNEL_SIZE])) {
+    mexErrMsgTxt("KERNELSIZE must be a scalar.")  ;
+  }
+
+  if (nin > 2 && ! vlmxIsPlainScalar(in[IN_MAX_DIST])) {
+    mexErrMsgTxt("MAXDIST must be a scalar.")  ;
+  }
+
   N1 = dims [0] ;
   N2 = dims [1] ;
   K = (ndims == 3) ? dims [2] : 1 ;
-- 
2.43.0


From 61434ae26378d3b5a66fc7bfb144f7de0c275326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 139/164] fix: vl_slic read IMAGE before checking it

---
 toolbox/slic/vl_slic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/slic/vl_slic.c b/toolbox/slic/vl_slic.c
index 8efe034..2521427 100644
--- a/toolbox/slic/vl_slic.c
+++ b/toolbox/slic/vl_slic.c
@@ -69,7 +69,6 @@ mexFunction(int nout, mxArray *out[],
               "Too many output arguments.");
   }
 
-  image = mxGetData(IN(IMAGE)) ;
   if (!mxIsNumeric(IN(IMAGE)) || mxIsComplex(IN(IMAGE))) {
     vlmxError(vlmxErrInvalidArgument, "IMAGE is not a real matrix.") ;
   }
@@ -80,6 +79,7 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrInvalidArgument, "IMAGE has more than three dimensions.") ;
   }
 
+  image = mxGetData(IN(IMAGE)) ;
   width = mxGetDimensions(IN(IMAGE))[1] ;
   height = mxGetDimensions(IN(IMAGE))[0] ;
   if (mxGetNumberOfDimensions(IN(IMAGE)) == 2) {
-- 
2.43.0


From 48cc54711b8ec8771e86eae128aa4e58f3987c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 140/164] fix: vl_sift and vl_siftdescriptor read frames of any
 class as doubles

---
 toolbox/sift/vl_sift.c           | 4 ++--
 toolbox/sift/vl_siftdescriptor.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 8ab263d..4d4e411 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -238,8 +238,8 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_frames :
-      if (!vlmxIsMatrix(optarg, 4, -1)) {
-        mexErrMsgTxt("'Frames' must be a 4 x N matrix.") ;
+      if (!vlmxIsPlainMatrix(optarg, 4, -1)) {
+        mexErrMsgTxt("'Frames' must be a 4 x N matrix of class DOUBLE.") ;
       }
       ikeys_array = mxDuplicateArray (optarg) ;
       nikeys      = mxGetN (optarg) ;
diff --git a/toolbox/sift/vl_siftdescriptor.c b/toolbox/sift/vl_siftdescriptor.c
index 649fde4..f1aabc7 100644
--- a/toolbox/sift/vl_siftdescriptor.c
+++ b/toolbox/sift/vl_siftdescriptor.c
@@ -114,8 +114,8 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("GRAD must be a 2xMxN matrix of class SINGLE.") ;
   }
 
-  if (!vlmxIsMatrix(in[IN_FRAMES], 4, -1)) {
-    mexErrMsgTxt("FRAMES must be a 4xN matrix.") ;
+  if (!vlmxIsPlainMatrix(in[IN_FRAMES], 4, -1)) {
+    mexErrMsgTxt("FRAMES must be a 4xN matrix of class DOUBLE.") ;
   }
   nikeys = mxGetN (in[IN_FRAMES]) ;
   ikeys  = mxGetPr(in[IN_FRAMES]) ;
-- 
2.43.0


From 8fe011f9d5acd1a1cd9a892c48745790c6b83d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 141/164] fix: dense SIFT wrote out of bounds for NaN pixels

---
 vl/dsift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 8dbf777..047358a 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -712,7 +712,7 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
 
       /* quantize angle */
       nt = vl_mod_2pi_f (angle) * (self->geom.numBinT / (2*VL_PI)) ;
-      bint = (int) vl_floor_f (nt) ;
+      bint = vl_is_nan_f (nt) ? 0 : (int) vl_floor_f (nt) ; /* NaN pixels */
       rbint = nt - bint ;
 
       /* write it back */
-- 
2.43.0


From 899f6bd7043b1e823f200579ae90d13f6ed2e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 142/164] fix: vl_covdet read past its table of descriptors

---
 toolbox/sift/vl_covdet.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index f76a357..7183633 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -94,12 +94,13 @@ const char* vlCovDetDescriptorNames [VL_COVDET_DESC_NUM] =
     "None", "Patch", "SIFT","LIOP"
 } ;
 
-VlEnumerator vlCovDetDescriptorTypes [VL_COVDET_DESC_NUM] =
+VlEnumerator vlCovDetDescriptorTypes [VL_COVDET_DESC_NUM + 1] =
 {
   {"None" ,   (vl_index)VL_COVDET_DESC_NONE             },
   {"Patch",   (vl_index)VL_COVDET_DESC_PATCH            },
   {"SIFT",    (vl_index)VL_COVDET_DESC_SIFT             },
-  {"LIOP",    (vl_index)VL_COVDET_DESC_LIOP             }
+  {"LIOP",    (vl_index)VL_COVDET_DESC_LIOP             },
+  {0,         0                                         }
 } ;
 
 /** ------------------------------------------------------------------
-- 
2.43.0


From 127ee3f701eb7ef2bcb91260de75b3dceefa5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 143/164] fix: vl_liop accepted a NaN Radius

---
 toolbox/sift/vl_liop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_liop.c b/toolbox/sift/vl_liop.c
index fa04764..1e604ee 100644
--- a/toolbox/sift/vl_liop.c
+++ b/toolbox/sift/vl_liop.c
@@ -119,7 +119,7 @@ mexFunction(int nout, mxArray *out[],
         break ;
 
       case opt_radius :
-        if (!vlmxIsPlainScalar(optarg) || (radius = (float) *mxGetPr(optarg)) <= 0) {
+        if (!vlmxIsPlainScalar(optarg) || !((radius = (float) *mxGetPr(optarg)) > 0)) {
           vlmxError(vlmxErrInvalidArgument,"RADIUS is not a positive scalar.") ;
         }
         break ;
-- 
2.43.0


From 305e6fa9e30a96699b8a4b74bf64ab2dd85812b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 144/164] fix: vl_imsmooth accepted NaN, infinite and negative
 S and sparse images

---
 toolbox/imop/vl_imsmooth.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index ae7d43e..b1eb1ce 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -283,6 +283,11 @@ mexFunction(int nout, mxArray *out[],
              "I must be either a two or three dimensional array.") ;
   }
 
+  if (mxIsSparse(IN(I))) {
+    vlmxError(vlmxErrInvalidArgument,
+             "I must not be sparse.") ;
+  }
+
   ndims = mxGetNumberOfDimensions(IN(I)) ;
   dims = mxGetDimensions(IN(I)) ;
   M = dims[0] ;
@@ -290,10 +295,15 @@ mexFunction(int nout, mxArray *out[],
   K = (ndims > 2) ? dims[2] : 1 ;
 
   sigma = * mxGetPr(IN(S)) ;
+  if (! (sigma <= 1e9)) {
+    vlmxError(vlmxErrInvalidArgument,
+             "S is too large or NaN.") ;
+  }
   if ((sigma < 0.01) && (step == 1)) {
     OUT(J) = mxDuplicateArray(IN(I)) ;
     return ;
   }
+  sigma = VL_MAX(sigma, 0) ;
 
   M_ = (M - 1) / step + 1 ;
   N_ = (N - 1) / step + 1 ;
-- 
2.43.0


From 17b7eb8923ede2e78dcd2acf833be61865f187dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 145/164] fix: vl_hog accepted NaN NumOrientations and cell
 sizes

---
 toolbox/misc/vl_hog.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_hog.c b/toolbox/misc/vl_hog.c
index 52cb72c..7f4b3a3 100644
--- a/toolbox/misc/vl_hog.c
+++ b/toolbox/misc/vl_hog.c
@@ -141,14 +141,16 @@ mexFunction(int nout, mxArray *out[],
       vlmxError(vlmxErrInvalidArgument,
                 "CELLSIZE is not a plain scalar.") ;
     }
-    if (mxGetScalar(IN(CELLSIZE)) < 1.0) {
+    if (! (mxGetScalar(IN(CELLSIZE)) >= 1.0)) {
       vlmxError(vlmxErrInvalidArgument,
                 "CELLSIZE is less than 1.") ;
     }
-    cellSize = (vl_size) mxGetScalar(IN(CELLSIZE)) ;
     image = mxGetData(IN(I)) ;
     height = mxGetDimensions(IN(I))[0] ;
     width = mxGetDimensions(IN(I))[1] ;
+    /* any cell larger than twice the image gives the same (empty) result */
+    cellSize = (vl_size) VL_MIN(mxGetScalar(IN(CELLSIZE)),
+                                2.0 * VL_MAX(width, height) + 2) ;
   }
 
   /* parse the options */
@@ -171,7 +173,7 @@ mexFunction(int nout, mxArray *out[],
         if (! vlmxIsPlainScalar(optarg)) {
           vlmxError(vlmxErrInvalidArgument, "NUMORIENTATIONS is not a plain scalar.") ;
         }
-        if (mxGetScalar(optarg) < 1) {
+        if (! (mxGetScalar(optarg) >= 1)) {
           vlmxError(vlmxErrInvalidArgument, "NUMORIENTATIONS is smaller than one.") ;
         }
         numOrientations = mxGetScalar(optarg) ;
-- 
2.43.0


From e8849793cdcafdab9577b1296feb58583559447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 146/164] fix: vl_inthist wrote out of bounds for empty LABELS

---
 toolbox/misc/vl_inthist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index 586c056..d5cf9fd 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -165,6 +165,10 @@ mexFunction(int nout, mxArray *out[],
   OUT(HIST) = mxCreateNumericArray(3, dims, dataClass, mxREAL) ;
   histPt = mxGetData(OUT(HIST)) ;
 
+  if (width == 0 || height == 0) {
+    return ;
+  }
+
   if (verb) {
     mexPrintf("inthist: integrating %d x %d label map with %d labels\n", width, height, numLabels) ;
     mexPrintf("         custom mass map: %s\n", VL_YESNO(massPt)) ;
-- 
2.43.0


From a379bbf2d4f700ce6b421e32132e23f1844872ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 147/164] fix: vl_localmax read sparse arrays as full ones

---
 toolbox/misc/vl_localmax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_localmax.c b/toolbox/misc/vl_localmax.c
index b3cfa67..29ca19a 100644
--- a/toolbox/misc/vl_localmax.c
+++ b/toolbox/misc/vl_localmax.c
@@ -49,7 +49,7 @@ mexFunction(int nout, mxArray *out[],
   }
 
   /* The input must be a real matrix. */
-  if (!mxIsDouble(in[F]) || mxIsComplex(in[F])) {
+  if (!mxIsDouble(in[F]) || mxIsComplex(in[F]) || mxIsSparse(in[F])) {
     mexErrMsgTxt("Input must be real matrix.");
   }
 
-- 
2.43.0


From adb9d14a087360575993ce4ca2c8882e9aaf3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 148/164] fix: vl_twister wrote out of bounds for huge or NaN
 dimensions

---
 toolbox/misc/vl_twister.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index 9538712..9f41d82 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -56,6 +56,7 @@ mexFunction(int nout, mxArray *out[],
       vl_size numDimensions = 2, n ;
       vl_uindex k ;
       mwSize dimensions [maxNumDimensions] = {1, 1} ;
+      double numElements = 1 ;
       double * x ;
 
       if (nin > 1) {
@@ -69,10 +70,11 @@ mexFunction(int nout, mxArray *out[],
             vlmxError(vlmxErrInvalidArgument,
                      "The %d-th argument is not a plain scalar.", k + 1) ;
           }
-          if (mxGetScalar(in[k]) < 0) {
+          if (! (mxGetScalar(in[k]) >= 0)) {
             vlmxError(vlmxErrInvalidArgument,
                       "The %d-th argument is negative.", k + 1) ;
           }
+          numElements *= mxGetScalar(in[k]) ;
           dimensions[k] = mxGetScalar(in[k]) ;
         }
         numDimensions = k ;
@@ -94,22 +96,28 @@ mexFunction(int nout, mxArray *out[],
         }
 
         if (n == 1) {
-          if (*x < 0) {
+          if (! (*x >= 0)) {
             vlmxError(vlmxErrInvalidArgument,
                       "The specified dimension is negative.") ;
           }
+          numElements = *x * *x ;
           dimensions[0] = dimensions[1] = *x ;
         } else {
           for (k = 0 ; k < n ; ++k) {
-            if (x[k] < 0) {
+            if (! (x[k] >= 0)) {
               vlmxError(vlmxErrInvalidArgument,
                         "One of the specified dimensions is negative.") ;
             }
+            numElements *= x[k] ;
             dimensions[k] = x[k] ;
           }
         }
       }
 
+      if (! (numElements < 1e15)) {
+        vlmxError(vlmxErrAlloc, "The array is too large.") ;
+      }
+
       out[0] = mxCreateNumericArray (numDimensions, dimensions, mxDOUBLE_CLASS, mxREAL) ;
       n = mxGetNumberOfElements (out[0]) ;
       x = mxGetPr (out[0]) ;
-- 
2.43.0


From 698866efbc86862acd4e0e8113cf71ab13e628f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 149/164] fix: vl_covdet read out of bounds for frames which
 are not finite

---
 vl/covdet.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index 7ba303f..7e3952f 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2305,6 +2305,10 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
     for (i = 0 ; i < 4 ; ++i) {
       double x = A[0] * boxx[i] + A[2] * boxy[i] + T[0] ;
       double y = A[1] * boxx[i] + A[3] * boxy[i] + T[1] ;
+      /* the integer vertexes must be representable (false for NaN too) */
+      if (! (vl_abs_d(x) < 1e9 && vl_abs_d(y) < 1e9)) {
+        return vl_set_last_error(VL_ERR_BAD_ARG, "Frame too large or not finite.");
+      }
       x0 = VL_MIN(x0, x) ;
       x1 = VL_MAX(x1, x) ;
       y0 = VL_MIN(y0, y) ;
-- 
2.43.0


From f846f57cb1395b027532d034559f51160929126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 150/164] fix: LIOP crashed with more than twelve neighbours or
 a NaN radius

---
 toolbox/sift/vl_covdet.c | 6 +++++-
 toolbox/sift/vl_liop.c   | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 7183633..097f6be 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -378,10 +378,14 @@ mexFunction(int nout, mxArray *out[],
       if (!vlmxIsPlainScalar(optarg) || (liopNumNeighbours = (vl_int)*mxGetPr(optarg)) <= 0) {
         vlmxError(vlmxErrInvalidArgument, "number of LIOPNUMNEIGHBOURS is not a positive scalar.") ;
       }
+      /* the descriptor has LIOPNUMNEIGHBOURS! dimensions */
+      if (liopNumNeighbours > 12) {
+        vlmxError(vlmxErrInvalidArgument, "LIOPNUMNEIGHBOURS is larger than twelve.") ;
+      }
       break ;
 
     case opt_liop_radius :
-      if (!vlmxIsPlainScalar(optarg) || (liopRadius = (float)*mxGetPr(optarg)) <= 0) {
+      if (!vlmxIsPlainScalar(optarg) || !((liopRadius = (float)*mxGetPr(optarg)) > 0)) {
         vlmxError(vlmxErrInvalidArgument, "LIOPRADIUS must is not a positive scalar.") ;
       }
       break ;
diff --git a/toolbox/sift/vl_liop.c b/toolbox/sift/vl_liop.c
index 1e604ee..9d9378a 100644
--- a/toolbox/sift/vl_liop.c
+++ b/toolbox/sift/vl_liop.c
@@ -110,6 +110,10 @@ mexFunction(int nout, mxArray *out[],
         if (!vlmxIsPlainScalar(optarg) || (numNeighbours = (int) *mxGetPr(optarg)) < 2) {
             vlmxError(vlmxErrInvalidArgument,"NUMNEIGHBOURS is not a scalar or it is less than two.") ;
         }
+        /* the descriptor has NUMNEIGHBOURS! dimensions */
+        if (numNeighbours > 12) {
+            vlmxError(vlmxErrInvalidArgument,"NUMNEIGHBOURS is larger than twelve.") ;
+        }
         break ;
 
       case opt_num_spatial_bins :
-- 
2.43.0


From 0bef2a06f47fe416602d10969067ae63cb8a1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 151/164] fix: vl_covdet read an empty image out of bounds

---
 toolbox/sift/vl_covdet.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 097f6be..e305476 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -260,6 +260,10 @@ mexFunction(int nout, mxArray *out[],
   numRows = mxGetM(IN(I)) ;
   numCols = mxGetN(IN(I)) ;
 
+  if (numRows == 0 || numCols == 0) {
+    vlmxError(vlmxErrInvalidArgument, "I is empty.") ;
+  }
+
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0) {
 
     switch (opt) {
-- 
2.43.0


From 44565ec70030ce33d5516e2b05c84529f7a47ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 152/164] fix: vl_imsmooth divided by zero for an infinite
 Subsample

---
 toolbox/imop/vl_imsmooth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index b1eb1ce..1095d4f 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -232,7 +232,8 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be not less than one.") ;
         }
-        step = *mxGetPr(optarg) ;
+        /* saturate to a representable value */
+        step = VL_MIN(*mxGetPr(optarg), 1e9) ;
         break ;
 
       case opt_kernel :
-- 
2.43.0


From 1d5ffdb3a8abaf639885e2f7d25e2b12209e8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 153/164] fix: vl_svmtrain divided by zero with
 DiagnosticFrequency 0

---
 toolbox/misc/vl_svmtrain.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index 5c3bdbc..9f115a4 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -465,7 +465,12 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
       case opt_epsilon: GET_NN_SCALAR(EPSLON, epsilon) ; break ;
       case opt_bias_multiplier: GET_NN_SCALAR(BIASMULTIPLIER, biasMultipler) ; break ;
       case opt_max_num_iterations: GET_NN_SCALAR(MAXNUMITERATIONS, maxNumIterations) ; break ;
-      case opt_diagnostic_frequency: GET_NN_SCALAR(DIAGNOSTICFREQUENCY, diagnosticFrequency) ; break ;
+      case opt_diagnostic_frequency:
+        GET_SCALAR(DIAGNOSTICFREQUENCY, diagnosticFrequency) ;
+        if (diagnosticFrequency < 1) {
+          vlmxError(vlmxErrInvalidArgument, "DIAGNOSTICFREQUENCY is smaller than one.") ;
+        }
+        break ;
       case opt_diagnostic_function:
         if (!mxIsClass(optarg ,"function_handle")) {
           mexErrMsgTxt("DIAGNOSTICSFUNCTION is not a function handle.");
-- 
2.43.0


From ceffaafe64ef9ae1768445b02ef825b063cf65c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 154/164] fix: SIFT read and wrote out of bounds upsampling an
 empty image

---
 vl/sift.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/sift.c b/vl/sift.c
index 6d97702..681ee7f 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -743,6 +743,8 @@ copy_and_upsample_rows
   int x, y ;
   vl_sift_pix a, b ;
 
+  if (width < 1) return ;
+
   for(y = 0 ; y < height ; ++y) {
     b = a = *src++ ;
     for(x = 0 ; x < width - 1 ; ++x) {
-- 
2.43.0


From e3ce7c7f8ade6ef69a363d1d65fa1b70edcd60ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 155/164] fix: vl_inthist read Mass before checking it

---
 toolbox/misc/vl_inthist.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index d5cf9fd..bb76c75 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -110,6 +110,9 @@ mexFunction(int nout, mxArray *out[],
     switch (opt) {
     case opt_mass :
       {
+        if (! mxIsNumeric(optArg)) {
+          mexErrMsgTxt("MASS must be numeric.") ;
+        }
         massPt = mxGetData(optArg) ;
         dimsPt = mxGetDimensions(optArg) ;
 
-- 
2.43.0


From de2b7ad0965eada230e8b554e85e652a163516b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 156/164] fix: vl_imwbackwardmx read an empty image out of
 bounds

---
 toolbox/imop/vl_imwbackwardmx.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index 3486dbd..caaf683 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -134,10 +134,15 @@ mexFunction(int nout, mxArray *out[],
   /* -----------------------------------------------------------------
    *                                                        Do the job
    * -------------------------------------------------------------- */
-  Xmin = X_pt [0] ;
-  Xmax = X_pt [N - 1] ;
-  Ymin = Y_pt [0] ;
-  Ymax = Y_pt [M - 1] ;
+  if (M == 0 || N == 0) {
+    /* every point is out of an empty image */
+    Xmin = Xmax = Ymin = Ymax = NaN ;
+  } else {
+    Xmin = X_pt [0] ;
+    Xmax = X_pt [N - 1] ;
+    Ymin = Y_pt [0] ;
+    Ymax = Y_pt [M - 1] ;
+  }
 
   if (nout <= 1) {
 
-- 
2.43.0


From c7e16fb61c67b80fd8768ca3180bd463fb184074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 157/164] fix: vl_sift accepted any FirstOctave

---
 toolbox/sift/vl_sift.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 4d4e411..0f75869 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -204,6 +204,12 @@ mexFunction(int nout, mxArray *out[],
       if (!vlmxIsPlainScalar(optarg)) {
         mexErrMsgTxt("'FirstOctave' must be an integer") ;
       }
+      /* the scaled image must be representable */
+      if (!(*mxGetPr(optarg) < 31) ||
+          !(ldexp(VL_MAX(M,1), - (int) VL_MAX(*mxGetPr(optarg), -1000)) *
+            ldexp(VL_MAX(N,1), - (int) VL_MAX(*mxGetPr(optarg), -1000)) < 2147483648.0)) {
+        mexErrMsgTxt("'FirstOctave' is out of range.") ;
+      }
       o_min = (int) *mxGetPr(optarg) ;
       break ;
 
-- 
2.43.0


From 01bb65676f92e47ff229c2112f52feabcd3dd257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 158/164] fix: SIFT with more than 31 octaves read and wrote
 out of bounds

---
 vl/sift.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vl/sift.c b/vl/sift.c
index 681ee7f..f72a08e 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1105,6 +1105,10 @@ vl_sift_process_next_octave (VlSiftFilt *f)
   if (f->o_cur == o_min + O - 1)
     return VL_ERR_EOF ;
 
+  /* further octaves are empty and their size cannot be computed */
+  if (f->o_cur >= 30)
+    return VL_ERR_EOF ;
+
   /* retrieve base */
   s_best = VL_MIN(s_min + S, s_max) ;
   w      = vl_sift_get_octave_width  (f) ;
-- 
2.43.0


From c5d58c4056deeeb0000f84c1888cf94a56b248b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:16 +0000
Subject: [PATCH 159/164] fix: vl_imsmooth crashed subsampling an empty image

---
 toolbox/imop/vl_imsmooth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 1095d4f..078bafb 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -300,7 +300,7 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrInvalidArgument,
              "S is too large or NaN.") ;
   }
-  if ((sigma < 0.01) && (step == 1)) {
+  if (((sigma < 0.01) && (step == 1)) || M == 0 || N == 0) {
     OUT(J) = mxDuplicateArray(IN(I)) ;
     return ;
   }
-- 
2.43.0


From fc5d38a0bcdca73d2f1c3690caafc56c10e89e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:17 +0000
Subject: [PATCH 160/164] fix: vl_kdtreequery accepted NumNeighbors larger than
 any array

---
 toolbox/misc/vl_kdtreequery.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index e55e2ad..3f85dc1 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -106,6 +106,10 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument,
                     "NUMNEIGHBORS must be a scalar not smaller than one.") ;
         }
+        if (mxGetScalar(optarg) > 2147483647.0) {
+          vlmxError(vlmxErrInvalidArgument,
+                    "NUMNEIGHBORS is too large.") ;
+        }
         numNeighbors = mxGetScalar(optarg) ;
         break;
 
-- 
2.43.0


From 13d04a9be19bac1e1b84c9014329b498131653ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:17 +0000
Subject: [PATCH 161/164] fix: vl_kmeans and vl_gmm accepted NaN counts

---
 toolbox/gmm/vl_gmm.c       | 2 +-
 toolbox/kmeans/vl_kmeans.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 7996c08..f229897 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -222,7 +222,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
           vlmxError (vlmxErrInvalidArgument,
                      "NUMREPETITIONS is not a scalar.") ;
         }
-        if (mxGetScalar (optarg) < 1) {
+        if (!(mxGetScalar (optarg) >= 1)) {
           vlmxError (vlmxErrInvalidArgument,
                      "NUMREPETITIONS is not larger than or equal to 1.") ;
         }
diff --git a/toolbox/kmeans/vl_kmeans.c b/toolbox/kmeans/vl_kmeans.c
index cddd25b..7f84e2a 100644
--- a/toolbox/kmeans/vl_kmeans.c
+++ b/toolbox/kmeans/vl_kmeans.c
@@ -216,7 +216,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
           vlmxError (vlmxErrInvalidArgument,
                      "NUMREPETITIONS must be a scalar.") ;
         }
-        if (mxGetScalar (optarg) < 1) {
+        if (!(mxGetScalar (optarg) >= 1)) {
           vlmxError (vlmxErrInvalidArgument,
                      "NUMREPETITIONS must be larger than or equal to 1.") ;
         }
@@ -228,7 +228,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
               vlmxError (vlmxErrInvalidArgument,
                      "NUMTREES must be a scalar.") ;
             }
-            if (mxGetScalar (optarg) < 1) {
+            if (!(mxGetScalar (optarg) >= 1)) {
               vlmxError (vlmxErrInvalidArgument,
                     "NUMTREES must be larger than or equal to 1.") ;
             }
@@ -241,7 +241,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
               vlmxError (vlmxErrInvalidArgument,
                      "NUMCOMPARISONS must be a scalar.") ;
             }
-            if (mxGetScalar (optarg) < 0) {
+            if (!(mxGetScalar (optarg) >= 0)) {
               vlmxError (vlmxErrInvalidArgument,
                     "NUMCOMPARISONS must be larger than or equal to 0.") ;
             }
-- 
2.43.0


From 034f206bc80016b19750c502244b5de3f06c8f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:17 +0000
Subject: [PATCH 162/164] fix: SIFT descriptors wrote out of bounds for NaN
 gradients

---
 vl/sift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index f72a08e..f1a4773 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1853,7 +1853,7 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
          We start from the ``lower-left'' bin. */
       int         binx = (int)vl_floor_f (nx - 0.5) ;
       int         biny = (int)vl_floor_f (ny - 0.5) ;
-      int         bint = (int)vl_floor_f (nt) ;
+      int         bint = (nt >= 0) ? (int)vl_floor_f (nt) : 0 ; /* NaN */
       vl_sift_pix rbinx = nx - (binx + 0.5) ;
       vl_sift_pix rbiny = ny - (biny + 0.5) ;
       vl_sift_pix rbint = nt - bint ;
@@ -2050,7 +2050,7 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
          We start from the ``lower-left'' bin. */
       int         binx = (int)vl_floor_f (nx - 0.5) ;
       int         biny = (int)vl_floor_f (ny - 0.5) ;
-      int         bint = (int)vl_floor_f (nt) ;
+      int         bint = (nt >= 0) ? (int)vl_floor_f (nt) : 0 ; /* NaN */
       vl_sift_pix rbinx = nx - (binx + 0.5) ;
       vl_sift_pix rbiny = ny - (biny + 0.5) ;
       vl_sift_pix rbint = nt - bint ;
-- 
2.43.0


From df38f48c067b5a813f993a7c7624411bff7729eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:17 +0000
Subject: [PATCH 163/164] fix: vl_sampleinthist read sparse histograms as full
 ones

---
 toolbox/misc/vl_sampleinthist.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_sampleinthist.c b/toolbox/misc/vl_sampleinthist.c
index b036802..1d1c2db 100644
--- a/toolbox/misc/vl_sampleinthist.c
+++ b/toolbox/misc/vl_sampleinthist.c
@@ -75,10 +75,10 @@ mexFunction(int nout, mxArray *out[],
   }
 
   histClass = mxGetClassID(in[IN_INTHIST]) ;
-  if (histClass != mxDOUBLE_CLASS &&
-      histClass != mxUINT32_CLASS) {
+  if ((histClass != mxDOUBLE_CLASS &&
+       histClass != mxUINT32_CLASS) || mxIsSparse(in[IN_INTHIST])) {
     vlmxError(vlmxErrInvalidArgument,
-             "INTHIST must be of either class DOUBLE or UINT32.") ;
+             "INTHIST must be a full array of either class DOUBLE or UINT32.") ;
   }
 
   numDims = mxGetNumberOfDimensions(in[IN_INTHIST]) ;
-- 
2.43.0


From dc46a13940cdffb36e4ce7d82a0b8a7ce79cfa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:17 +0000
Subject: [PATCH 164/164] fix: vl_inthist read a sparse Mass as a full array

---
 toolbox/misc/vl_inthist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index bb76c75..911e59a 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -110,7 +110,7 @@ mexFunction(int nout, mxArray *out[],
     switch (opt) {
     case opt_mass :
       {
-        if (! mxIsNumeric(optArg)) {
+        if (! mxIsNumeric(optArg) || mxIsSparse(optArg)) {
           mexErrMsgTxt("MASS must be numeric.") ;
         }
         massPt = mxGetData(optArg) ;
-- 
2.43.0


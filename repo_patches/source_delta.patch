From a8717ec580da1e380cd13a21a71957e9e9dc11a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:11 +0000
Subject: [PATCH 01/26] fix: keep the full index range in
 vl_rand_permute_indexes

The random index was truncated to 32 bits, so for arrays of more than 2^31
elements it could become negative and the swap wrote out of bounds.
---
 vl/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/random.c b/vl/random.c
index 107ee1f..a8a0409 100644
--- a/vl/random.c
+++ b/vl/random.c
@@ -210,7 +210,7 @@ vl_rand_permute_indexes (VlRand *self, vl_index *array, vl_size size)
   vl_index i, j, tmp;
   for (i = size - 1 ; i > 0; i--) {
     /* Pick a random index j in the range 0, i + 1 and swap it with i */
-    j = (vl_int) vl_rand_uindex (self, i + 1) ;
+    j = (vl_index) vl_rand_uindex (self, i + 1) ;
     tmp = array[i] ; array[i] = array[j] ; array[j] = tmp ;
   }
 }
-- 
2.43.0


From 6630e0701ae3b75c95a0737c376aa6a625a57fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:11 +0000
Subject: [PATCH 02/26] fix: column convolution by a filter whose support does
 not contain the origin

A filter starting more than one row after the current pixel made the first
padding loop read before the filter's first tap, and a filter ending before
the origin padded the bottom border with zeros instead of the last pixel.
---
 vl/imopv.c      | 3 ++-
 vl/imopv_sse2.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 225b733..94f955b 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -166,6 +166,7 @@ VL_XCAT(vl_imconvcol_v, SFX)
       filti = filt ;
       stop = filt_end - y ;
       srci = src + x - stop * src_stride ;
+      stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
 
       if (stop > 0) {
         if (zeropad) {
@@ -188,7 +189,7 @@ VL_XCAT(vl_imconvcol_v, SFX)
         srci += src_stride ;
       }
 
-      if (zeropad) v = 0 ;
+      v = zeropad ? 0 : *(src + x + (src_height - 1) * src_stride) ;
 
       stop = filt_end - filt_begin + 1 ;
       while (filti > filt - stop) {
diff --git a/vl/imopv_sse2.c b/vl/imopv_sse2.c
index 016c23f..99c0525 100644
--- a/vl/imopv_sse2.c
+++ b/vl/imopv_sse2.c
@@ -87,6 +87,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         filti = filt ;
         stop = filt_end - y ;
         srci = src + x - stop * src_stride ;
+        stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
 
         if (stop > 0) {
           if (zeropad) {
@@ -109,7 +110,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = VSTZ () ;
+        v = zeropad ? VSTZ () : * (VTYPE*) (src + x + (src_height - 1) * src_stride) ;
 
         stop = filt_end - filt_begin + 1;
         while (filti > filt - stop) {
@@ -153,6 +154,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         filti = filt ;
         stop = filt_end - y ;
         srci = src + x - stop * src_stride ;
+        stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
 
         if (stop > 0) {
           if (zeropad) {
@@ -175,7 +177,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = 0 ;
+        v = zeropad ? 0 : *(src + x + (src_height - 1) * src_stride) ;
 
         stop = filt_end - filt_begin + 1 ;
         while (filti > filt - stop) {
-- 
2.43.0


From 1ccef4f8ab06ce3261b835aad0d97cf27a3d10bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:14 +0000
Subject: [PATCH 03/26] fix: right singular vector of a 2x2 triangular matrix
 with a dominant off-diagonal entry

The components of the vector were exchanged, so the factors returned by
vl_lapack_dlasv2 and vl_svd2 were not orthogonal and did not multiply back
to the matrix.
---
 vl/mathop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index 27bd7d4..aab8750 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -767,7 +767,7 @@ vl_lapack_dlasv2 (double *smin,
           *smin = (fa / ga) * ha ; /* 2 ulps */
         }
         cut = 1.0 ; sut = ht / gt ;
-        cvt = 1.0 ; svt = ft / gt ;
+        cvt = ft / gt ; svt = 1.0 ;
       }
     }
 
-- 
2.43.0


From f18331d29f7248da2d1509c8f0fae9a77bbab4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:14 +0000
Subject: [PATCH 04/26] fix: singular value decomposition of a 2x2 matrix whose
 first column is zero

The rotation that makes the matrix triangular was computed as 0/0.
---
 vl/mathop.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index aab8750..c197af0 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -650,8 +650,14 @@ vl_svd2 (double* S, double *U, double *V, double const *M)
   double cu2, su2, cv2, sv2 ;
   double f, g, h ;
   double smin, smax ;
-  cu1 /= norm ;
-  su1 /= norm ;
+  if (norm > 0) {
+    cu1 /= norm ;
+    su1 /= norm ;
+  } else {
+    /* the first column vanishes: the matrix is already triangular */
+    cu1 = 1.0 ;
+    su1 = 0.0 ;
+  }
 
   f = cu1 * m11 + su1 * m21 ;
   g = cu1 * m12 + su1 * m22 ;
-- 
2.43.0


From 89af76bc0834c799e69005da826b23f27b01bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:37 +0000
Subject: [PATCH 05/26] fix: k-means L1 centre update stopped at the first
 dimension when a cluster was empty

---
 vl/kmeans.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index c250ca8..4a203fd 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -941,15 +941,15 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
             }
             numSeenSoFar[c] ++ ;
           }
-          /* restart the centers as required  */
-          for (c = 0 ; c < self->numCenters ; ++c) {
-            if (clusterMasses[c] == 0) {
-              TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
-              vl_uindex x = vl_rand_uindex(rand, numData) ;
-              numRestartedCenters ++ ;
-              for (d = 0 ; d < self->dimension ; ++d) {
-                cpt[d] = data[x * self->dimension + d] ;
-              }
+        }
+        /* restart the centers as required  */
+        for (c = 0 ; c < self->numCenters ; ++c) {
+          if (clusterMasses[c] == 0) {
+            TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
+            vl_uindex x = vl_rand_uindex(rand, numData) ;
+            numRestartedCenters ++ ;
+            for (d = 0 ; d < self->dimension ; ++d) {
+              cpt[d] = data[x * self->dimension + d] ;
             }
           }
         }
@@ -1117,15 +1117,15 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
             }
             numSeenSoFar[c] ++ ;
           }
-          /* restart the centers as required  */
-          for (c = 0 ; c < self->numCenters ; ++c) {
-            if (clusterMasses[c] == 0) {
-              TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
-              vl_uindex x = vl_rand_uindex(rand, numData) ;
-              numRestartedCenters ++ ;
-              for (d = 0 ; d < self->dimension ; ++d) {
-                cpt[d] = data[x * self->dimension + d] ;
-              }
+        }
+        /* restart the centers as required  */
+        for (c = 0 ; c < self->numCenters ; ++c) {
+          if (clusterMasses[c] == 0) {
+            TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
+            vl_uindex x = vl_rand_uindex(rand, numData) ;
+            numRestartedCenters ++ ;
+            for (d = 0 ; d < self->dimension ; ++d) {
+              cpt[d] = data[x * self->dimension + d] ;
             }
           }
         }
-- 
2.43.0


From 1bfa801068de20a00344dd6f0007cfe5eea504a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 06/26] fix: kd-tree search bounds assumed the l2 distance also
 for l1 forests

---
 vl/kdtree.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 889cc7d..e0caf86 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -600,6 +600,7 @@ vl_kdforest_query_recursively (VlKDForestSearcher * searcher,
   double x1 = node->lowerBound ;
   double x2 = node->splitThreshold ;
   double x3 = node->upperBound ;
+  vl_bool isL1 = (searcher->forest->distance == VlDistanceL1) ;
   VlKDForestSearchState * searchState ;
 
   searcher->searchNumRecursions ++ ;
@@ -688,22 +689,24 @@ vl_kdforest_query_recursively (VlKDForestSearcher * searcher,
    *   (---|---] x
    */
 
-  delta = x - x2 ;
-  saveDist = dist + delta*delta ;
+  /* bound the distance of the points beyond the split: it is additive
+   * across dimensions for both the (squared) l2 and the l1 distance */
+  delta = fabs (x - x2) ;
+  saveDist = dist + (isL1 ? delta : delta*delta) ;
 
   if (x <= x2) {
     nextChild = node->lowerChild ;
     saveChild = node->upperChild ;
     if (x <= x1) {
-      delta = x - x1 ;
-      saveDist -= delta*delta ;
+      delta = fabs (x - x1) ;
+      saveDist -= (isL1 ? delta : delta*delta) ;
     }
   } else {
     nextChild = node->upperChild ;
     saveChild = node->lowerChild ;
     if (x > x3) {
-      delta = x - x3 ;
-      saveDist -= delta*delta ;
+      delta = fabs (x - x3) ;
+      saveDist -= (isL1 ? delta : delta*delta) ;
     }
   }
 
-- 
2.43.0


From 7651de5702f5742b29cbfd7f0c0e8878bf80f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:53 +0000
Subject: [PATCH 07/26] fix: integer k-means counters overflowed with more
 centers than data

---
 vl/ikmeans_elkan.tc | 2 +-
 vl/ikmeans_lloyd.tc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index d04c436..a655a39 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -75,7 +75,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_ikmacc_t *l_pt = vl_malloc(sizeof(*l_pt) * N * f->K) ; /* lower bound  */
   vl_ikmacc_t *d_pt = f->inter_dist ; /* half inter clst dist  */
   vl_uint32 *asgn = vl_malloc (sizeof(*asgn) * N) ;
-  vl_uint32 *counts =vl_malloc (sizeof(*counts) * N) ;
+  vl_uint32 *counts =vl_malloc (sizeof(*counts) * f->K) ;
 
   int done = 0 ;
 
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 7119267..5cc5fee 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -36,7 +36,7 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   int err =  0 ;
   vl_uindex iter, i, j, k  ;
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
-  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * N) ;
+  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * f->K) ;
 
   for (iter = 0 ; 1 ; ++ iter) {
     vl_bool done = 1 ;
-- 
2.43.0


From d526351a8bf0c0ab140f25a6850b02bea1be0896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:53 +0000
Subject: [PATCH 08/26] fix: integer k-means compared uninitialized assignments
 in the first iteration

---
 vl/ikmeans_lloyd.tc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 5cc5fee..fed6a61 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -38,6 +38,9 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
   vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * f->K) ;
 
+  /* no point is assigned yet */
+  memset (asgn, 0xff, sizeof(*asgn) * N) ;
+
   for (iter = 0 ; 1 ; ++ iter) {
     vl_bool done = 1 ;
 
-- 
2.43.0


From 6a358d01d107de5fe11dc4e7c9a2df09671232e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 09/26] fix: projecting data down a HIKM tree read past the
 children of an empty node

---
 vl/hikmeans.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index c727208..d509075 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -266,6 +266,8 @@ vl_hikm_push (VlHIKMTree *f, vl_uint32 *asgn, vl_uint8 const *data, vl_size N)
     d = 0 ;
     while (node) {
       vl_uint32 best ;
+      /* a node that received no training data has no centers */
+      if (vl_ikm_get_K (node->filter) == 0) break ;
       vl_ikm_push (node->filter,
                    &best,
                    data + i * M, 1) ;
@@ -274,6 +276,8 @@ vl_hikm_push (VlHIKMTree *f, vl_uint32 *asgn, vl_uint8 const *data, vl_size N)
       if (!node->children) break ;
       node = node->children [best] ;
     }
+    /* complete the paths that end at such a node */
+    for ( ; d < depth ; ++ d) asgn[i * depth + d] = 0 ;
   }
 }
 
-- 
2.43.0


From 51531e26e2d12d74812f6dce340e0a1a075d5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:02 +0000
Subject: [PATCH 10/26] fix: kd-tree construction did not terminate on (nearly)
 equal points with mean splits

---
 vl/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index e0caf86..13bf72f 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -296,7 +296,7 @@ vl_kdtree_build_recursively
        * reasons. In this case, also due to numerical accuracy, the
        * mean value can be smaller, equal, or larger than all
        * points. */
-      if (dataBegin <= splitIndex && splitIndex + 1 < dataEnd) break ;
+      if (dataBegin < splitIndex + 1 && splitIndex + 1 < dataEnd) break ;
 
     case VL_KDTREE_MEDIAN :
       medianIndex = (dataBegin + dataEnd - 1) / 2 ;
-- 
2.43.0


From 1d8ff7b91919d80c0f625a27ade9899c48512b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:59 +0000
Subject: [PATCH 11/26] fix: vl_hog_put_polar_field applied the orientation
 weights twice

---
 vl/hog.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/vl/hog.c b/vl/hog.c
index 0a14875..34a2da0 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -818,8 +818,6 @@ void vl_hog_put_polar_field (VlHog * self,
 
         wx1 *= orientationWeights[o] ;
         wx2 *= orientationWeights[o] ;
-        wy1 *= orientationWeights[o] ;
-        wy2 *= orientationWeights[o] ;
 
         /*VL_PRINTF("%d %d - %d %d %f %f - %f %f %f %f - %d \n ",x,y,binx,biny,hx,hy,wx1,wx2,wy1,wy2,o);*/
 
-- 
2.43.0


From 2475b286a4a04daeb9089200d9ad816ac8f92147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:58 +0000
Subject: [PATCH 12/26] fix: extracting HOG features twice accumulated the cell
 norms

---
 vl/hog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hog.c b/vl/hog.c
index 34a2da0..e8f96b6 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -865,6 +865,7 @@ vl_hog_extract (VlHog * self, float * features)
    cell histogram. The unoriented version is obtained by folding
    the 2*numOrientations compotnent into numOrientations only.
    */
+  memset(self->hogNorm, 0, sizeof(float) * hogStride) ;
   {
     float const * iter = self->hog ;
     for (k = 0 ; k < self->numOrientations ; ++k) {
-- 
2.43.0


From 2e621dabf66f667c451f191cd6e5c7e6bb381bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:49 +0000
Subject: [PATCH 13/26] fix: PGM headers were accepted only if their maximum
 value was out of range

---
 vl/pgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 72110a3..0afb678 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -233,7 +233,7 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-  if(! (max_value >= 65536)) {
+  if(width < 0 || height < 0 || max_value <= 0 || max_value >= 65536) {
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-- 
2.43.0


From bae3b330766fea8ce47d6011f3f01bf0e606d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:49 +0000
Subject: [PATCH 14/26] fix: vl_pgm_read_new freed the caller's pointer and
 closed the file twice on truncated data

---
 vl/pgm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 0afb678..0522242 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -407,6 +407,7 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   }
 
   if (vl_pgm_get_bpp(im) > 1) {
+    fclose (f) ;
     return vl_set_last_error(VL_ERR_BAD_ARG, "PGM with BPP > 1 not supported") ;
   }
 
@@ -414,8 +415,8 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   err = vl_pgm_extract_data(f, im, *data) ;
 
   if (err) {
-    vl_free (data) ;
-    fclose (f) ;
+    vl_free (*data) ;
+    *data = NULL ;
   }
 
   fclose (f) ;
-- 
2.43.0


From 4e5dc9061e84a747e9f8e83b348b3f1f82bcecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:49 +0000
Subject: [PATCH 15/26] fix: a letter d after an ASCII PGM pixel was skipped
 silently

---
 vl/pgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 0522242..3c87351 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -308,7 +308,7 @@ vl_pgm_extract_data (FILE* f, VlPgmImage const *im, void *data)
     for(good = 1, i = 0 ;
         i < data_size && good ;
         ++i) {
-      c = fscanf(f, " %ud", &v) ;
+      c = fscanf(f, " %u", &v) ;
       if (bpp == 1) {
         * ((vl_uint8* )  data + i) = (vl_uint8)  v ;
       } else {
-- 
2.43.0


From 822905ed9ec91b621e41d6b3c610cbbbc82e92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:06 +0000
Subject: [PATCH 16/26] fix: vl_irodrigues returned NaN when rounding made the
 trace exceed 3

---
 vl/rodrigues.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/rodrigues.c b/vl/rodrigues.c
index 14958c9..5456a23 100644
--- a/vl/rodrigues.c
+++ b/vl/rodrigues.c
@@ -200,7 +200,7 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
   const double small = 1e-6 ;
 
   double th = acos
-    (0.5*(VL_MAX(R(0,0)+R(1,1)+R(2,2),-1.0) - 1.0)) ;
+    (0.5*(VL_MIN(VL_MAX(R(0,0)+R(1,1)+R(2,2),-1.0),3.0) - 1.0)) ;
 
   double sth = sin(th) ;
   double cth = cos(th) ;
-- 
2.43.0


From 77c67e3fc39e0b81af03be1726728ad7cf44f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:36 +0000
Subject: [PATCH 17/26] fix: vl_irodrigues returned NaN for half turns about an
 axis with a zero component

---
 vl/rodrigues.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/rodrigues.c b/vl/rodrigues.c
index 5456a23..73a4152 100644
--- a/vl/rodrigues.c
+++ b/vl/rodrigues.c
@@ -233,9 +233,9 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
     W_pt[8] =  0.5*( R(2,2) + R(2,2) ) - 1.0 ;
 
     /* these are only absolute values */
-    x = sqrt( 0.5 * (W(0,0)-W(1,1)-W(2,2)) ) ;
-    y = sqrt( 0.5 * (W(1,1)-W(2,2)-W(0,0)) ) ;
-    z = sqrt( 0.5 * (W(2,2)-W(0,0)-W(1,1)) ) ;
+    x = sqrt( 0.5 * VL_MAX(W(0,0)-W(1,1)-W(2,2),0.0) ) ;
+    y = sqrt( 0.5 * VL_MAX(W(1,1)-W(2,2)-W(0,0),0.0) ) ;
+    z = sqrt( 0.5 * VL_MAX(W(2,2)-W(0,0)-W(1,1),0.0) ) ;
 
     /* set the biggest component to + and use the element of the
     ** matrix W to determine the sign of the other components
-- 
2.43.0


From 75ed365483e3abbd2388dee7280e8af249397d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:02 +0000
Subject: [PATCH 18/26] fix: vl_quickshift_process accumulated the density over
 repeated calls

---
 vl/quickshift.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index 802dbf2..e2c2b75 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -272,6 +272,9 @@ void vl_quickshift_process(VlQS * q)
 
   d = 2 + K ; /* Total dimensions include spatial component (x,y) */
 
+  /* The density is accumulated: start from zero at every call */
+  memset(E, 0, sizeof(vl_qs_type) * N1 * N2) ;
+
   if (q->medoid) { /* n and M are only used in mediod shift */
     M = (vl_qs_type *) vl_calloc(N1*N2*d, sizeof(vl_qs_type)) ;
     n = (vl_qs_type *) vl_calloc(N1*N2,   sizeof(vl_qs_type)) ;
-- 
2.43.0


From 82d48126b64056743604fe1ca29bc2b70675246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:49 +0000
Subject: [PATCH 19/26] fix: vl_scalespacegeometry_is_equal compared the first
 subdivision with the last one

---
 vl/scalespace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 962f285..5cef333 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -343,7 +343,8 @@ vl_scalespacegeometry_is_equal (VlScaleSpaceGeometry a,
   a.firstOctave == b.firstOctave &&
   a.lastOctave == b.lastOctave &&
   a.octaveResolution == b.octaveResolution &&
-  a.octaveFirstSubdivision == b.octaveLastSubdivision &&
+  a.octaveFirstSubdivision == b.octaveFirstSubdivision &&
+  a.octaveLastSubdivision == b.octaveLastSubdivision &&
   a.baseScale == b.baseScale &&
   a.nominalScale == b.nominalScale ;
 }
-- 
2.43.0


From c739693af230787188e653867e47fa556f6cc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:12 +0000
Subject: [PATCH 20/26] fix: down-sampling an odd number of rows wrote a row
 behind the scale space octave

---
 vl/scalespace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 5cef333..d6d3a63 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -510,7 +510,7 @@ copy_and_downsample
   if (numOctaves == 0) {
     memcpy(destination, source, sizeof(float) * width * height) ;
   } else {
-    for(y = 0 ; y < (signed)height ; y += step) {
+    for(y = 0 ; y < (signed)height - ((signed)step - 1) ; y += step) {
       float const *p = source + y * width ;
       for(x = 0 ; x < (signed)width - ((signed)step - 1) ; x += step) {
         *destination++ = *p ;
-- 
2.43.0


From e31f56b69a694fa85694145f3e96cc8bad419210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:30 +0000
Subject: [PATCH 21/26] fix: getopt_long overwrote the argument following --

---
 vl/getopt_long.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index 0e860f3..727c631 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -150,7 +150,6 @@ getopt_long(int argc, char *const argv[],
         place[0] == '-' &&
         place[1] == '\0') {
 
-      optind  = optend ;
       place   = EMSG ;
       ret_val = -1 ;
       goto done_option ;
-- 
2.43.0


From e66b3446427c682942e62d3cc99c4b4723f3bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:30 +0000
Subject: [PATCH 22/26] fix: getopt_long read beyond the end of a single -
 argument

---
 vl/getopt_long.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index 727c631..d6381ac 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -120,8 +120,8 @@ getopt_long(int argc, char *const argv[],
     /* place points to the candidate option */
     place = argv [optbegin] ;
 
-    /* an option is introduced by '-' */
-    if (place [0] != '-') {
+    /* an option is introduced by '-' (a single '-' is not an option) */
+    if (place [0] != '-' || place [1] == '\0') {
       /* this argument is not an option: try next argument */
       ++ optbegin ;
       if (optbegin >= argc) {
-- 
2.43.0


From e2c305552cc564d8cf0b95f18f4e47db3ce002cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:30 +0000
Subject: [PATCH 23/26] fix: dense SIFT lost a part of the gradient with a
 single orientation bin

---
 vl/dsift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 4819a1f..539a295 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -712,8 +712,8 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       rbint = nt - bint ;
 
       /* write it back */
-      self->grads [(bint    ) % self->geom.numBinT][x + y * self->imWidth] = (1 - rbint) * mod ;
-      self->grads [(bint + 1) % self->geom.numBinT][x + y * self->imWidth] = (    rbint) * mod ;
+      self->grads [(bint    ) % self->geom.numBinT][x + y * self->imWidth] += (1 - rbint) * mod ;
+      self->grads [(bint + 1) % self->geom.numBinT][x + y * self->imWidth] += (    rbint) * mod ;
     }
   }
 
-- 
2.43.0


From 40d2954784d875541b861804e6298aebc3dd95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 24/26] fix: SIFT used the gradients of the previous image for
 the same octave

---
 vl/sift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/sift.c b/vl/sift.c
index 03963fe..5660141 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -994,6 +994,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
 
   /* restart from the first */
   f->o_cur = o_min ;
+  f->grad_o = o_min - 1 ; /* the gradients are those of another image */
   f->nkeys = 0 ;
   w = f-> octave_width  = VL_SHIFT_LEFT(f->width,  - f->o_cur) ;
   h = f-> octave_height = VL_SHIFT_LEFT(f->height, - f->o_cur) ;
-- 
2.43.0


From 5842f02a0cc62a8a9d9bf34bbbd8719e476e5c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:15 +0000
Subject: [PATCH 25/26] fix: SIFT scrambled non-square images when the first
 octave is below -1

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index 5660141..2d9b2ea 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1025,7 +1025,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
       copy_and_upsample_rows (temp, octave,
                               width << -o,      height << -o ) ;
       copy_and_upsample_rows (octave, temp,
-                              width << -o, 2 * (height << -o)) ;
+                              height << -o, 2 * (width << -o)) ;
     }
   }
   else if (o_min > 0) {
-- 
2.43.0


From 0b828a7c2b9017469a0fcfd175f5b09e4bc0ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:57 +0000
Subject: [PATCH 26/26] fix: fast_expn read behind its table for the last
 argument of its range

---
 vl/sift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index 2d9b2ea..7cf1ebe 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -670,7 +670,7 @@ Gaussian window size is set to have standard deviation
 
 #define EXPN_SZ  256          /**< ::fast_expn table size @internal */
 #define EXPN_MAX 25.0         /**< ::fast_expn table max  @internal */
-double expn_tab [EXPN_SZ+1] ; /**< ::fast_expn table      @internal */
+double expn_tab [EXPN_SZ+2] ; /**< ::fast_expn table      @internal */
 
 #define NBO 8
 #define NBP 4
@@ -714,7 +714,7 @@ VL_INLINE void
 fast_expn_init ()
 {
   int k  ;
-  for(k = 0 ; k < EXPN_SZ + 1 ; ++ k) {
+  for(k = 0 ; k < EXPN_SZ + 2 ; ++ k) {
     expn_tab [k] = exp (- (double) k * (EXPN_MAX / EXPN_SZ)) ;
   }
 }
-- 
2.43.0


From a4252517460a0e281673138f781f4a718796518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 001/113] fix: scaling a vector with zero must not keep NaN/Inf
 of the old contents

---
 src/blas/mscale.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index c55f6e3..ba4043e 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -34,6 +34,14 @@ void vec_scale(armas_dense_t *X,  const DTYPE alpha, int N)
     register DTYPE *x0;
     register int xinc = X->rows == 1 ? X->step : 1;
 
+    // scaling with zero sets to zero; (uninitialized) old values have no effect.
+    if (alpha == ZERO) {
+        for (i = 0; i < N; i++) {
+            X->elems[i*xinc] = ZERO;
+        }
+        return;
+    }
+
     for (i = 0; i < N-3; i += 4) {
         X->elems[(i+0)*xinc] *= alpha;
         X->elems[(i+1)*xinc] *= alpha;
-- 
2.43.0


From 4f61e616984e92946cb23059024d98c149404c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 002/113] fix: stop recursive trmm/trsm/trm-update at one
 column for any BLAS2MIN

---
 src/blas/trmm_rec.c | 8 ++++----
 src/blas/trsm_rec.c | 8 ++++----
 src/blas/updtrmm.c  | 4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/blas/trmm_rec.c b/src/blas/trmm_rec.c
index 164729e..1230159 100644
--- a/src/blas/trmm_rec.c
+++ b/src/blas/trmm_rec.c
@@ -54,7 +54,7 @@ void mult_left_forward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BT, BB;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_trmm_unb(B, alpha, A, flags);
         return;
     }
@@ -97,7 +97,7 @@ void mult_left_backward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BT, BB;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_trmm_unb(B, alpha, A, flags);
         return;
     }
@@ -142,7 +142,7 @@ void mult_right_forward(
     //int ops;
     //int N = A->cols;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_trmm_unb(B, alpha, A, flags);
         return;
     }
@@ -186,7 +186,7 @@ void mult_right_backward(
     //armas_dense_t b0, b1, a0, a1;
     //int N = A->cols;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_trmm_unb(B, alpha, A, flags);
         return;
     }
diff --git a/src/blas/trsm_rec.c b/src/blas/trsm_rec.c
index d872a38..d4f6909 100644
--- a/src/blas/trsm_rec.c
+++ b/src/blas/trsm_rec.c
@@ -59,7 +59,7 @@ void solve_left_forward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BT, BB;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_solve_unb(B, alpha, A, flags|ARMAS_LEFT);
         return;
     }
@@ -108,7 +108,7 @@ void solve_left_backward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BT, BB;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_solve_unb(B, alpha, A, flags|ARMAS_LEFT);
         return;
     }
@@ -143,7 +143,7 @@ void solve_right_forward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BL, BR;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_solve_unb(B, alpha, A, flags|ARMAS_RIGHT);
         return;
     }
@@ -177,7 +177,7 @@ void solve_right_backward(
 {
     armas_dense_t ATL, ATR, ABL, ABR, BL, BR;
 
-    if (A->cols < min_mblock_size) {
+    if (A->cols < 2 || A->cols < min_mblock_size) {
         armas_solve_unb(B, alpha, A, flags|ARMAS_RIGHT);
         return;
     }
diff --git a/src/blas/updtrmm.c b/src/blas/updtrmm.c
index 64317f1..b554541 100644
--- a/src/blas/updtrmm.c
+++ b/src/blas/updtrmm.c
@@ -118,7 +118,7 @@ void update_upper_recursive(
     // can upper triangular (M == N) or upper trapezoidial (N > M)
     int nb = min(C->rows, C->cols);
 
-    if (nb < min_mblock_size) {
+    if (nb < 2 || nb < min_mblock_size) {
         update_trm_naive(beta, C, alpha, A, B, flags);
         return;
     }
@@ -230,7 +230,7 @@ void update_lower_recursive(
     int nb = min(C->rows, C->cols);
 
     //printf("update_lower_rec: M=%d, N=%d, nb=%d\n", M, N, nb);
-    if (nb < min_mblock_size) {
+    if (nb < 2 || nb < min_mblock_size) {
         update_trm_naive(beta, C, alpha, A, B, flags);
         return;
     }
-- 
2.43.0


From 3c53d25c67a189a6dbfbb297f9172c83154f5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 003/113] fix: recursive upper triangular update must not touch
 a row below the off-diagonal block

---
 src/blas/updtrmm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/updtrmm.c b/src/blas/updtrmm.c
index b554541..9adf461 100644
--- a/src/blas/updtrmm.c
+++ b/src/blas/updtrmm.c
@@ -168,7 +168,7 @@ void update_upper_recursive(
         armas_submatrix_unsafe(&b0, B, 0, nb/2, B->rows, nb-nb/2);
         break;
     }
-    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb-nb/2, nb-nb/2);
+    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb/2, nb-nb/2);
     armas_mult_kernel(beta, &c0, alpha, &a0, &b0, flags, cache);
 
     // lower RIGHT diagonal
-- 
2.43.0


From 3c5ef93545b85850162c90650bac67781196879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 004/113] fix: symm from right must use the cache panel sized
 for its operand

---
 src/blas/symm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blas/symm.c b/src/blas/symm.c
index 1664473..e5d6ab5 100644
--- a/src/blas/symm.c
+++ b/src/blas/symm.c
@@ -46,17 +46,18 @@ void mult_symm_diag(
      * lower/upper part
      */
     if (flags & ARMAS_RIGHT) {
-        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Acpy);
+        // diagonal block of A is the right operand (NB columns), B the left one (MB columns)
+        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Bcpy);
         if (flags & ARMAS_LOWER) {
             CPTRIL_UFILL(&Acpy, A, A->rows, A->cols, unit);
         } else {
             CPTRIU_LFILL(&Acpy, A, A->rows, A->cols, unit);
         }
         if ((flags & ARMAS_TRANSB) != 0) {
-            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Acpy);
             CPBLK(&Bcpy, B, B->rows, B->cols, flags);
         } else {
-            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Acpy);
             CPBLK_TRANS(&Bcpy, B, B->rows, B->cols, flags);
         }
         armas_mult_kernel_inner(C, alpha, &Bcpy, &Acpy, cache->rb);
-- 
2.43.0


From 653354ea134cbc29ce4c56d85525f0a8efbd4b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 005/113] fix: cache block split must fit the buffer and keep
 diagonal blocks within a column

---
 src/base/cache.c | 57 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 7843029..236f9ef 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -150,6 +150,43 @@ void armas_cbuf_free(armas_cbuf_t *cbuf)
     }
 }
 
+/*
+ * Adjust block sizes computed from (user given) ratios to ones usable with
+ * buffer of S items where column of kn items occupies full cache lines.
+ *
+ *   1. kn is non-zero multiple of cache line items
+ *   2. mn and nn are non-zero multiples of 4
+ *   3. mn <= kn and nn <= kn, diagonal blocks (mn-x-mn, nn-x-nn) must fit to column
+ *   4. nc columns of A (mn) and B, dC (nn) fit into buffer; kn*(mn + nc*nn) <= S
+ */
+static
+void adjust_blocks(size_t *mb, size_t *nb, size_t *kb, size_t nc, size_t clp, size_t S)
+{
+    size_t mn = *mb, nn = *nb, kn = *kb;
+
+    kn = kn > clp ? kn - kn % clp : clp;
+    mn = (mn > kn ? kn : mn) & ~0x3;
+    nn = (nn > kn ? kn : nn) & ~0x3;
+    if (mn < 4)
+        mn = 4;
+    if (nn < 4)
+        nn = 4;
+
+    while (kn*(mn + nc*nn) > S) {
+        if (kn > clp && kn - clp >= mn && kn - clp >= nn)
+            kn -= clp;
+        else if (nn > 4 && nn >= mn)
+            nn -= 4;
+        else if (mn > 4)
+            mn -= 4;
+        else
+            break;
+    }
+    *mb = mn;
+    *nb = nn;
+    *kb = kn;
+}
+
 /*
  * Divide buffer with size 'S' bytes to 2 blocks of size 'k*m' and 'k*n' items
  * where item size is 'p' bytes.
@@ -198,7 +235,8 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        mn = nn = 4;
+        kn = CACHELINE/p;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
@@ -211,8 +249,7 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
         nn = (size_t)((double)kn/b);
         mn = (size_t)((double)nn*a);
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
-        nn &= ~0x3;
-        mn &= ~0x3;
+        adjust_blocks(&mn, &nn, &kn, 1, clp, S);
     }
     *mb = mn;
     *nb = nn;
@@ -230,7 +267,7 @@ int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -239,6 +276,8 @@ int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
         kb = 4;
     mb &= ~0x3;
     nb &= ~0x3;
+    if (mb < 4 || nb < 4 || mb > kb || nb > kb)
+        return -1;
     cache->KB = kb;
     cache->MB = mb;
     cache->NB = nb;
@@ -315,7 +354,8 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        mn = nn = 4;
+        kn = CACHELINE/p;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
@@ -332,8 +372,7 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
         nn = (size_t)((double)kn/b);
         mn = (size_t)((double)nn*a);
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
-        nn &= ~0x3;
-        mn &= ~0x3;
+        adjust_blocks(&mn, &nn, &kn, 2, clp, S);
     }
     *mb = mn;
     *nb = nn;
@@ -356,7 +395,7 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + 2*nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -365,6 +404,8 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
         kb = 4;
     mb &= ~0x3;
     nb &= ~0x3;
+    if (mb < 4 || nb < 4 || mb > kb || nb > kb)
+        return -1;
     cache->KB = kb;
     cache->MB = mb;
     cache->NB = nb;
-- 
2.43.0


From 4150e3ab7e558dedb89c800dee7e3630946259f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 006/113] fix: stop recursive vector kernels at one element for
 any BLAS1MIN/BLAS2MIN

---
 src/blas/asum.c  | 2 +-
 src/blas/dot.c   | 2 +-
 src/blas/gemv.c  | 2 +-
 src/blas/ger.c   | 2 +-
 src/blas/syr2.c  | 2 +-
 src/blas/syr2k.c | 4 ++--
 src/blas/trmv.c  | 4 ++--
 src/blas/trsv.c  | 4 ++--
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/blas/asum.c b/src/blas/asum.c
index a1cfd98..e41bb94 100644
--- a/src/blas/asum.c
+++ b/src/blas/asum.c
@@ -112,7 +112,7 @@ DTYPE vec_asum_recursive(const armas_dense_t *X, int n, int min_mvec)
     int n4 = n/4;
     int nn = n - n2 - n4;
 
-    if (n < min_mvec)
+    if (n < 2 || n < min_mvec)
         return vec_asum(X, n);
 
     if (n/2 < min_mvec) {
diff --git a/src/blas/dot.c b/src/blas/dot.c
index 173ad1f..1868477 100644
--- a/src/blas/dot.c
+++ b/src/blas/dot.c
@@ -78,7 +78,7 @@ DTYPE vec_dot_recursive(const armas_dense_t *X, const armas_dense_t *Y, int n, i
     int n4 = n/4;
     int nn = n - n2 - n4;
 
-    if (n < min_mvec_size)
+    if (n < 2 || n < min_mvec_size)
         return vec_dot(X, Y, n);
 
     if (n/2 < min_mvec_size) {
diff --git a/src/blas/gemv.c b/src/blas/gemv.c
index a1dd457..75e4bb2 100644
--- a/src/blas/gemv.c
+++ b/src/blas/gemv.c
@@ -204,7 +204,7 @@ void gemv_recursive(
     int nx = armas_size(X);
 
     // ny is rows in A, Y, nx is cols in A, rows in X
-    if (min_mvec_size == 0 || ny < min_mvec_size || nx < min_mvec_size) {
+    if (min_mvec_size == 0 || ny < 2 || nx < 2 || ny < min_mvec_size || nx < min_mvec_size) {
         gemv_unb(Y, alpha, A, X, flags);
         return;
     }
diff --git a/src/blas/ger.c b/src/blas/ger.c
index 2e9ec47..f93d6d1 100644
--- a/src/blas/ger.c
+++ b/src/blas/ger.c
@@ -170,7 +170,7 @@ void update_ger_recursive(
     armas_dense_t xT, xB, yT, yB;
     armas_dense_t ATL, ATR, ABL, ABR;
 
-    if (A->rows < min_mvec_size || A->cols < min_mvec_size) {
+    if (A->rows < 2 || A->cols < 2 || A->rows < min_mvec_size || A->cols < min_mvec_size) {
         update_ger_unb(beta, A, alpha, X, Y);
         return;
     }
diff --git a/src/blas/syr2.c b/src/blas/syr2.c
index d76464f..e8a86d5 100644
--- a/src/blas/syr2.c
+++ b/src/blas/syr2.c
@@ -77,7 +77,7 @@ void update_syr2_recursive(
     armas_dense_t xT, xB, yT, yB;
     armas_dense_t ATL, ATR, ABL, ABR;
 
-    if (A->rows < min_mvec_size) {
+    if (A->rows < 2 || A->rows < min_mvec_size) {
         update_syr2_unb(beta, A, alpha, X, Y, flags);
         return;
     }
diff --git a/src/blas/syr2k.c b/src/blas/syr2k.c
index ffc72d1..f26807e 100644
--- a/src/blas/syr2k.c
+++ b/src/blas/syr2k.c
@@ -101,7 +101,7 @@ void update_syr2k_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XT, XB, YT, YB;
 
-    if (A->rows < minblock) {
+    if (A->rows < 2 || A->rows < minblock) {
         update_syr2k_unb(beta, A, alpha, X, Y, flags);
         return;
     }
@@ -195,7 +195,7 @@ void update_syr2k_trans_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XL, XR, YL, YR;
 
-    if (A->rows < minblock) {
+    if (A->rows < 2 || A->rows < minblock) {
         update_syr2k_trans_unb(beta, A, alpha, X, Y, flags);
         return;
     }
diff --git a/src/blas/trmv.c b/src/blas/trmv.c
index dbb9e5d..acc67dc 100644
--- a/src/blas/trmv.c
+++ b/src/blas/trmv.c
@@ -197,7 +197,7 @@ void trmv_forward_recursive(
 {
     armas_dense_t ATL, ATR, ABL, ABR, xT, xB;
 
-    if (A->cols < min_mvec_size) {
+    if (A->cols < 2 || A->cols < min_mvec_size) {
         trmv_unb(X, alpha, A, flags);
         return;
     }
@@ -239,7 +239,7 @@ void trmv_backward_recursive(
 {
     armas_dense_t ATL, ATR, ABL, ABR, xT, xB;
 
-    if (A->cols < min_mvec_size) {
+    if (A->cols < 2 || A->cols < min_mvec_size) {
         trmv_unb(X, alpha, A, flags);
         return;
     }
diff --git a/src/blas/trsv.c b/src/blas/trsv.c
index 3a83b50..1b731ec 100644
--- a/src/blas/trsv.c
+++ b/src/blas/trsv.c
@@ -240,7 +240,7 @@ void trsv_forward_recursive(
 {
     armas_dense_t ATL, ATR, ABL, ABR, xT, xB;
 
-    if (A->cols < min_mvec_size) {
+    if (A->cols < 2 || A->cols < min_mvec_size) {
         trsv_unb(X, alpha, A, flags);
         return;
     }
@@ -290,7 +290,7 @@ void trsv_backward_recursive(
 {
     armas_dense_t ATL, ATR, ABL, ABR, xT, xB;
 
-    if (A->cols < min_mvec_size) {
+    if (A->cols < 2 || A->cols < min_mvec_size) {
         trsv_unb(X, alpha, A, flags);
         return;
     }
-- 
2.43.0


From b4c9f62ed9957f2e513afb5ee103b595bf213394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 007/113] fix: matrix-vector product with absolute values must
 start at y(0) and cover all rows

---
 src/blas/gemv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/gemv.c b/src/blas/gemv.c
index 75e4bb2..a25849f 100644
--- a/src/blas/gemv.c
+++ b/src/blas/gemv.c
@@ -79,7 +79,7 @@ void gemv_unb_abs(
 
     // Non-Transposed A here
 
-    y = &Y->elems[yinc];
+    y = &Y->elems[0*yinc];
     for (j = 0; j < A->cols-3; j += 4) {
         x = &X->elems[j*xinc];
         a0 = &A->elems[(j+0)*A->step];
@@ -104,7 +104,7 @@ void gemv_unb_abs(
     if (j < A->cols) {
         x = &X->elems[j*xinc];
         a0 = &A->elems[(j+0)*A->step];
-        vmult1axpy_abs(y, yinc, a0, x, xinc, alpha, A->cols);
+        vmult1axpy_abs(y, yinc, a0, x, xinc, alpha, A->rows);
     }
 }
 
-- 
2.43.0


From 9c6a473a6940c808ea04089955a62efbb91c55cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 008/113] fix: stop recursive triangular vector update at one
 element for any BLAS2MIN

---
 src/blas/updtrmv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/updtrmv.c b/src/blas/updtrmv.c
index f644f98..b58820e 100644
--- a/src/blas/updtrmv.c
+++ b/src/blas/updtrmv.c
@@ -77,7 +77,7 @@ void update_trmv_recursive(
     armas_dense_t xT, xB, yT, yB;
     armas_dense_t ATL, ATR, ABL, ABR;
 
-    if (min_mvec_size <= 0 ||
+    if (min_mvec_size < 2 ||
         A->rows < min_mvec_size || A->cols < min_mvec_size) {
         update_trmv_unb(beta, A, alpha, X, Y, flags);
         return;
-- 
2.43.0


From 048ad801ea506ff01deda20a747701dc62c2c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 009/113] fix: recursive triangular solve must scale right hand
 side with alpha once

---
 src/blas/trsm_rec.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/blas/trsm_rec.c b/src/blas/trsm_rec.c
index d4f6909..850809c 100644
--- a/src/blas/trsm_rec.c
+++ b/src/blas/trsm_rec.c
@@ -73,11 +73,11 @@ void solve_left_forward(
 
     solve_left_forward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
     } else {
-        armas_mult_kernel_nc(&BB, -ONE, &ABL, &BT, 0, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ABL, &BT, 0, cache);
     }
-    solve_left_forward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_left_forward(&BB, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 
@@ -121,11 +121,11 @@ void solve_left_backward(
 
     solve_left_backward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BT, -ONE, &ATR, &BB, 0, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ATR, &BB, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
     }
-    solve_left_backward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_left_backward(&BT, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 
@@ -156,11 +156,11 @@ void solve_right_forward(
 
     solve_right_forward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ATR, 0, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ATR, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
     }
-    solve_right_forward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_right_forward(&BR, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 /*
@@ -190,11 +190,11 @@ void solve_right_backward(
 
     solve_right_backward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
     } else {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ABL, 0, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ABL, 0, cache);
     }
-    solve_right_backward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_right_backward(&BL, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 void armas_solve_recursive(
-- 
2.43.0


From 865b91883ad5b3d32d931f5438113adb87be738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 010/113] fix: rank-2k update with zero beta must not read old
 diagonal

---
 src/blas/syr2k.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blas/syr2k.c b/src/blas/syr2k.c
index f26807e..9aa12c3 100644
--- a/src/blas/syr2k.c
+++ b/src/blas/syr2k.c
@@ -66,7 +66,8 @@ void update_syr2k_unb(
         // -------------------------------------------------------------------
         ak = ZERO;
         armas_adot_unsafe(&ak, 2.0*alpha, &x1, &y1);
-        ak += armas_get_unsafe(&a11, 0, 0) * beta;
+        if (beta != ZERO)
+            ak += armas_get_unsafe(&a11, 0, 0) * beta;
         armas_set_unsafe(&a11, 0, 0, ak);
         if (flags & ARMAS_UPPER) {
             armas_mvmult_unsafe(beta, &a01, alpha, &Y0, &x1, 0);
@@ -161,7 +162,8 @@ void update_syr2k_trans_unb(
         // -------------------------------------------------------------------
         ak = ZERO;
         armas_adot_unsafe(&ak, 2.0*alpha, &x1, &y1);
-        ak += armas_get_unsafe(&a11, 0, 0) * beta;
+        if (beta != ZERO)
+            ak += armas_get_unsafe(&a11, 0, 0) * beta;
         armas_set_unsafe(&a11, 0, 0, ak);
         if (flags & ARMAS_UPPER) {
             armas_mvmult_unsafe(beta, &a01, alpha, &Y0, &x1, ARMAS_TRANS);
-- 
2.43.0


From bd4900ecbe51d8fcdffefd4c9447123ae34d3310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 011/113] fix: releasing an accelerator must release its
 scheduler

---
 src/workers/entry.c     | 1 +
 src/workers/scheduler.h | 2 +-
 src/workers/workers.c   | 3 +++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/workers/entry.c b/src/workers/entry.c
index 2373db6..318d219 100644
--- a/src/workers/entry.c
+++ b/src/workers/entry.c
@@ -64,6 +64,7 @@ int armas_ac_workers_release(void *private)
     if (!scheduler)
         return 0;
     armas_sched_stop(scheduler);
+    armas_sched_release(scheduler);
     return 0;
 }
 
diff --git a/src/workers/scheduler.h b/src/workers/scheduler.h
index da41787..788af8b 100644
--- a/src/workers/scheduler.h
+++ b/src/workers/scheduler.h
@@ -70,7 +70,7 @@ void armas_sched_release(struct armas_ac_scheduler *sc)
 {
     if (!sc || !sc->vptr->release)
         return;
-    (sc->vptr->start)(sc);
+    (sc->vptr->release)(sc);
 }
 
 static inline
diff --git a/src/workers/workers.c b/src/workers/workers.c
index ecc09b5..92fb526 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -183,6 +183,9 @@ int sched_workers_release(struct armas_ac_scheduler *sc)
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     if (!sched || sched->status)
         return -1;
+    for (int i = 0; i < sched->nworker; i++) {
+        taskq_release(&sched->workers[i].inqueue);
+    }
     free(sched);
     return 0;
 }
-- 
2.43.0


From cf000291dc243db4a417727d791a6745b384f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 012/113] fix: stopping workers must not race with their start
 and must not join threads never created

---
 src/workers/workers.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index 92fb526..d66ac25 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -39,7 +39,6 @@ typedef struct armas_ac_worker {
     struct armas_ac_queue inqueue;
     unsigned int id;
     int cpuid;
-    int running;
     pthread_t tid;
     int nsched;
     int nexec;
@@ -66,7 +65,6 @@ void worker_init(
     W->id = id;
     W->cpuid = -1;
     taskq_init(&W->inqueue, sz);
-    W->running = 0;
     W->tid = 0;
     W->nsched = 0;
     W->nexec = 0;
@@ -83,11 +81,11 @@ void *worker_thread(void *arg)
 
     armas_cbuf_create_thread_global();
 
-    W->running = 1;
-    while (W->running) {
+    while (1) {
         taskq_read(&W->inqueue, (void **)&T);
         if (!T) {
-            continue;
+            // stop request
+            break;
         }
         W->nsched++;
 
@@ -166,8 +164,9 @@ static
 int sched_workers_stop(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
+    if (!sched->status)
+        return 0;
     for (int i = 0; i < sched->nworker; i++) {
-        sched->workers[i].running = 0;
         taskq_write(&sched->workers[i].inqueue, NULL);
     }
     for (int i = 0; i < sched->nworker; i++) {
-- 
2.43.0


From 6403cd01143379d7b93d4c116e6fa5b23b2718b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 013/113] fix: waiting for the task counter must survive
 spurious wake-ups

---
 src/workers/counter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workers/counter.h b/src/workers/counter.h
index dc46337..f8096df 100644
--- a/src/workers/counter.h
+++ b/src/workers/counter.h
@@ -37,7 +37,7 @@ static inline
 void armas_counter_wait(struct armas_ac_counter *c)
 {
     pthread_mutex_lock(&c->lock);
-    if (c->count != 0) {
+    while (c->count != 0) {
         pthread_cond_wait(&c->ready, &c->lock);
     }
     pthread_mutex_unlock(&c->lock);
-- 
2.43.0


From 6af7ef87b5ac4a752a6166c0551e9225fa03140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 014/113] fix: removing from a full task queue must wake
 writers waiting for space

---
 src/workers/queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/workers/queue.h b/src/workers/queue.h
index 76c8508..91b4886 100644
--- a/src/workers/queue.h
+++ b/src/workers/queue.h
@@ -129,9 +129,9 @@ int taskq_dequeue_nowait(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
@@ -147,9 +147,9 @@ int taskq_dequeue(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
-- 
2.43.0


From e2302b4a9dc777842cc96d8205242db6a09c548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 015/113] fix: wait until no worker refers to a task instead of
 aborting (two choice scheduling)

---
 src/workers/gemm.c    |  7 ++++---
 src/workers/workers.h | 11 +++--------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 626c7b8..bc96047 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -217,9 +217,10 @@ int armas_ac_workers_mult(
 
     // wait for tasks to finish
     armas_counter_wait(&ready);
-    // verify that task worker count is zero on all tasks
-    int refcnt = worker_all_ready(tasks, ntask);
-    assert(refcnt == 0);
+    // a task may still be in queue of another worker; wait until no worker refers to any task
+    while (worker_all_ready(tasks, ntask) != 0) {
+        sched_yield();
+    }
     // release task memory
     free(tasks);
     return 0;
diff --git a/src/workers/workers.h b/src/workers/workers.h
index 550eb36..e568e94 100644
--- a/src/workers/workers.h
+++ b/src/workers/workers.h
@@ -40,14 +40,9 @@ int worker_tiles(int *nrow, int *ncol, int M, int N, int wb)
 static inline
 int worker_all_ready(struct armas_ac_worker_task *tasks, int ntask)
 {
-    int refcount;
-    for (int k = 0; k < 50; k++) {
-        refcount = 0;
-        for (int i = 0; i < ntask; i++) {
-            refcount += tasks[i].task.wcnt;
-        }
-        if (refcount == 0)
-            break;
+    int refcount = 0;
+    for (int i = 0; i < ntask; i++) {
+        refcount += __atomic_load_n(&tasks[i].task.wcnt, __ATOMIC_ACQUIRE);
     }
     return refcount;
 }
-- 
2.43.0


From 66725dca82c0955baaafcf060ea95fdea346fc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 016/113] fix: threaded operations must report errors of all
 blocks and survive failing thread creation

---
 src/threaded/gemm.c | 21 ++++++++++++++-------
 src/threaded/symm.c | 20 ++++++++++++++------
 src/threaded/trmm.c | 20 ++++++++++++++------
 src/threaded/trsm.c | 20 ++++++++++++++------
 4 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 12eeb1b..57dd314 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -97,7 +97,7 @@ int threaded_mult_recursive(
     struct armas_ac_blas3 *blas,
     armas_conf_t *cf)
 {
-    int err;
+    int err, created = 1;
     pthread_t th;
     struct armas_ac_block args;
 
@@ -123,19 +123,26 @@ int threaded_mult_recursive(
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
     //printf("create thread %d\n", thread);
-    err = pthread_create(&th, NULL, compute_block, &args);
-    if (err) {
-        cf->error = -err;
-        return -1;
+    if (pthread_create(&th, NULL, compute_block, &args) != 0) {
+        // no thread available; compute this block in current thread
+        args.is_last = 1;
+        compute_block(&args);
+        created = 0;
     }
     err = threaded_mult_recursive(thread+1, nthreads, blas, cf);
 
-    //printf("wait thread %d\n", thread);
-    pthread_join(th, NULL);
+    if (created)
+        pthread_join(th, NULL);
+    if (args.error) {
+        cf->error = args.error;
+        err = -args.error;
+    }
     return err;
 }
 
diff --git a/src/threaded/symm.c b/src/threaded/symm.c
index 0a0937b..6025dbf 100644
--- a/src/threaded/symm.c
+++ b/src/threaded/symm.c
@@ -94,7 +94,7 @@ int threaded_mult_sym_recursive(
     struct armas_ac_blas3 *blas,
     armas_conf_t *cf)
 {
-    int err;
+    int err, created = 1;
     pthread_t th;
     struct armas_ac_block args;
 
@@ -119,18 +119,26 @@ int threaded_mult_sym_recursive(
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
-    err = pthread_create(&th, NULL, compute_block, &args);
-    if (err) {
-        cf->error = -err;
-        return -1;
+    if (pthread_create(&th, NULL, compute_block, &args) != 0) {
+        // no thread available; compute this block in current thread
+        args.is_last = 1;
+        compute_block(&args);
+        created = 0;
     }
 
     err = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);
 
-    pthread_join(th, NULL);
+    if (created)
+        pthread_join(th, NULL);
+    if (args.error) {
+        cf->error = args.error;
+        err = -args.error;
+    }
     return err;
 }
 
diff --git a/src/threaded/trmm.c b/src/threaded/trmm.c
index 8cbd668..c76255c 100644
--- a/src/threaded/trmm.c
+++ b/src/threaded/trmm.c
@@ -75,7 +75,7 @@ void *compute_block(void *argptr)
 static
 int threaded_mult_trm_recursive(int thread, int nthreads, struct armas_ac_blas3 *blas, armas_conf_t *cf)
 {
-    int err;
+    int err, created = 1;
     pthread_t th;
     struct armas_ac_block args;
 
@@ -101,17 +101,25 @@ int threaded_mult_trm_recursive(int thread, int nthreads, struct armas_ac_blas3
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
-    err = pthread_create(&th, NULL, compute_block, &args);
-    if (err) {
-        cf->error = -err;
-        return -1;
+    if (pthread_create(&th, NULL, compute_block, &args) != 0) {
+        // no thread available; compute this block in current thread
+        args.is_last = 1;
+        compute_block(&args);
+        created = 0;
     }
     err = threaded_mult_trm_recursive(thread+1, nthreads, blas, cf);
 
-    pthread_join(th, NULL);
+    if (created)
+        pthread_join(th, NULL);
+    if (args.error) {
+        cf->error = args.error;
+        err = -args.error;
+    }
     return err;
 }
 
diff --git a/src/threaded/trsm.c b/src/threaded/trsm.c
index eb11679..5e27a0c 100644
--- a/src/threaded/trsm.c
+++ b/src/threaded/trsm.c
@@ -75,7 +75,7 @@ int threaded_solve_trm_recursive(
     struct armas_ac_blas3 *blas,
     armas_conf_t *cf)
 {
-    int err;
+    int err, created = 1;
     pthread_t th;
     struct armas_ac_block args;
 
@@ -101,17 +101,25 @@ int threaded_solve_trm_recursive(
     /* last block directly in main thread. */
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
-    err = pthread_create(&th, NULL, compute_block, &args);
-    if (err) {
-        cf->error = -err;
-        return -1;
+    if (pthread_create(&th, NULL, compute_block, &args) != 0) {
+        // no thread available; compute this block in current thread
+        args.is_last = 1;
+        compute_block(&args);
+        created = 0;
     }
     err = threaded_solve_trm_recursive(thread+1, nthreads, blas, cf);
 
-    pthread_join(th, NULL);
+    if (created)
+        pthread_join(th, NULL);
+    if (args.error) {
+        cf->error = args.error;
+        err = -args.error;
+    }
     return err;
 }
 
-- 
2.43.0


From fa7636d7bf4124b172f282d34f3d38d8f463531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 017/113] fix: threaded matrix multiply must release cache
 buffers of its helper threads

---
 src/threaded/gemm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 57dd314..9a3ca5b 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -86,6 +86,9 @@ void *compute_block(void *argptr)
     armas_mult_kernel(blas->beta, &C,
                         blas->alpha, &A, &B, blas->flags, &cache);
 
+    /* Last block is computed in main thread. Do not release thread global resources. */
+    if (!args->is_last)
+        armas_cbuf_release_thread_global();
     return (void *)0;
 }
 
-- 
2.43.0


From 11397d283dce9f66ba15801aac01653f181b4777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 018/113] fix: workers must compute in calling thread when
 worker threads cannot be created

---
 src/workers/gemm.c    | 16 ++++++++++++++--
 src/workers/workers.c | 35 +++++++++++++++++++++++------------
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index bc96047..e2d9f6c 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -111,6 +111,18 @@ void armas_ac_define_block(
     }
 }
 
+static
+void schedule_task(
+    struct armas_ac_scheduler *scheduler,
+    struct armas_ac_task *task)
+{
+    if (armas_sched_schedule(scheduler, task) < 0) {
+        // no workers available; compute in current thread
+        (task->func)(task->args);
+        armas_counter_decrement(task->ready);
+    }
+}
+
 static
 void schedule_blocks(
     struct armas_ac_blas3 *args,
@@ -133,7 +145,7 @@ void schedule_blocks(
         blkargs->is_last = k + 1 == ntask;
 
         armas_task_init(&tasks[k].task, k, compute_block, blkargs, ready);
-        armas_sched_schedule(scheduler, &tasks[k]);
+        schedule_task(scheduler, &tasks[k].task);
     }
 }
 
@@ -171,7 +183,7 @@ void schedule_tiles(
             blkargs->block_index = k;
             blkargs->is_last = k + 1 == ntask;
             armas_task_init(&tasks[k].task, k, compute_block, blkargs, ready);
-            armas_sched_schedule(scheduler, &tasks[k]);
+            schedule_task(scheduler, &tasks[k].task);
             k++;
         }
     }
diff --git a/src/workers/workers.c b/src/workers/workers.c
index d66ac25..427df65 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -108,10 +108,11 @@ void *worker_thread(void *arg)
 }
 
 static
-void worker_start(struct armas_ac_worker *W)
+int worker_start(struct armas_ac_worker *W)
 {
     cpu_set_t cpuset;
-    pthread_create(&W->tid, NULL, worker_thread, W);
+    if (pthread_create(&W->tid, NULL, worker_thread, W) != 0)
+        return -1;
     if (W->cpuid != -1) {
         // set cpu affinity
         CPU_ZERO(&cpuset);
@@ -119,7 +120,7 @@ void worker_start(struct armas_ac_worker *W)
         //printf(".. set worker %d affinity to cpu %d\n", W->id, W->cpuid);
         pthread_setaffinity_np(W->tid, sizeof(cpuset), &cpuset);
     }
-    return;
+    return 0;
 }
 
 static inline
@@ -149,12 +150,27 @@ int armas_nth_cpu(cpu_set_t *cpus, int n)
     return k == CPU_SETSIZE ? -1 : k;
 }
 
+static
+void workers_join(struct armas_ac_sched_workers *sched, int nworker)
+{
+    for (int i = 0; i < nworker; i++) {
+        taskq_write(&sched->workers[i].inqueue, NULL);
+    }
+    for (int i = 0; i < nworker; i++) {
+        pthread_join(sched->workers[i].tid, (void **)0);
+    }
+}
+
 static
 int sched_workers_start(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     for (int i = 0; i < sched->nworker; i++) {
-        worker_start(&sched->workers[i]);
+        if (worker_start(&sched->workers[i]) < 0) {
+            // all or nothing; stop the ones already started
+            workers_join(sched, i);
+            return -ARMAS_EIMP;
+        }
     }
     sched->status = 1;
     return 0;
@@ -166,12 +182,7 @@ int sched_workers_stop(struct armas_ac_scheduler *sc)
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     if (!sched->status)
         return 0;
-    for (int i = 0; i < sched->nworker; i++) {
-        taskq_write(&sched->workers[i].inqueue, NULL);
-    }
-    for (int i = 0; i < sched->nworker; i++) {
-        pthread_join(sched->workers[i].tid, (void **)0);
-    }
+    workers_join(sched, sched->nworker);
     sched->status = 0;
     return 0;
 }
@@ -196,8 +207,8 @@ int sched_workers_schedule(struct armas_ac_scheduler *sc, void *t)
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
-    if (!sched->status) {
-        armas_sched_start(sc);
+    if (!sched->status && armas_sched_start(sc) < 0) {
+        return -1;
     }
 
     // scheduling ARMAS_SCHED_WORKERS, write directly to worker queues.
-- 
2.43.0


From f529b7c54fa3507ca156a72595336b177a3769aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 019/113] fix: workers must report failing memory allocations

---
 src/workers/gemm.c    | 13 ++++++++++++-
 src/workers/workers.c | 11 ++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index e2d9f6c..e71bd9b 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -78,6 +78,10 @@ void *compute_block(void *argptr)
     }
     cache_t cache;
     struct armas_cbuf *cbuf = armas_cbuf_create_thread_global();
+    if (!cbuf) {
+        args->error = ARMAS_EMEMORY;
+        return (void *)0;
+    }
     armas_env_t *env = armas_getenv();
     armas_cache_setup2(&cache, cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
 
@@ -233,9 +237,16 @@ int armas_ac_workers_mult(
     while (worker_all_ready(tasks, ntask) != 0) {
         sched_yield();
     }
+    int err = 0;
+    for (size_t k = 0; k < ntask; k++) {
+        if (tasks[k].args.error)
+            err = tasks[k].args.error;
+    }
     // release task memory
     free(tasks);
-    return 0;
+    if (err)
+        cf->error = err;
+    return -err;
 }
 #else
 #warning "Missing defines. No code!"
diff --git a/src/workers/workers.c b/src/workers/workers.c
index 427df65..d4bcadf 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -59,18 +59,18 @@ typedef struct armas_ac_sched_workers {
 } armas_scheduler_t;
 
 static inline
-void worker_init(
+int worker_init(
     armas_ac_worker_t *W, unsigned long id, unsigned int sz, struct armas_ac_sched_workers *sched)
 {
     W->id = id;
     W->cpuid = -1;
-    taskq_init(&W->inqueue, sz);
     W->tid = 0;
     W->nsched = 0;
     W->nexec = 0;
     W->sched = (struct armas_ac_scheduler *)sched;
     W->cmem = 0;
     W->l1mem = 0;
+    return taskq_init(&W->inqueue, sz);
 }
 
 static
@@ -278,7 +278,12 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
     last_cpu = -1;
 
     for (int i = 0; i < sc->nworker; i++) {
-        worker_init(&sc->workers[i], i+1, qlen, sc);
+        if (worker_init(&sc->workers[i], i+1, qlen, sc) < 0) {
+            while (--i >= 0)
+                taskq_release(&sc->workers[i].inqueue);
+            free(sc);
+            return -ARMAS_EMEMORY;
+        }
         // pick up next cpu from list available cpus
         last_cpu = next_cpu_in_set(&sc->cpus, last_cpu);
         sc->workers[i].cpuid = last_cpu;
-- 
2.43.0


From bdbec45a101778724d1f8ab95d7479b4056600f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 020/113] fix: transient workers must not lose tasks, exceed
 their number or outlive the scheduler

---
 src/workers/transient.c | 50 ++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/workers/transient.c b/src/workers/transient.c
index 0c64764..7dcd128 100644
--- a/src/workers/transient.c
+++ b/src/workers/transient.c
@@ -29,20 +29,18 @@
 #include "scheduler.h"
 #include "workers.h"
 
-#define cmpxchg(P, O, N) __sync_val_compare_and_swap((P), (O), (N))
-#define atomic_dec(P) __sync_sub_and_fetch((P), 1)
-#define atomic_inc(P) __sync_add_and_fetch((P), 1)
-
 struct armas_ac_sched_transient;
 
 struct armas_ac_thread {
     pthread_t tid;
     struct armas_ac_sched_transient *sched;
-    int running;
+    int running;    // thread is executing tasks
+    int joinable;   // thread has been created but not joined yet
 };
 
 struct armas_ac_sched_transient {
     struct armas_ac_scheduler sched;
+    pthread_mutex_t lock;   // protects nrunning and state of threads
     struct armas_ac_queue task_queue;
     struct armas_ac_thread *threads;
     unsigned int options;
@@ -61,17 +59,21 @@ void *transient_thread(void *arg)
     armas_cbuf_create_thread_global();
 
     while (1) {
-        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0)
+        // Observing empty queue and retiring must be one step for the scheduler
+        pthread_mutex_lock(&sc->lock);
+        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0) {
+            self->running = 0;
+            sc->nrunning--;
+            pthread_mutex_unlock(&sc->lock);
             break;
+        }
+        pthread_mutex_unlock(&sc->lock);
 
         (T->func)(T->args);
         armas_counter_decrement(T->ready);
     }
 
     armas_cbuf_release_thread_global();
-
-    cmpxchg(&self->running, 1, 0);
-    atomic_dec(&sc->nrunning);
     return (void *)0;
 }
 
@@ -86,6 +88,13 @@ int sched_transient_start(struct armas_ac_scheduler *sc)
 static
 int sched_transient_stop(struct armas_ac_scheduler *sc)
 {
+    struct armas_ac_sched_transient *sched = (struct armas_ac_sched_transient *)sc;
+    for (size_t k = 0; k < sched->nworker; k++) {
+        if (sched->threads[k].joinable) {
+            pthread_join(sched->threads[k].tid, (void **)0);
+            sched->threads[k].joinable = 0;
+        }
+    }
     return 0;
 }
 
@@ -109,14 +118,32 @@ int sched_transient_schedule(struct armas_ac_scheduler *sc, void *t)
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
     taskq_enqueue(&sched->task_queue, task, 1);
+
+    pthread_mutex_lock(&sched->lock);
     if (sched->nrunning < sched->nworker) {
         for (k = 0; k < sched->nworker && sched->threads[k].running; k++);
 
+        // thread of this slot is not executing tasks any more
+        if (sched->threads[k].joinable)
+            pthread_join(sched->threads[k].tid, (void **)0);
+
         sched->threads[k].running = 1;
+        sched->threads[k].joinable = 1;
         sched->threads[k].sched = sched;
-        pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]);
-        atomic_inc(&sched->nrunning);
+        sched->nrunning++;
+        if (pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]) != 0) {
+            sched->threads[k].running = 0;
+            sched->threads[k].joinable = 0;
+            sched->nrunning--;
+        }
+    }
+    // nobody to run the task; execute in current thread
+    while (sched->nrunning == 0 &&
+           taskq_dequeue_nowait(&sched->task_queue, (void **)&task, 1) == 0) {
+        (task->func)(task->args);
+        armas_counter_decrement(task->ready);
     }
+    pthread_mutex_unlock(&sched->lock);
     return 0;
 }
 
@@ -142,6 +169,7 @@ int armas_ac_sched_transient_init(struct armas_ac_scheduler **scheduler, int qle
         free(sc);
         return -ARMAS_EMEMORY;
     }
+    pthread_mutex_init(&sc->lock, NULL);
     buf = (unsigned char *)sc;
     sc->threads = (struct armas_ac_thread *)&buf[sizeof(struct armas_ac_sched_transient)];
     sc->nworker = env->max_cores;
-- 
2.43.0


From f54d891b058ddd8aa6bc8cf755e41b38c587fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 021/113] fix: threads sharing an accelerator must not start
 its workers twice

---
 src/workers/workers.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index d4bcadf..e6e543d 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -48,6 +48,7 @@ typedef struct armas_ac_worker {
 
 typedef struct armas_ac_sched_workers {
     struct armas_ac_scheduler sched;
+    pthread_mutex_t lock;       // serializes callers of schedule
     struct armas_ac_worker *workers;
     cpu_set_t cpus;
     pthread_t tid;
@@ -201,7 +202,7 @@ int sched_workers_release(struct armas_ac_scheduler *sc)
 }
 
 static
-int sched_workers_schedule(struct armas_ac_scheduler *sc, void *t)
+int workers_schedule(struct armas_ac_scheduler *sc, void *t)
 {
     unsigned int k, j;
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
@@ -251,6 +252,16 @@ int sched_workers_schedule(struct armas_ac_scheduler *sc, void *t)
     return 0;
 }
 
+static
+int sched_workers_schedule(struct armas_ac_scheduler *sc, void *t)
+{
+    struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
+    pthread_mutex_lock(&sched->lock);
+    int rc = workers_schedule(sc, t);
+    pthread_mutex_unlock(&sched->lock);
+    return rc;
+}
+
 static struct armas_ac_scheduler_ops ops = {
     .start =  sched_workers_start,
     .stop = sched_workers_stop,
@@ -271,6 +282,7 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
     if (!sc)
         return -ARMAS_EMEMORY;
 
+    pthread_mutex_init(&sc->lock, NULL);
     buf = (unsigned char *)sc;
     sc->workers = (struct armas_ac_worker *)&buf[sizeof(struct armas_ac_sched_workers)];
     sc->nworker = env->max_cores;
-- 
2.43.0


From ad0c46d18a336b0f2ffff2df5cdff864bc9a6146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 022/113] fix: read environment once and without changing it

---
 src/base/accel.c | 21 +++++++++++++++------
 src/base/env.c   | 22 +++++++++++++++-------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index 98e4543..f78ad08 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -11,6 +11,8 @@
 #include <stdio.h>
 #include <ctype.h>
 #include <sched.h>
+#include <stdlib.h>
+#include <pthread.h>
 
 #include "armas.h"
 #include "accel.h"
@@ -215,10 +217,12 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
 void armas_ac_read_env(struct armas_ac_env *env)
 {
     int n, val;
-    char *tok, *cstr;
+    char *tok, *cstr, *copy;
 
     env->max_cores = sysconf(_SC_NPROCESSORS_ONLN);
+    // parse copy of the string; strings from getenv must not be changed
     cstr = getenv(ENV_ARMAS_AC_CONFIG);
+    cstr = copy = cstr ? strdup(cstr) : NULL;
     CPU_ZERO(&env->cpus);
 
     /* parse string:
@@ -244,6 +248,7 @@ void armas_ac_read_env(struct armas_ac_env *env)
             break;
         }
     }
+    free(copy);
 }
 
 static struct armas_ac_env env = {
@@ -253,16 +258,20 @@ static struct armas_ac_env env = {
     .options = 0,
 };
 
+static pthread_once_t env_once = PTHREAD_ONCE_INIT;
+
+static
+void init_env()
+{
+    armas_ac_read_env(&env);
+}
+
 /**
  * @brief Get accelerator environment.
  */
 struct armas_ac_env *armas_ac_getenv()
 {
-    static int initialized = 0;
-    if (!initialized) {
-        armas_ac_read_env(&env);
-        initialized = 1;
-    }
+    pthread_once(&env_once, init_env);
     return &env;
 }
 //! @}
diff --git a/src/base/env.c b/src/base/env.c
index 07150c0..c362b0e 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -10,6 +10,7 @@
 #include <string.h>
 #include <math.h>
 #include <ctype.h>
+#include <pthread.h>
 
 #include "armas.h"
 
@@ -50,7 +51,7 @@ static struct armas_conf __default_conf = {
     .residual = 0.0       // last residual computed (output)
 };
 
-static int has_read_environment = 0;
+static pthread_once_t read_environment_once = PTHREAD_ONCE_INIT;
 
 
 #ifndef ENV_ARMAS_CONFIG
@@ -64,15 +65,14 @@ static int has_read_environment = 0;
 #endif
 
 static
-void armas_read_environment()
+void read_environment()
 {
-    char *cstr, *tok;
+    char *copy, *cstr, *tok;
     int n, val;
 
-    if (has_read_environment)
-        return;
-
+    // parse copy of the string; strings from getenv must not be changed
     cstr = getenv(ENV_ARMAS_CONFIG);
+    cstr = copy = cstr ? strdup(cstr) : NULL;
     // parse string: "MB,NB,KB,LB,BLAS1MIN,BLAS2MIN,ISFIXED"
     for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
         val = atoi(tok);
@@ -108,8 +108,11 @@ void armas_read_environment()
         }
     }
 
+    free(copy);
+
     // get cache memory size; L2MEM,L1MEM
     cstr = getenv(ENV_ARMAS_CACHE);
+    cstr = copy = cstr ? strdup(cstr) : NULL;
     if (cstr) {
         char *endptr;
         size_t val;
@@ -140,8 +143,13 @@ void armas_read_environment()
             }
         }
     }
+    free(copy);
+}
 
-    has_read_environment = 1;
+static
+void armas_read_environment()
+{
+    pthread_once(&read_environment_once, read_environment);
 }
 
 /**
-- 
2.43.0


From 7b999692bbb52f646dde0ee2b1229015cbec3a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 023/113] fix: threaded matrix multiply must slice conjugate
 transposed operands as transposed

---
 src/threaded/gemm.c | 9 ++++++++-
 src/workers/gemm.c  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 9a3ca5b..c183a20 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -47,7 +47,14 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    /* Conjugate transpose is same as transpose for real valued operands. */
+    int trans = 0;
+    if (blas->flags & (ARMAS_TRANSA | ARMAS_CTRANSA))
+        trans |= ARMAS_TRANSA;
+    if (blas->flags & (ARMAS_TRANSB | ARMAS_CTRANSB))
+        trans |= ARMAS_TRANSB;
+
+    switch (trans) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index e71bd9b..f56dbd3 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -50,7 +50,14 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    /* Conjugate transpose is same as transpose for real valued operands. */
+    int trans = 0;
+    if (blas->flags & (ARMAS_TRANSA | ARMAS_CTRANSA))
+        trans |= ARMAS_TRANSA;
+    if (blas->flags & (ARMAS_TRANSB | ARMAS_CTRANSB))
+        trans |= ARMAS_TRANSB;
+
+    switch (trans) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
-- 
2.43.0


From e11a48ae337de1b6ddfd3ab94c0c8cf6e5c6fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 024/113] fix: stop recursive symmetric matrix-vector product
 at one element for any BLAS2MIN

---
 src/blas/symv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/symv.c b/src/blas/symv.c
index 7127587..a1b7c30 100644
--- a/src/blas/symv.c
+++ b/src/blas/symv.c
@@ -118,7 +118,7 @@ void symv_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     int N = armas_size(Y);
 
-    if (N < blas2min) {
+    if (N < 2 || N < blas2min) {
         symv_unb(Y, alpha, A, X, flags);
         return;
     }
-- 
2.43.0


From 9f171b8ea2902b012a504960eb630b693f25a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 025/113] fix: recursive trapezoidal rank update must keep the
 diagonal in diagonal blocks

---
 src/blas/updtrmv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blas/updtrmv.c b/src/blas/updtrmv.c
index b58820e..1bb5d88 100644
--- a/src/blas/updtrmv.c
+++ b/src/blas/updtrmv.c
@@ -83,15 +83,17 @@ void update_trmv_recursive(
         return;
     }
 
+    // keep diagonal of trapezoidal matrix on diagonals of ATL and ABR
+    int nd = (A->rows < A->cols ? A->rows : A->cols)/2;
     mat_partition_2x2(
         &ATL, &ATR,
-        &ABL, &ABR, /**/ A, A->rows/2, A->cols/2, ARMAS_PTOPLEFT);
+        &ABL, &ABR, /**/ A, nd, nd, ARMAS_PTOPLEFT);
     vec_partition_2x1(
         &xT,
-        &xB, /**/ X, A->rows/2, ARMAS_PTOP);
+        &xB, /**/ X, nd, ARMAS_PTOP);
     vec_partition_2x1(
         &yT,
-        &yB, /**/ Y, A->cols/2, ARMAS_PTOP);
+        &yB, /**/ Y, nd, ARMAS_PTOP);
 
     update_trmv_recursive(beta, &ATL, alpha, &xT, &yT, flags, min_mvec_size);
     if (flags & ARMAS_UPPER) {
-- 
2.43.0


From dbfa1979b664ead15ade3a2662d96f47421a1484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 026/113] fix: scaling upper triangular part must scale all of
 its elements and stay inside the matrix

---
 src/blas/mscale.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index ba4043e..30d991c 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -145,8 +145,9 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_UPPER:
         // scale strictly upper triangular part, if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = n; c < m->rows; c++) {
-            armas_submatrix_unsafe(&C, m, c, c+n, 1, m->rows-c-n);
+        // (works for upper trapezoidal matrix too)
+        for (c = n; c < m->cols; c++) {
+            armas_submatrix_unsafe(&C, m, 0, c, (c+1-n < m->rows ? c+1-n : m->rows), 1);
             vec_scale(&C, alpha, C.rows);
         }
         break;
@@ -154,7 +155,7 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_LOWER:
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = 0; c < m->cols-n; c++) {
+        for (c = 0; c < m->cols && c+n < m->rows; c++) {
             armas_submatrix_unsafe(&C, m, c+n, c, m->rows-c-n, 1);
             vec_scale(&C, alpha, C.rows);
         }
-- 
2.43.0


From e06d723f74bd8b818759ffcfe2f87c42b23b4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 027/113] fix: adding constant to triangular part must stay
 inside the matrix and hit the right columns

---
 src/blas/madd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/madd.c b/src/blas/madd.c
index d987387..d270300 100644
--- a/src/blas/madd.c
+++ b/src/blas/madd.c
@@ -85,7 +85,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // (works for upper trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
         for (c = n; c < A->cols; ++c) {
-            armas_submatrix_unsafe(&C, A, 0, c+n, c+1-n, 1);
+            armas_submatrix_unsafe(&C, A, 0, c, (c+1-n < A->rows ? c+1-n : A->rows), 1);
             vec_add(&C, alpha, C.rows);
         }
         break;
@@ -94,7 +94,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         // (works for lower trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
-        for (c = 0; c < A->cols-n; ++c) {
+        for (c = 0; c < A->cols && c+n < A->rows; ++c) {
             armas_submatrix_unsafe(&C, A, c+n, c, A->rows-c-n, 1);
             vec_add(&C, alpha, C.rows);
         }
-- 
2.43.0


From 6eb6b8516f1488c12eb0a266db09c86823f56b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 028/113] fix: applying function to upper trapezoidal part must
 stay inside the matrix

---
 src/blas/mapply.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blas/mapply.c b/src/blas/mapply.c
index eba5ce4..68434fd 100644
--- a/src/blas/mapply.c
+++ b/src/blas/mapply.c
@@ -56,7 +56,7 @@ int armas_apply(armas_dense_t *A, armas_operator_t oper, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j)));
             }
         }
@@ -108,7 +108,7 @@ int armas_apply2(armas_dense_t *A, armas_operator2_t oper, void *p, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j), p));
             }
         }
@@ -160,7 +160,7 @@ int armas_iterate(const armas_dense_t *A, armas_iterator_t oper, void *p, int fl
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 if (oper(armas_get_unsafe(A, i, j), p) < 0)
                     return -1;
             }
-- 
2.43.0


From 593dbdd5d6a17bfb15f39d92876f09e1c5e9c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 029/113] fix: making upper trapezoidal matrix unit must stay
 inside the matrix

---
 src/blas/mset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/mset.c b/src/blas/mset.c
index 9062b5d..13a1b38 100644
--- a/src/blas/mset.c
+++ b/src/blas/mset.c
@@ -176,7 +176,7 @@ void armas_make_trm(armas_dense_t *A, int flags)
     if (flags & ARMAS_UPPER) {
         // clear lower triangular/trapezoidial part
         for (j = 0; j < A->cols; j++) {
-            if (flags & ARMAS_UNIT)
+            if (flags & ARMAS_UNIT && j < A->rows)
                 armas_set_unsafe(A, j, j, ONE);
             for (i = j+1; i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, ZERO);
-- 
2.43.0


From 53d46f84c604ea202cae6f109d93d3a2c007233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 030/113] fix: sum of two 1x1 matrices must scale the first
 operand

---
 src/blas/mplus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/mplus.c b/src/blas/mplus.c
index 1b2eac6..9502361 100644
--- a/src/blas/mplus.c
+++ b/src/blas/mplus.c
@@ -298,7 +298,7 @@ int armas_mplus(
 
     if (armas_size(A) == 0 || armas_size(B) == 0)
         return 0;
-    if (armas_size(B) == 1)
+    if (armas_size(B) == 1 && armas_size(A) != 1)
         return armas_madd(A, beta*armas_get_unsafe(B, 0, 0), flags, cf);
     if (armas_isvector(A) && armas_isvector(B))
         return armas_axpby(alpha, A, beta, B, cf);
-- 
2.43.0


From a36ebe3c0bc5dbdfbd642b05934418d0f349109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 031/113] fix: axpby with zero beta must not read the target
 vector

---
 src/blas/axpy.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/blas/axpy.c b/src/blas/axpy.c
index 10d3f28..e21430c 100644
--- a/src/blas/axpy.c
+++ b/src/blas/axpy.c
@@ -39,6 +39,13 @@ void armas_axpby_unsafe(
     int yinc = y->rows == 1 ? y->step : 1;
     int xinc = x->rows == 1 ? x->step : 1;
 
+    if (beta == ZERO) {
+        // initial contents of y is not referenced
+        for (i = 0; i < N; ++i)
+            y->elems[i*yinc] = alpha*x->elems[i*xinc];
+        return;
+    }
+
     for (i = 0; i < N-3; i += 4) {
         y0 = y->elems[(i+0)*yinc] * beta;
         y1 = y->elems[(i+1)*yinc] * beta;
-- 
2.43.0


From d4b115cb94707f15af18000449fdd74a80fac8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 032/113] fix: clear block reflector column when the elementary
 reflector is identity

---
 src/lapack/lq.c | 4 ++++
 src/lapack/ql.c | 4 ++++
 src/lapack/qr.c | 4 ++++
 src/lapack/rq.c | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 8144f38..3b6f59e 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -274,6 +274,10 @@ int armas_unblk_lq_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // H = I; clear the column, T may hold values of previous block
+            armas_set(&t11, 0, 0, ZERO);
+            armas_scale(&t01, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/ql.c b/src/lapack/ql.c
index 2a34ede..7df2ecf 100644
--- a/src/lapack/ql.c
+++ b/src/lapack/ql.c
@@ -317,6 +317,10 @@ int armas_unblk_ql_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t21 := T22*t21
             armas_mvmult_trm(&t21, ONE, &T22, ARMAS_LOWER, conf);
+        } else {
+            // H = I; clear the column, T may hold values of previous block
+            armas_set(&t11, 0, 0, ZERO);
+            armas_scale(&t21, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/qr.c b/src/lapack/qr.c
index af18514..f5d5e67 100644
--- a/src/lapack/qr.c
+++ b/src/lapack/qr.c
@@ -300,6 +300,10 @@ int armas_unblk_qr_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // H = I; clear the column, T may hold values of previous block
+            armas_set(&t11, 0, 0, ZERO);
+            armas_scale(&t01, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/rq.c b/src/lapack/rq.c
index 5150488..8661dba 100644
--- a/src/lapack/rq.c
+++ b/src/lapack/rq.c
@@ -318,6 +318,10 @@ int armas_unblk_rq_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t01 := T22*t21
             armas_mvmult_trm(&t21, ONE, &T22, ARMAS_LOWER, conf);
+        } else {
+            // H = I; clear the column, T may hold values of previous block
+            armas_set(&t11, 0, 0, ZERO);
+            armas_scale(&t21, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
-- 
2.43.0


From 15ec890de3253503881aee99758b919bb9fb3faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 033/113] fix: LQ block reflector has order of rows of the
 factored matrix

---
 src/lapack/lq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 3b6f59e..799d303 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -314,7 +314,7 @@ int armas_lqreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->cols || T->rows < A->cols) {
+    if (T->cols < A->rows || T->rows < A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From f8f83295d3e67d18dfb971937c59dc718b8881b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 034/113] fix: blocked LQ and RQ build must be selected by row
 count

---
 src/lapack/lqbld.c | 2 +-
 src/lapack/rqbld.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index ca3e307..2c90068 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -302,7 +302,7 @@ int armas_lqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         unblk_lqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows - K,
                         A->cols - K, TRUE, conf);
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 3f07516..280d91f 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -281,7 +281,7 @@ int armas_rqbuild_w(armas_dense_t * A,
     if (lb > 0 && A->rows > lb) {
         wsz /= sizeof(DTYPE);
         if (wsz < A->rows * lb) {
-            lb = (wsz / A->cols) & ~0x3;
+            lb = (wsz / A->rows) & ~0x3;
             if (lb < ARMAS_BLOCKING_MIN)
                 lb = 0;
         }
@@ -290,7 +290,7 @@ int armas_rqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         // start row: A->rows - K, column: A.cols - K
         unblk_rqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows-K,
-- 
2.43.0


From 68e93f51a732a32ad4240e75ee001daaa9b3eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 035/113] fix: LQ solve must accept the workspace size it asks
 for

---
 src/lapack/lqsolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index c2efcfb..8fca073 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -136,7 +136,7 @@ int armas_lqsolve_w(armas_dense_t * B,
         return -ARMAS_ESIZE;
     }
 
-    wsmin = B->rows * sizeof(DTYPE);
+    wsmin = B->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From 0e557f64c8a52105398bb5adcd4b24a0124e9a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 036/113] fix: block reflectors of QRT factorization

---
 src/lapack/qrt.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index 84245a3..cc10f9c 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -36,7 +36,7 @@ static
 int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
                     armas_dense_t * W, armas_conf_t * conf)
 {
-    armas_dense_t ATL, ABR, A00, a11, a12, a21, A22;
+    armas_dense_t ATL, ABR, A00, a10, a11, a12, A20, a21, A22;
     armas_dense_t TTL, TTR, TBR, T00, t01, t11, T22, w12;
     DTYPE tauval;
 
@@ -51,8 +51,8 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         mat_repartition_2x2to3x3(
             &ATL,
             &A00, __nil, __nil,
-            __nil, &a11, &a12,
-            __nil, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
+            &a10, &a11, &a12,
+            &A20, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
         mat_repartition_2x2to3x3(
             &TTL,
             &T00, &t01, __nil,
@@ -68,11 +68,14 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         tauval = armas_get_unsafe(&t11, 0, 0);
         if (tauval != ZERO) {
             // t01 := -tauval*(a10.T + A20.T*a21)
-            armas_axpby(ZERO, &t01, ONE, &a12, conf);
+            armas_axpby(ZERO, &t01, ONE, &a10, conf);
             armas_mvmult(-tauval, &t01,
-                           -tauval, &A22, &a21, ARMAS_TRANSA, conf);
+                           -tauval, &A20, &a21, ARMAS_TRANSA, conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // H = I; clear the column
+            armas_scale(&t01, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
@@ -107,7 +110,7 @@ int blk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
     mat_partition_2x2(
         &ATL, __nil, __nil, &ABR, /**/ A, 0, 0, ARMAS_PTOPLEFT);
     mat_partition_1x2(
-        &TL, &TR, /**/ T, 0, ARMAS_LEFT);
+        &TL, &TR, /**/ T, 0, ARMAS_PLEFT);
 
     while (ABR.rows - lb > 0 && ABR.cols - lb > 0) {
         mat_repartition_2x2to3x3(
@@ -253,7 +256,7 @@ int armas_qrtfactor_w(armas_dense_t * A, armas_dense_t * T,
         return -ARMAS_ESIZE;
     }
     // set blocking factor to number of rows in T
-    wsmin = lb == 0 || A->cols < lb ? A->cols : lb*(A->cols - lb);
+    wsmin = lb == 0 || A->cols <= lb ? A->cols : lb*(A->cols - lb);
     if (!wb || armas_wbytes(wb) < wsmin*sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From a1ce9cdefeb919979fa521692bbfd767327e2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 037/113] fix: LU factorization must report singular matrix
 also without pivoting and from any column

---
 src/lapack/lu.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index e7395d2..1ca27dc 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -37,6 +37,7 @@ int unblk_lufactor_nopiv(armas_dense_t * A, armas_conf_t * conf)
 {
     armas_dense_t ATL, ABR, A00, a11, a12, a21, A22;
     DTYPE a11val;
+    int err = 0;
 
     EMPTY(A00);
     EMPTY(a11);
@@ -52,7 +53,12 @@ int unblk_lufactor_nopiv(armas_dense_t * A, armas_conf_t * conf)
         // ---------------------------------------------------------------------
         // a21 = a21/a11
         a11val = armas_get(&a11, 0, 0);
-        armas_scale(&a21, ONE/a11val, conf);
+        if (a11val == ZERO) {
+            conf->error = ARMAS_ESINGULAR;
+            err = -ARMAS_ESINGULAR;
+        } else {
+            armas_scale(&a21, ONE/a11val, conf);
+        }
 
         // A22 = A22 - a21*a12
         armas_mvupdate(ONE, &A22, -ONE, &a21, &a12, conf);
@@ -61,13 +67,14 @@ int unblk_lufactor_nopiv(armas_dense_t * A, armas_conf_t * conf)
             &ATL, __nil,
             __nil, &ABR, /**/ &A00, &a11, &A22, A, ARMAS_PBOTTOMRIGHT);
     }
-    return 0;
+    return err;
 }
 
 static
 int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
 {
     armas_dense_t ATL, ABR, A00, A11, A12, A21, A22;
+    int e, err = 0;
 
     EMPTY(A00);
 
@@ -82,7 +89,8 @@ int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
             __nil, &A21, &A22, /**/ A, lb, ARMAS_PBOTTOMRIGHT);
         // ---------------------------------------------------------------------
         // A11 = LU(A11)
-        unblk_lufactor_nopiv(&A11, conf);
+        if ((e = unblk_lufactor_nopiv(&A11, conf)) < 0)
+            err = e;
         // A12 = trilu(A11)*A12.-1
         armas_solve_trm(&A12, ONE, &A11,
                           ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, conf);
@@ -98,9 +106,10 @@ int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
 
     // last block with unblocked 
     if (ABR.rows > 0 && ABR.cols > 0) {
-        unblk_lufactor_nopiv(&ABR, conf);
+        if ((e = unblk_lufactor_nopiv(&ABR, conf)) < 0)
+            err = e;
     }
-    return 0;
+    return err;
 }
 
 /*
@@ -145,7 +154,7 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
         aa = armas_dot(&a10, &a01, conf);
         armas_set(&a11, 0, 0, a11val - aa);
         // c. a21 = a21 - A20*a01
-        err = armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
+        armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
         // HERE:
         // current column has been updated with effects of earlier computations.
         // B. find pivot index on vector ( a11 ) == ABR[:,0] (1st column of ABR)
@@ -159,7 +168,7 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
         a11val = armas_get(&a11, 0, 0);
         if (a11val == 0.0) {
             conf->error = ARMAS_ESINGULAR;
-            err = -1;
+            err = -ARMAS_ESINGULAR;
         } else {
             armas_scale(&a21, ONE/a11val, conf);
         }
@@ -198,7 +207,7 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
     armas_dense_t ATL, ATR, ABL, ABR, A00, A01, A10, A11, A21, A20, A22;
     armas_dense_t AL, AR, A0, A1, A2, AB0;
     armas_pivot_t pT, pB, p0, p1, p2;
-    int k, pi, err = 0;
+    int k, pi, e, err = 0;
 
     EMPTY(A0);
     EMPTY(AL);
@@ -236,7 +245,8 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
         // B. factor ( A11 )
         //           ( A21 )
         mat_merge2x1(&AB0, &A11, &A21);
-        err = unblk_lufactor(&AB0, &p1, ATL.rows, conf);
+        if ((e = unblk_lufactor(&AB0, &p1, ATL.rows, conf)) < 0)
+            err = e;
 
         // apply pivots on left columns
         armas_pivot_rows(&ABL, &p1, ARMAS_PIVOT_FORWARD, conf);
-- 
2.43.0


From ab502ef7d72af3498af785870836f105e7a2c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 038/113] fix: LU solve of transposed system

---
 src/lapack/lu.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 1ca27dc..3102252 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -361,18 +361,20 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (P) {
-        // pivots; apply to B.
-        armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
-    }
-
     if (flags & ARMAS_TRANS) {
-        // solve A.T*X = B; X = A.-T*B == (L.T*U.T).-1*B == U.-T*(L.-T*B)
-        armas_solve_trm(
-            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        // solve A.T*X = B; X = A.-T*B == (U.T*L.T*P.T).-1*B == P*(L.-T*(U.-T*B))
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_UPPER | ARMAS_TRANSA, cf);
+        armas_solve_trm(
+            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        if (P) {
+            armas_pivot_rows(B, P, ARMAS_PIVOT_BACKWARD, cf);
+        }
     } else {
+        if (P) {
+            // pivots; apply to B.
+            armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
+        }
         // solve A*X = B;  X = A.-1*B == (L*U).-1*B == U.-1*(L.-1*B)
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, cf);
-- 
2.43.0


From db31600c50367e48298396c107f05b725302f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 039/113] fix: lower Cholesky must reject zero pivot

---
 src/lapack/chol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/chol.c b/src/lapack/chol.c
index 2da85b7..3aa5547 100644
--- a/src/lapack/chol.c
+++ b/src/lapack/chol.c
@@ -55,7 +55,7 @@ int unblk_cholfactor_lower(armas_dense_t * A, armas_conf_t * cf)
         // --------------------------------------------------------------------
         // a21 = a21/a11
         a11val = armas_get(&a11, 0, 0);
-        if (a11val >= 0.0) {
+        if (a11val > 0.0) {
             // a11 = sqrt(a11)
             a11val = SQRT(a11val);
             armas_set(&a11, 0, 0, a11val);
-- 
2.43.0


From 7d1728361008e65be5ce658888458ff59203af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 040/113] fix: inverse of unit triangular matrix must not read
 the diagonal

---
 src/lapack/invtrm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/invtrm.c b/src/lapack/invtrm.c
index 0659c46..5763031 100644
--- a/src/lapack/invtrm.c
+++ b/src/lapack/invtrm.c
@@ -72,7 +72,8 @@ int unblk_inverse_upper(armas_dense_t * A, int flags, armas_conf_t * conf)
             armas_set_unsafe(&a11, 0, 0, a11val);
         }
         // a01 = -a11val*A00*a01
-        armas_mvmult_trm(&a01, -a11val, &A00, ARMAS_UPPER, conf);
+        armas_mvmult_trm(&a01, -a11val, &A00,
+                           ARMAS_UPPER | (flags & ARMAS_UNIT), conf);
         // ---------------------------------------------------------------------
       next:
         mat_continue_3x3to2x2(
@@ -155,7 +156,8 @@ int unblk_inverse_lower(armas_dense_t * A, int flags, armas_conf_t * conf)
             armas_set_unsafe(&a11, 0, 0, a11val);
         }
         // a21 = -a11val*A22*a21
-        armas_mvmult_trm(&a21, -a11val, &A22, ARMAS_LOWER, conf);
+        armas_mvmult_trm(&a21, -a11val, &A22,
+                           ARMAS_LOWER | (flags & ARMAS_UNIT), conf);
         // ---------------------------------------------------------------------
       next:
         mat_continue_3x3to2x2(
-- 
2.43.0


From 533b71c4af1ca30baa47e37b82c07f2a6fe15075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 041/113] fix: diag: scale row vector with one diagonal element

---
 src/lapack/diag.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index 1e4bc22..e5c8c92 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -64,11 +64,9 @@ int armas_mult_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    // row vector scaled from left and column vector from right by a single
+    // diagonal element are handled below
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         if (armas_size(A) == 0)
             return 0;
         for (k = 0; k < armas_size(d); k++) {
@@ -147,11 +145,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    // row vector scaled from left and column vector from right by a single
+    // diagonal element are handled below
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         if (armas_size(A) == 0)
             return 0;
         for (k = 0; k < armas_size(d); k++) {
-- 
2.43.0


From 79921383910b29eda751ed61a8411f55c5a73dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 042/113] fix: bkfactor: no division by zero pivot; 2x2 inverse
 not inside panel workspace

---
 src/lapack/ldlbkl.c | 20 ++++++++++++--------
 src/lapack/ldlbku.c | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/lapack/ldlbkl.c b/src/lapack/ldlbkl.c
index 2295539..2ce4628 100644
--- a/src/lapack/ldlbkl.c
+++ b/src/lapack/ldlbkl.c
@@ -176,10 +176,13 @@ int armas_unblk_bkfactor_lower(armas_dense_t * A, armas_dense_t * W,
         if (np == 1) {
             // A22 = A22 - a21*a21.T/a11
             a11val = armas_get(&a11, 0, 0);
-            armas_mvupdate_trm(
-                ONE, &A22, -ONE / a11val, &a21, &a21, ARMAS_LOWER, conf);
-            // a21 = a21/a11
-            armas_scale(&a21, ONE/a11val, conf);
+            // zero pivot: column is zero, nothing to eliminate
+            if (a11val != ZERO) {
+                armas_mvupdate_trm(
+                    ONE, &A22, -ONE / a11val, &a21, &a21, ARMAS_LOWER, conf);
+                // a21 = a21/a11
+                armas_scale(&a21, ONE/a11val, conf);
+            }
             // store pivot point relative to original matrix
             armas_pivot_set(&p1, 0, r + ATL.rows + 1);
         } else if (np == 2) {
@@ -350,7 +353,7 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
     armas_dense_t a11inv, cwrk, w00, w10, w11;
     armas_pivot_t pT, pB, p0, p1, p2;
     DTYPE t1, tr, a11val, a, b, d, scale;
-    //DTYPE abuf[4];
+    DTYPE abuf[4];
     int nc, r, np, pi;
 
     EMPTY(A00);
@@ -363,8 +366,8 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
         &pT, &pB, /**/ P, 0, ARMAS_PTOP);
 
     // permanent working space for symmetric inverse of 2x2 a11
-    armas_submatrix(&a11inv, W, 0, W->cols - 2, 2, 2);
-    //armas_make(&a11inv, 2, 2, 2, abuf);
+    // (not inside W; it would overlap the panel columns when ncol < 4)
+    armas_make(&a11inv, 2, 2, 2, abuf);
     armas_set(&a11inv, 1, 0, -1.0);
     armas_set(&a11inv, 0, 1, -1.0);
 
@@ -423,7 +426,8 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
             armas_set(&a11, 0, 0, a11val);
             // a21 = a21/a11
             armas_axpby(ZERO, &a21, ONE, &cwrk, conf);
-            armas_scale(&a21, ONE/a11val, conf);
+            if (a11val != ZERO)
+                armas_scale(&a21, ONE/a11val, conf);
             // store pivot point relative to original matrix
             armas_pivot_set(&p1, 0, r + ATL.rows + 1);
         } else if (np == 2) {
diff --git a/src/lapack/ldlbku.c b/src/lapack/ldlbku.c
index 651f46e..067e654 100644
--- a/src/lapack/ldlbku.c
+++ b/src/lapack/ldlbku.c
@@ -164,10 +164,13 @@ int armas_unblk_bkfactor_upper(armas_dense_t * A, armas_dense_t * W,
         if (np == 1) {
             // A00 = A00 - a01*a01.T/a11
             a11val = armas_get(&a11, 0, 0);
-            armas_mvupdate_trm(
-                ONE, &A00, -ONE / a11val, &a01, &a01, ARMAS_UPPER, conf);
-            // a01 = a01/a11
-            armas_scale(&a01, ONE/a11val, conf);
+            // zero pivot: column is zero, nothing to eliminate
+            if (a11val != ZERO) {
+                armas_mvupdate_trm(
+                    ONE, &A00, -ONE / a11val, &a01, &a01, ARMAS_UPPER, conf);
+                // a01 = a01/a11
+                armas_scale(&a01, ONE/a11val, conf);
+            }
             // store pivot point relative to original matrix
             pi = r == -1 ? ATL.rows : r + 1;
             armas_pivot_set(&p1, 0, pi);
@@ -338,6 +341,7 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
     armas_dense_t a11inv, cwrk, w00, w01, w11;
     armas_pivot_t pT, pB, p0, p1, p2;
     DTYPE t1, tr, a11val, a, b, d, scale;
+    DTYPE abuf[4];
     int nc, r, np, pi;
 
     EMPTY(A00);
@@ -350,7 +354,8 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
     pivot_2x1(&pT, &pB, /**/ P, 0, ARMAS_PBOTTOM);
 
     // permanent working space for symmetric inverse of 2x2 a11
-    armas_submatrix(&a11inv, W, W->rows - 2, 0, 2, 2);
+    // (not inside W; it would overlap the panel columns when ncol < 4)
+    armas_make(&a11inv, 2, 2, 2, abuf);
     armas_set(&a11inv, 1, 0, -1.0);
     armas_set(&a11inv, 0, 1, -1.0);
 
@@ -411,7 +416,8 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
             armas_set(&a11, 0, 0, a11val);
             // a01 = a01/a11
             armas_copy(&a01, &cwrk, conf);
-            armas_scale(&a01, ONE/a11val, conf);
+            if (a11val != ZERO)
+                armas_scale(&a01, ONE/a11val, conf);
             // store pivot point relative to original matrix
             pi = r == -1 ? ATL.rows : r + 1;
             armas_pivot_set(&p1, 0, pi);
-- 
2.43.0


From d88c06953ee338ecdffbc2807bb723988782f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 043/113] fix: mult kernel: stale lanes in packed blocks leaked
 NaN into results

---
 src/blas/kernel.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/blas/kernel.c b/src/blas/kernel.c
index 4cead8f..f9b277c 100644
--- a/src/blas/kernel.c
+++ b/src/blas/kernel.c
@@ -34,6 +34,25 @@
  *
  */
 
+/*
+ * Kernels load full SIMD vectors and mask the excess lanes of one operand only.
+ * Clear the lanes past the last row in packed blocks; otherwise stale NaN or Inf
+ * left there by an earlier operation ends up in the result (0*NaN is NaN).
+ */
+#define KERNEL_LANES ((int)(32/sizeof(DTYPE)))
+
+static inline
+void clear_excess_lanes(const armas_dense_t *Blk)
+{
+    int end = Blk->rows;
+    while (end % KERNEL_LANES != 0 && end < Blk->step)
+        end++;
+    for (int j = 0; j < Blk->cols; j++) {
+        for (int k = Blk->rows; k < end; k++)
+            armas_data(Blk)[k + j*Blk->step] = ZERO;
+    }
+}
+
 void armas_mult_kernel_inner(
     armas_dense_t *Cblk,
     DTYPE alpha,
@@ -44,6 +63,9 @@ void armas_mult_kernel_inner(
     register int j, kp;
     armas_dense_t Ca, Ac;
 
+    clear_excess_lanes(Ablk);
+    clear_excess_lanes(Bblk);
+
     for (kp = 0; kp < Cblk->rows; kp += rb) {
         int nK = min(rb, Cblk->rows-kp);
         armas_submatrix_unsafe(&Ca, Cblk, kp, 0, nK, Cblk->cols);
-- 
2.43.0


From 9e3182f12298a47ab115534d7d9c6a530ddb2ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 044/113] fix: Hessenberg reduction: clear block reflector
 column when the elementary reflector is identity

---
 src/lapack/hess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lapack/hess.c b/src/lapack/hess.c
index a294c4a..7074e8d 100644
--- a/src/lapack/hess.c
+++ b/src/lapack/hess.c
@@ -277,6 +277,9 @@ int unblk_build_hess_gqvdg(armas_dense_t * A, armas_dense_t * T,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // H = I; clear the column, T may hold values of previous block
+            armas_scale(&t01, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
-- 
2.43.0


From 9007f446c2fd8a2a78166bfb6f764680a7f313d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 045/113] fix: abs_sort_vec keeps the signs of the elements

---
 src/lapack/sort.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lapack/sort.c b/src/lapack/sort.c
index 0a1eaf8..d18f1b4 100644
--- a/src/lapack/sort.c
+++ b/src/lapack/sort.c
@@ -47,10 +47,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
     // simple insertion sort
     if (updown > 0) {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval <= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) <= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
@@ -58,10 +58,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
         }
     } else {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval >= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) >= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
-- 
2.43.0


From 3015feaad6ca831e030b21eca2969474661614a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 046/113] fix: qsort_vec terminates on equal elements and stays
 inside the vector

---
 src/lapack/qsort.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qsort.c b/src/lapack/qsort.c
index 99c85df..b231f2b 100644
--- a/src/lapack/qsort.c
+++ b/src/lapack/qsort.c
@@ -78,13 +78,15 @@ void armas_qsort_asc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) < pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) < pivot; i++);
         for (; armas_get_at_unsafe(x, j) > pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++;
+        j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
@@ -113,13 +115,15 @@ void armas_qsort_desc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) > pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) > pivot; i++);
         for (; armas_get_at_unsafe(x, j) < pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++;
+        j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
-- 
2.43.0


From c0b147cf4c61102d1c6702c2effee0e3cb9c627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 047/113] fix: qdroots roots for B = 0 and complex roots

---
 src/lapack/qdroot.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lapack/qdroot.c b/src/lapack/qdroot.c
index 780e8c8..3575277 100644
--- a/src/lapack/qdroot.c
+++ b/src/lapack/qdroot.c
@@ -124,7 +124,7 @@ DTYPE discriminant(DTYPE a, DTYPE b, DTYPE c)
  *   2004"
  *
  * @param x1, x2 [out]
- *	Computed roots, |x1| >= |x2|
+ *	Computed roots, |x1| >= |x2|. For complex roots the real and the imaginary part.
  * @param a, b, c [in]
  *	Coefficient of quadratic equation.
  * @return
@@ -140,14 +140,15 @@ int armas_qdroots(DTYPE * x1, DTYPE * x2, DTYPE a, DTYPE b, DTYPE c)
     if (d < 0.0) {
         r = b / a;
         s = SQRT(ABS(d)) / a;
-        *x1 = -r / 2.0;
-        *x2 = s / 2.0;
+        *x1 = r;
+        *x2 = s;
         return 1;
     }
     signb = SIGN(b) ? -1.0 : 1.0;
-    s = SQRT(d) * (signb + (DTYPE) (b == ZERO)) + b;
+    s = SQRT(d) * signb + b;
     *x1 = s / a;
-    *x2 = c / s;
+    // s is zero only if B = 0 and A*C = 0
+    *x2 = s == ZERO ? ZERO : c / s;
     return 0;
 }
 
-- 
2.43.0


From 307dc9335d4034f5d8b1c34dab24a301a34a094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 048/113] fix: Givens updates stay inside the matrix

---
 src/lapack/givens.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index 6871811..0781eed 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -146,7 +146,7 @@ void armas_gvleft(armas_dense_t * A, DTYPE c, DTYPE s, int r1, int r2,
         }
         return;
     }
-    gvleft(A, c, s, r1, r2, col, ncol);
+    gvleft(A, c, s, r1, r2, col, lastc - col);
 }
 
 
@@ -186,7 +186,7 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
         }
         return;
     }
-    gvright(A, c, s, c1, c2, row, nrow);
+    gvright(A, c, s, c1, c2, row, lastr - row);
 }
 
 /**
@@ -220,8 +220,8 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
  *      flag backward (ARMAS_BACKWARD)  or forward (ARMAS_FORWARD). Forward is
  *      default direction for updates.
  * @return
- *      Number of rotation applied, min(nrot, A->rows-start) for left and
- *      min(nrot, A->cols-start) for right.
+ *      Number of rotation applied, min(nrot, A->rows-1-start) for left and
+ *      min(nrot, A->cols-1-start) for right.
  *
  * @ingroup lapack
  */
@@ -229,12 +229,16 @@ int armas_gvupdate(armas_dense_t * A, int start,
                      armas_dense_t * C, armas_dense_t * S, int nrot,
                      int flags)
 {
-    int k, n, end = start + nrot;
+    int k, n, end;
     DTYPE c, s;
 
+    // rotation k touches rows/columns k and k+1
+    end = (flags & ARMAS_LEFT ? A->rows : A->cols) - 1;
+    nrot = min(nrot, max(0, end - start));
+    end = start + nrot;
+
     if (flags & ARMAS_BACKWARD) {
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
             for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
@@ -242,7 +246,6 @@ int armas_gvupdate(armas_dense_t * A, int start,
                     gvleft(A, c, s, k - 1, k, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
             for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
@@ -253,7 +256,6 @@ int armas_gvupdate(armas_dense_t * A, int start,
     } else {
         // here we apply forward direction
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
             for (k = start, n = 0; n < nrot && k < end; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
@@ -261,7 +263,6 @@ int armas_gvupdate(armas_dense_t * A, int start,
                     gvleft(A, c, s, k, k + 1, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
             for (k = start, n = 0; n < nrot && k < end; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
@@ -270,7 +271,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
             }
         }
     }
-    return n;
+    return nrot;
 }
 
 
-- 
2.43.0


From 56f68f4337c1ae19f7b7e3c185120d5db070f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 049/113] fix: Householder generation for aligned and
 cancelling vectors, apply sizes and null tau

---
 src/lapack/house.c | 58 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 61773f5..1fe97bd 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -29,6 +29,31 @@
 //! \endcond
 
 
+/*
+ * Reflector for the case where alpha -/+ beta cancels: |delta| = normx^2/(|alpha| + beta). Neither
+ * delta nor tau may underflow, vector x is flushed to zero if it is negligible.
+ */
+static
+int householder_cancel(armas_dense_t * a11, armas_dense_t * x, armas_dense_t * tau,
+                       DTYPE alpha, DTYPE beta, DTYPE normx, int nscale, DTYPE sign,
+                       armas_conf_t * cf)
+{
+    DTYPE t = ZERO, h = ABS(alpha) + beta;
+    if (normx <= EPS * EPS * beta) {
+        armas_scale(x, ZERO, cf);
+    } else {
+        t = (normx / h) * (normx / beta);
+        armas_scale(x, ONE / normx, cf);
+        armas_scale(x, sign * (h / normx), cf);
+    }
+    while (nscale-- > 0) {
+        beta *= SAFEMIN / EPS;
+    }
+    armas_set_unsafe(tau, 0, 0, t);
+    armas_set_unsafe(a11, 0, 0, beta);
+    return 0;
+}
+
 /*
  * Generates a real elementary reflector H of order n, such that
  *
@@ -102,7 +127,14 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
 
     normx = armas_nrm2(x, cf);
     if (normx == 0.0) {
-        armas_set(tau, 0, 0, 0.0);
+        // already a multiple of e_0; reflect only if sign must change, H = diag(-1, 1, ..)
+        alpha = armas_get_unsafe(a11, 0, 0);
+        t = 0.0;
+        if (flags & ARMAS_NONNEG)
+            t = (flags & ARMAS_HHNEGATIVE ? alpha > 0.0 : alpha < 0.0) ? TWO : 0.0;
+        beta = t != 0.0 ? -alpha : alpha;
+        armas_set_unsafe(a11, 0, 0, flags & ARMAS_HHNEGATIVE ? -beta : beta);
+        armas_set(tau, 0, 0, t);
         return 0;
     }
 
@@ -134,7 +166,7 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
             delta = alpha + beta;
         } else {
             // alpha < 0 && beta > 0  (delta = alpha + beta)
-            delta = -normx * (normx / (alpha - beta));
+            return householder_cancel(a11, x, tau, alpha, beta, normx, nscale, ONE, cf);
         }
         t = delta / beta;
         break;
@@ -150,7 +182,7 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
             delta = alpha - beta;
         } else {
             // alpha > 0 && beta > 0  (delta = alpha - beta)
-            delta = -normx * (normx / (alpha + beta));
+            return householder_cancel(a11, x, tau, alpha, beta, normx, nscale, -ONE, cf);
         }
         t = -delta / beta;
         break;
@@ -184,12 +216,15 @@ int hhcompute_unscaled(armas_dense_t * x0, armas_dense_t * x1,
     DTYPE normx, x0val, alpha, beta, delta, sign;
 
     normx = armas_nrm2(x1, cf);
+    x0val = armas_get_unsafe(x0, 0, 0);
     if (normx == 0.0) {
-        armas_set_unsafe(tau, 0, 0, armas_get_unsafe(x0, 0, 0));
+        // already a multiple of e_0; reflect only if sign must change, H = diag(-1, 1, ..)
+        int negate = (flags & ARMAS_NONNEG) != 0 && x0val < 0.0;
+        armas_set_unsafe(tau, 0, 0, negate ? -x0val : x0val);
+        armas_set_unsafe(x0, 0, 0, negate ? ONE : ZERO);
         return 0;
     }
 
-    x0val = armas_get_unsafe(x0, 0, 0);
     sign = SIGN(x0val) ? -1.0 : 1.0;
 
     beta = HYPOT(x0val, normx);
@@ -480,8 +515,8 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
  *     Householder scalar for unit scaled reflector or null for unscaled
  *     reflector.
  *  @param [in] v
- *     Reflector vector; for unscaled reflector then length is rows(A) if
- *     applying from right and if applying from LEFT then length is cols(A).
+ *     Reflector vector; for unscaled reflector then length is cols(A) if
+ *     applying from right and if applying from LEFT then length is rows(A).
  *     If unit scaled reflector then length one element shorter.
  *  @param [in] w
  *     Workspace, at least of size rows(A) for ARMAS_RIGHT or cols(A) for
@@ -502,7 +537,7 @@ int armas_houseapply(armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    int scaled = !tau || (flags & ARMAS_UNIT) != 0 ? 1 : 0;
+    int scaled = tau != __nil ? 1 : 0;
 
     if (armas_isvector(A)) {
         DTYPE alpha;
@@ -531,17 +566,18 @@ int armas_houseapply(armas_dense_t * A,
     int ok = 0;
     switch (flags & ARMAS_RIGHT) {
     case ARMAS_RIGHT:
-        ok = A->rows - scaled == armas_size(v);
+        ok = A->cols - scaled == armas_size(v);
         break;
     default:
-        ok = A->cols - scaled == armas_size(v);
+        flags |= ARMAS_LEFT;
+        ok = A->rows - scaled == armas_size(v);
         break;
     }
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-    if (!w || armas_size(w) < armas_size(v) + scaled) {
+    if (!w || armas_size(w) < (flags & ARMAS_RIGHT ? A->rows : A->cols)) {
         cf->error = ARMAS_EWORK;
         return -1;
     }
-- 
2.43.0


From 2e72a3622f9c7fe6a0d68b9f20f19a4ac1eef230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 050/113] fix: hyperbolic reflector for aligned, cancelling and
 degenerate vectors

---
 src/lapack/hhouse.c | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/lapack/hhouse.c b/src/lapack/hhouse.c
index 580d5d7..03d4a8b 100644
--- a/src/lapack/hhouse.c
+++ b/src/lapack/hhouse.c
@@ -51,6 +51,31 @@ static inline double sqrt_x2my2(double x, double y)
 }
 
 
+/*
+ * Reflector for the case where alpha -/+ beta cancels: |delta| = normx^2/(|alpha| + beta). The delta
+ * must not underflow, vector x is flushed to zero if it is negligible.
+ */
+static
+int hhouse_cancel(armas_dense_t * a11, armas_dense_t * x, armas_dense_t * tau,
+                  DTYPE alpha, DTYPE beta, DTYPE normx, int nscale, DTYPE sign,
+                  armas_conf_t * cf)
+{
+    DTYPE t = ZERO, h = ABS(alpha) + beta;
+    if (normx <= EPS * EPS * beta) {
+        armas_scale(x, ZERO, cf);
+    } else {
+        t = TWO / (ONE - (h / normx) * (h / normx));
+        armas_scale(x, ONE / normx, cf);
+        armas_scale(x, sign * (h / normx), cf);
+    }
+    while (nscale-- > 0) {
+        beta *= SAFEMIN / EPS;
+    }
+    armas_set(tau, 0, 0, t);
+    armas_set(a11, 0, 0, beta);
+    return 0;
+}
+
 /**
  * @brief Generate hyperbolic reflector H
  *
@@ -103,20 +128,25 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
 
     normx = armas_nrm2(x, cf);
     alpha = armas_get(a11, 0, 0);
-    if (ABS(alpha) < normx) {
-        // alpha^2 - normx^2 < 0; sqrt not defined
+    if (ABS(alpha) <= normx && normx != 0.0) {
+        // alpha^2 - normx^2 <= 0; no hyperbolic reflector exists
         cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
     if (normx == 0.0) {
-        armas_set(tau, 0, 0, 0.0);
+        // already a multiple of e_0; reflect only if sign must change, H = diag(-1, 1, ..)
+        t = 0.0;
+        if (flags & ARMAS_NONNEG)
+            t = (flags & ARMAS_HHNEGATIVE ? alpha > 0.0 : alpha < 0.0) ? 2.0 : 0.0;
+        beta = t != 0.0 ? -alpha : alpha;
+        armas_set(a11, 0, 0, flags & ARMAS_HHNEGATIVE ? -beta : beta);
+        armas_set(tau, 0, 0, t);
         return 0;
     }
     sign = SIGN(alpha) ? -1.0 : 1.0;
     beta = sqrt_x2my2(alpha, normx);
     // guard agains underflow; see (2)
     if (ABS(beta) < safmin) {
-        printf("beta : %e\n", beta);
         // normx, beta may be inaccurate, scale and recompute
         rsafmin = 1.0 / safmin;
         do {
@@ -138,8 +168,7 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
             scale = -1.0 / delta;
         } else {
             // alpha+beta == (alpha^2-beta^2)/(alpha-beta) == normx^2/(alpha-beta)
-            delta = (normx / (alpha - beta)) * normx;
-            scale = -1.0 / delta;
+            return hhouse_cancel(a11, x, tau, alpha, beta, normx, nscale, ONE, cf);
         }
         break;
     case ARMAS_HHNEGATIVE:
@@ -155,8 +184,7 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
             scale = -1.0 / delta;
         } else {
             // alpha-beta == (alpha^2-beta^2)/(alpha+beta) == normx^2/(alpha+beta)
-            delta = (normx / (alpha + beta)) * normx;
-            scale = -1.0 / delta;
+            return hhouse_cancel(a11, x, tau, alpha, beta, normx, nscale, -ONE, cf);
         }
         break;
     default:
-- 
2.43.0


From e7ef5463a63f29d9cac932d347ba97490e5ec969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 051/113] fix: housemult workspace for default side, vector
 operands, short workspace

---
 src/lapack/housem.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 424ba82..b9eb7e6 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -27,6 +27,15 @@
 #include "internal_lapack.h"
 #include "partition.h"
 
+/*
+ * X is single vector to multiply, no workspace is needed
+ */
+static inline
+int is_single(const armas_dense_t *X, int flags)
+{
+    return (flags & ARMAS_RIGHT ? X->rows : X->cols) == 1;
+}
+
 /*
  * Unblocked algorith for computing X = Q*X and X = Q.T*X
  *
@@ -69,7 +78,7 @@ void hmult_left(armas_dense_t * X, armas_dense_t * tau, armas_dense_t * P,
 
     int unit = flags & ARMAS_UNIT;
     int m = P->cols;
-    int isvector = armas_isvector(X);
+    int isvector = X->cols == 1;
 
     if ((flags & ARMAS_TRANS) != 0) {
         // compute x = H(m-1)*...H(1)*H(0)*x
@@ -188,7 +197,7 @@ void hmult_right(armas_dense_t * X, armas_dense_t * tau,
 
     int unit = flags & ARMAS_UNIT;
     int m = P->cols;
-    int isvector = armas_isvector(X);
+    int isvector = X->rows == 1;
 
     if ((flags & ARMAS_TRANS) != 0) {
         // compute x = x*H(m-1)*...H(1)*H(0)
@@ -316,13 +325,13 @@ int armas_housemult_w(armas_dense_t * X,
     if (!cf)
         cf = armas_conf_default();
 
-    if (!wb && !armas_isvector(X)) {
+    if (!wb && !is_single(X, flags)) {
         cf->error = ARMAS_EINVAL;
         return -1;
     }
-    if (!armas_isvector(X) && wb->bytes == 0) {
+    if (!is_single(X, flags) && wb->bytes == 0) {
         // compute workspace size
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+        int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         wb->bytes = nelem * sizeof(DTYPE);
         return 0;
     }
@@ -336,7 +345,7 @@ int armas_housemult_w(armas_dense_t * X,
     }
     int ok = (flags & ARMAS_RIGHT) != 0
         ? Q->rows == X->cols : Q->rows == X->rows;
-    if (!ok) {
+    if (!ok || Q->cols > Q->rows) {
         cf->error = ARMAS_ESIZE;
         return -1;
     }
@@ -344,9 +353,13 @@ int armas_housemult_w(armas_dense_t * X,
     size_t wpos = armas_wpos(wb);
     armas_dense_t w, *wptr;
     wptr = __nil;
-    if (!armas_isvector(X)) {
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+    if (!is_single(X, flags)) {
+        int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         DTYPE *t = armas_wreserve(wb, nelem, sizeof(DTYPE));
+        if (!t) {
+            cf->error = ARMAS_EWORK;
+            return -ARMAS_EWORK;
+        }
         armas_make(&w, nelem, 1, nelem, t);
         wptr = &w;
     }
@@ -372,7 +385,7 @@ int armas_housemult(armas_dense_t * X,
 {
     if (!cf)
         cf = armas_conf_default();
-    if (armas_isvector(X)) {
+    if (is_single(X, flags)) {
         return armas_housemult_w(X, tau, Q, flags, (armas_wbuf_t *) 0, cf);
     }
     int err;
-- 
2.43.0


From 83e17a3b1b4fb0df9bb88df2f75bfb313dcd8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 052/113] fix: butterfly multiplication from right and for
 sizes which are not a multiple of 2^d

---
 src/lapack/rbtgm.c | 26 ++++++++++++++------------
 src/lapack/rbtgu.c | 16 ++++++++++------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 6ec7b58..8a4d707 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -76,7 +76,7 @@ void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
                 armas_set_unsafe(A, i, j, r0 * (a00 + a10));
                 armas_set_unsafe(A, i + nb, j, r1 * (a00 - a10));
             }
-            for (; i < nb; i++) {
+            for (; i < nb && i < A->rows; i++) {
                 r0 = armas_get_at_unsafe(R, i);
                 a00 = armas_get_unsafe(A, i, j);
                 armas_set_unsafe(A, i, j, r0 * a00);
@@ -95,7 +95,7 @@ void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
             armas_set_unsafe(A, i + nb, j, a00 - a10);
         }
         // for case when Nd > rows(A)
-        for (; i < nb; i++) {
+        for (; i < nb && i < A->rows; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, r0 * a00);
@@ -195,7 +195,6 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
     }
 
     if (flags & ARMAS_TRANS) {
-        j = 0;
         for (i = 0; i < A->rows; i++) {
             for (j = 0; j < rb; j++) {
                 r0 = armas_get_at_unsafe(R, j);
@@ -205,12 +204,12 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
                 armas_set_unsafe(A, i, j, a00 + a01);
                 armas_set_unsafe(A, i, j + nb, a00 - a01);
             }
-        }
-        // for case when Nd > rows(A)
-        for (; j < nb; j++) {
-            r0 = armas_get_at_unsafe(R, j);
-            a00 = armas_get_unsafe(A, i, j);
-            armas_set_unsafe(A, i, j, r0 * a00);
+            // for case when Nd > cols(A)
+            for (; j < nb && j < A->cols; j++) {
+                r0 = armas_get_at_unsafe(R, j);
+                a00 = armas_get_unsafe(A, i, j);
+                armas_set_unsafe(A, i, j, r0 * a00);
+            }
         }
         return;
     }
@@ -224,7 +223,7 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
             armas_set_unsafe(A, i, j, r0 * (a00 + a01));
             armas_set_unsafe(A, i, j + nb, r1 * (a00 - a01));
         }
-        for (; j < nb; j++) {
+        for (; j < nb && j < A->cols; j++) {
             r0 = armas_get_at_unsafe(R, j);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, r0 * a00);
@@ -260,7 +259,8 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
     Nd = (A->cols + twod - 1) & ~(twod - 1);
     // initial/final block size is computed with k = twod/2
     k = twod >> 1;
-    if (flags & ARMAS_TRANS) {
+    // A*U = A*B<n/k>*...*B<n>; start from the smallest butterfly unless transposed
+    if (!(flags & ARMAS_TRANS)) {
         pdir = ARMAS_PLEFT;
         rdir = ARMAS_PRIGHT;
         lb = Nd = Nd / k;
@@ -294,7 +294,7 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
         }
         mat_continue_1x3to1x2(&RL, &RR, /**/ &R0, &R1, /**/ R, rdir);
         // next butterfly size
-        if (flags & ARMAS_TRANS) {
+        if (!(flags & ARMAS_TRANS)) {
             lb = 2 * lb;
             Nd = 2 * Nd;
             if (lb > A->cols)
@@ -372,6 +372,8 @@ int armas_mult_rbt(armas_dense_t * A, armas_dense_t * R, int flags,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    if (R->cols == 0)
+        return 0;
     if (flags & ARMAS_RIGHT) {
         rbt_recursive_right(A, R, flags, conf);
     } else {
diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index 0c103d2..e6f6ec7 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -96,7 +96,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
                                HALF * s1 * r1 * ((a00 + a11) - (a01 + a10)));
         }
         // for case when Nd > rows(A); here i+lb > rows(A)
-        for (; i < lb; i++) {
+        for (; i < lb && i < A->rows; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             a01 = armas_get_unsafe(A, i, j + lb);
@@ -105,7 +105,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
         }
     }
     // Nd > cols(A); here j+lb > cols(A); this updates first and second quadrant
-    for (; j < lb; j++) {
+    for (; j < lb && j < A->cols; j++) {
         s0 = armas_get_at_unsafe(S, j);
         for (i = 0; i < mb; i++) {
             r0 = armas_get_at_unsafe(R, i);
@@ -116,7 +116,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
             armas_set_unsafe(A, i + lb, j, HALF * s0 * r1 * (a00 - a10));
         }
         // for case when Nd > rows(A);
-        for (; i < lb; i++) {
+        for (; i < lb && i < A->rows; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, HALF * s0 * r0 * (a00));
@@ -145,16 +145,20 @@ int armas_update2_rbt_descend(
         return 0;
     }
 
+    if (A->rows == 0 || A->cols == 0)
+        return 0;
+
     lb = Nd / 2;
 
     // start from highest level
     mat_partition_1x2(&UL, &UR, /**/ U, 1, ARMAS_PRIGHT);
     mat_partition_1x2(&VL, &VR, /**/ V, 1, ARMAS_PRIGHT);
 
-    mat_partition_2x1(&U0, &U1, /**/ &UL, lb, ARMAS_PTOP);
-    mat_partition_2x1(&V0, &V1, /**/ &VL, lb, ARMAS_PTOP);
+    mat_partition_2x1(&U0, &U1, /**/ &UL, min(lb, A->rows), ARMAS_PTOP);
+    mat_partition_2x1(&V0, &V1, /**/ &VL, min(lb, A->cols), ARMAS_PTOP);
 
-    mat_partition_2x2(&A00, &A01, &A10, &A11, /**/ A, lb, lb, ARMAS_PTOPLEFT);
+    mat_partition_2x2(
+        &A00, &A01, &A10, &A11, /**/ A, min(lb, A->rows), min(lb, A->cols), ARMAS_PTOPLEFT);
 
     // compute subblocks;
     armas_update2_rbt_descend(&A00, &U0, &V0, Nd / 2, conf);
-- 
2.43.0


From 1f1d841fc8bcc3195fd6279b6fa54619f6b476c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 053/113] fix: solve_diag scales by alpha, not its inverse

---
 src/lapack/diag.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index e5c8c92..6e5d285 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -168,9 +168,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale columns; 
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = alpha / armas_get_at_unsafe(d, k);
             armas_column(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, aval, conf);
         }
         break;
     case ARMAS_LEFT:
@@ -183,9 +183,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale rows; for each column element-wise multiply of D element
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = alpha / armas_get_at_unsafe(d, k);
             armas_row(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, aval, conf);
         }
         break;
     }
-- 
2.43.0


From 0d744323d487195aa0d9a4118b9fcc97ad894b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 054/113] fix: small svd: signs of 1x1 factors, workspace size
 and use of workspace in tall case

---
 src/lapack/svd.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 8f92e31..4467751 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -72,7 +72,8 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
 
     if (M == 1 || N == 1) {
         // either tall M-by-1 or wide 1-by-N
-        armas_set_at_unsafe(S, 0, ABS(armas_get_unsafe(A, 0, 0)));
+        d0 = armas_get_unsafe(A, 0, 0);
+        armas_set_at_unsafe(S, 0, ABS(d0));
         if (!(flags & (ARMAS_WANTU | ARMAS_WANTV)))
             return 0;
 
@@ -89,12 +90,12 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
                         return -ARMAS_ESVD_LEFT;
                 }
             } else {
-                // U is 1-by-1
-                armas_set_unsafe(U, 0, 0, -ONE);
+                // U is 1-by-1, sign of the triangular factor
+                armas_set_unsafe(U, 0, 0, d0 < ZERO ? -ONE : ONE);
             }
         }
         if (flags & ARMAS_WANTV) {
-            if (M == 1) {
+            if (M < N) {
                 if (V->rows == A->rows) {
                     armas_copy(V, A, conf);
                     armas_lqbuild_w(V, &tau, M, wb, conf);
@@ -106,8 +107,8 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
                         return -ARMAS_ESVD_RIGHT;
                 }
             } else {
-                // V is 1-by-1
-                armas_set_unsafe(V, 0, 0, -ONE);
+                // V is 1-by-1, sign of the triangular factor
+                armas_set_unsafe(V, 0, 0, d0 < ZERO ? -ONE : ONE);
             }
         }
         return 0;
@@ -272,6 +273,7 @@ int armas_svd_tall(armas_dense_t * S, armas_dense_t * U,
             return -ARMAS_ESVD_RIGHT;
         vv = V;
     }
+    armas_wsetpos(wb, wsz);
     // run bidiagonal SVD
     if (armas_bdsvd_w(S, &sE, uu, vv, flags | ARMAS_UPPER, wb, conf) < 0)
         return -ARMAS_ESVD_EIGEN;
@@ -498,10 +500,9 @@ int armas_svd(armas_dense_t * S, armas_dense_t * U, armas_dense_t * V,
     if (!conf)
         conf = armas_conf_default();
 
-    if ((err = armas_svd_w(S, U, V, A, flags, &wb, conf)) < 0) {
-        conf->error = ARMAS_EWORK;
+    if ((err = armas_svd_w(S, U, V, A, flags, &wb, conf)) < 0)
         return err;
-    }
+
     if (wb.bytes > 0 && wb.bytes <= ARMAS_MAX_ONSTACK_WSPACE) {
         char b[ARMAS_MAX_ONSTACK_WSPACE];
         armas_wbuf_t wbt = (armas_wbuf_t) {
@@ -584,14 +585,15 @@ int armas_svd_w(armas_dense_t * S,
     }
 
     tall = A->rows >= A->cols;
+    int P = tall ? A->cols : A->rows;
+    // scalar coefficients and workspace of unblocked reduction to bidiagonal
+    size_t wsmin = (2 * P + A->rows + A->cols) * sizeof(DTYPE);
     env = armas_getenv();
     if (wb && wb->bytes == 0) {
-        int P = A->rows >= A->cols ? A->cols : A->rows;
-        int K = A->rows >= A->cols ? A->rows : A->cols;
-        if (P <= env->lb)
-            wb->bytes = 4 * P * sizeof(DTYPE);
+        if (env->lb > 0 && P > env->lb)
+            wb->bytes = wsmin + (A->rows + A->cols + env->lb) * env->lb * sizeof(DTYPE);
         else
-            wb->bytes = (K + env->lb) * env->lb * sizeof(DTYPE);
+            wb->bytes = wsmin;
         return 0;
     }
 
@@ -603,7 +605,7 @@ int armas_svd_w(armas_dense_t * S,
         return -ARMAS_ESIZE;
     }
 
-    if (!wb) {
+    if (!wb || armas_wbytes(wb) < wsmin) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
-- 
2.43.0


From f6d3dd84acec9e8c2be37ac1d9d20855b68a57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 055/113] fix: bidiagonal Demmel-Kahan iteration: thresholds,
 direction, zero diagonal and size 1

---
 src/lapack/bdsvd_dk.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index 6def402..e610ba4 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -47,7 +47,7 @@ void estimate_sval(DTYPE * smin, DTYPE * smax, armas_dense_t * D,
     int k, N = armas_size(D);
 
     d1 = ABS(armas_get_at_unsafe(D, 0));
-    e1 = ABS(armas_get_at_unsafe(E, 0));
+    e1 = N > 1 ? ABS(armas_get_at_unsafe(E, 0)) : ZERO;
     e0 = e1;
     ssmax = d1 > e1 ? d1 : e1;
     mu = ssmin = d1;
@@ -145,11 +145,11 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
     estimate_sval(&slow, &shigh, D, E);
     if (conf->optflags & ARMAS_OABSTOL) {
         threshold = maxit * SAFEMIN;
-        if (tol * shigh < threshold)
+        if (tol * shigh > threshold)
             threshold = tol * shigh;
     } else {
         threshold = tol * slow;
-        if (maxit * SAFEMIN < threshold)
+        if (maxit * SAFEMIN > threshold)
             threshold = maxit * SAFEMIN;
     }
 
@@ -171,7 +171,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
         // We search from bottom of the matrix to top and zero values below threshold
         // on the way upwards. And update estimates of singular values.
         d0 = ABS(armas_get_at_unsafe(D, iq - 1));
-        if (abstol && d0 < threshold)
+        if (abstol && d0 <= threshold)
             armas_set_at_unsafe(D, iq - 1, ZERO);
         shigh = ABS(armas_get_at_unsafe(D, iq - 1));
         slow = shigh;
@@ -179,7 +179,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
         for (k = iq - 1; k > 0; k--) {
             d0 = ABS(armas_get_at_unsafe(D, k - 1));
             e0 = ABS(armas_get_at_unsafe(E, k - 1));
-            if (e0 < threshold) {
+            if (e0 <= threshold) {
                 armas_set_at_unsafe(E, k - 1, ZERO);
                 if (k == (iq - 1)) {
                     // convergence of bottom singular value
@@ -193,6 +193,10 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
                 break;
             }
             ip = k - 1;
+            if (abstol && d0 <= threshold) {
+                armas_set_at_unsafe(D, k - 1, ZERO);
+                d0 = ZERO;
+            }
             // update estimates
             slow = MIN(slow, d0);
             shigh = MAX(MAX(shigh, d0), e0);
@@ -236,7 +240,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             d0 = ABS(armas_get_at_unsafe(D, ip));
             d1 = ABS(armas_get_at_unsafe(D, iq - 1));
             // select direction
-            forwards = d1 >= d0 || (flags & ARMAS_FORWARD) != 0;
+            forwards = d0 >= d1 || (flags & ARMAS_FORWARD) != 0;
         }
         // convergence
         if (forwards) {
@@ -244,7 +248,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             e0 = ABS(armas_get_at_unsafe(E, iq - 2));
             d0 = ABS(armas_get_at_unsafe(D, iq - 1));
             // this is the standard convergence test 
-            if ((abstol && e0 < threshold) || e0 < tol * d0) {
+            if ((abstol && e0 <= threshold) || e0 <= tol * d0) {
                 armas_set_at_unsafe(E, iq - 2, ZERO);
                 iq = iq - 1;
                 goto Next;
@@ -267,7 +271,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             // criterion 1a, 1b, 2b
             e0 = ABS(armas_get_at_unsafe(E, ip));
             d0 = ABS(armas_get_at_unsafe(D, ip));
-            if ((abstol && e0 < threshold) || e0 < tol * d0) {
+            if ((abstol && e0 <= threshold) || e0 <= tol * d0) {
                 armas_set_at_unsafe(E, ip, ZERO);
                 ip = ip + 1;
                 goto Next;
@@ -288,24 +292,25 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             }
         }
         // compute shift
-        if (!abstol && (N * tol * (slow / shigh)) <= max(EPS, 0.01 * tol)) {
+        if (slow == ZERO
+            || (!abstol && (N * tol * (slow / shigh)) <= max(EPS, 0.01 * tol))) {
             zero = 1;
         } else {
             if (forwards) {
-                d0 = ABS(armas_get_at_unsafe(D, ip));
+                d0 = armas_get_at_unsafe(D, ip);
                 d1 = armas_get_at_unsafe(D, iq - 2);
                 e1 = armas_get_at_unsafe(E, iq - 2);
                 dp = armas_get_at_unsafe(D, iq - 1);
                 armas_bdsvd2x2(&ushift, &r, d1, e1, dp);
             } else {
-                d0 = ABS(armas_get_at_unsafe(D, iq - 1));
+                d0 = armas_get_at_unsafe(D, iq - 1);
                 d1 = armas_get_at_unsafe(D, ip);
                 e1 = armas_get_at_unsafe(E, ip);
                 dp = armas_get_at_unsafe(D, ip + 1);
                 armas_bdsvd2x2(&ushift, &r, d1, e1, dp);
             }
-            if (d0 > ZERO)
-                zero = (ushift / d0) * (ushift / d0) <= EPS;
+            // shifted sweep is not defined if the first diagonal is zero
+            zero = d0 == ZERO || (ushift / d0) * (ushift / d0) <= EPS;
         }
 
         armas_subvector(&sD, D, ip, iq - ip);
-- 
2.43.0


From 442c30905d42c4b9da05dd81ea43d72f4c13d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 056/113] fix: bidiagonal Golub iteration: zero diagonal
 deflation and shift

---
 src/lapack/bdsvd_gr.c | 81 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 66 insertions(+), 15 deletions(-)

diff --git a/src/lapack/bdsvd_gr.c b/src/lapack/bdsvd_gr.c
index f4f4572..936f530 100644
--- a/src/lapack/bdsvd_gr.c
+++ b/src/lapack/bdsvd_gr.c
@@ -106,13 +106,59 @@ DTYPE compute_bsvd_shift(DTYPE e, DTYPE f, DTYPE g, DTYPE h)
     T = (a + c) / 2.0;
     D = a * c - b * b;
     armas_qdroots(&e1, &e2, 1.0, T, D);
-    if (ABS(e1) - c < ABS(e2) - c)
+    if (ABS(e1 - c) < ABS(e2 - c))
         return e1;
     return e2;
 }
 
 
 
+/*
+ * Zero diagonal entry at index i of the unreduced block ip:iq, splits the
+ * block by chasing the off-diagonal entry out with plane rotations.
+ *
+ * If not the last of the block then row i is zeroed with rotations from left
+ * with rows i+1, ..., iq-1. Otherwise the last column of the block is zeroed
+ * with rotations from right with columns iq-2, ..., ip.
+ */
+static
+void deflate_zero(armas_dense_t * D, armas_dense_t * E,
+                  armas_dense_t * U, armas_dense_t * V, int i, int ip, int iq)
+{
+    DTYPE c, s, r, f, e1;
+    int j;
+
+    if (i < iq - 1) {
+        f = armas_get_at_unsafe(E, i);
+        armas_set_at_unsafe(E, i, ZERO);
+        for (j = i + 1; j < iq && f != ZERO; j++) {
+            armas_gvcompute(&c, &s, &r, armas_get_at_unsafe(D, j), f);
+            armas_set_at_unsafe(D, j, r);
+            if (j < iq - 1) {
+                e1 = armas_get_at_unsafe(E, j);
+                armas_set_at_unsafe(E, j, c * e1);
+                f = -s * e1;
+            }
+            if (U)
+                armas_gvright(U, c, s, j, i, 0, U->rows);
+        }
+    } else {
+        f = armas_get_at_unsafe(E, i - 1);
+        armas_set_at_unsafe(E, i - 1, ZERO);
+        for (j = i - 1; j >= ip && f != ZERO; j--) {
+            armas_gvcompute(&c, &s, &r, armas_get_at_unsafe(D, j), f);
+            armas_set_at_unsafe(D, j, r);
+            if (j > ip) {
+                e1 = armas_get_at_unsafe(E, j - 1);
+                armas_set_at_unsafe(E, j - 1, c * e1);
+                f = -s * e1;
+            }
+            if (V)
+                armas_gvleft(V, c, s, j, i, 0, V->cols);
+        }
+    }
+}
+
 /*
  * Golub-Kahan-Reisch SVD algorithm as described in
  *  - Hogben, Handbook of Linear Algebra 2007, 45.2 algorithm 1b,1c
@@ -123,7 +169,7 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
                   armas_dense_t * CS, DTYPE tol, armas_conf_t * conf)
 {
     int N, work, lc, i, n, nrot, ip, iq, zeros, saves;
-    DTYPE e0, e1, d0, d1, dp, c, s, r, ushift;
+    DTYPE e0, e1, d0, d1, dp, ushift, bnorm;
     armas_dense_t sD, sE, Cr, Sr, Cl, Sl;
 
     EMPTY(sD);
@@ -141,6 +187,13 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         saves = 1;
     }
 
+    // largest element; shifts are computed from elements scaled with it
+    bnorm = ABS(armas_get_at_unsafe(D, 0));
+    for (i = 1; i < N; i++) {
+        bnorm = MAX(bnorm, ABS(armas_get_at_unsafe(D, i)));
+        bnorm = MAX(bnorm, ABS(armas_get_at_unsafe(E, i - 1)));
+    }
+
     ip = 0;
     iq = N;
     for (work = 1, n = 0; work && lc > 0; lc--, n++) {
@@ -152,7 +205,7 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
             d0 = armas_get_at_unsafe(D, i);
             d1 = armas_get_at_unsafe(D, i + 1);
             dp = ABS(d0) + ABS(d1);
-            if (ABS(e1) < tol * dp) {
+            if (ABS(e1) <= tol * dp) {
                 armas_set_at(E, i, 0.0);
             }
         }
@@ -167,13 +220,11 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         // from column iq already diagonal; work ip:iq
         zeros = 0;
         for (i = ip; i < iq; i++) {
-            d0 = armas_get_at(D, i);
-            if (d0 == 0.0) {
-                e1 = armas_get_at(E, i);
-                armas_gvcompute(&c, &s, &r, d0, e1);
-                armas_set_at_unsafe(D, i, r);
-                armas_set_at_unsafe(E, i, 0.0);
+            if (ABS(armas_get_at_unsafe(D, i)) <= EPS * bnorm) {
+                armas_set_at_unsafe(D, i, ZERO);
+                deflate_zero(D, E, U, V, i, ip, iq);
                 zeros = 1;
+                break;
             }
         }
         if (zeros)
@@ -204,14 +255,14 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         armas_subvector(&sE, E, ip, iq - ip - 1);
 
         // get elements to compute shift from trailing B.T*T 2x2 matrix
-        d0 = armas_get_at_unsafe(D, iq - 2);
-        d1 = armas_get_at_unsafe(D, iq - 1);
-        e0 = iq < 3 ? 0.0 : armas_get_at_unsafe(E, iq - 3);
-        e1 = armas_get_at_unsafe(E, iq - 2);
+        d0 = armas_get_at_unsafe(D, iq - 2) / bnorm;
+        d1 = armas_get_at_unsafe(D, iq - 1) / bnorm;
+        e0 = armas_get_at_unsafe(E, iq - 3) / bnorm;
+        e1 = armas_get_at_unsafe(E, iq - 2) / bnorm;
         ushift = compute_bsvd_shift(e0, d0, e1, d1);
 
-        d0 = armas_get_at_unsafe(D, ip);
-        e0 = armas_get_at_unsafe(E, ip);
+        d0 = armas_get_at_unsafe(D, ip) / bnorm;
+        e0 = armas_get_at_unsafe(E, ip) / bnorm;
         nrot =
             armas_bd_qrsweep(&sD, &sE, &Cr, &Sr,
                                &Cl, &Sl, (d0 * d0 - ushift), (d0 * e0), saves);
-- 
2.43.0


From 6e41432c7573e5d8c32a14607024c047c91e75e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 057/113] fix: dqds: size 1 out of bounds access, diagonal
 input and loop termination

---
 src/lapack/dqds.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index e236838..dfda710 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -471,6 +471,7 @@ void dqds_shift(DTYPE * tau, armas_dense_t * q, armas_dense_t * e,
 static
 void dqds2x2_plain(DTYPE * r1, DTYPE * r2, DTYPE q1, DTYPE e1, DTYPE q2)
 {
+    volatile DTYPE dq;
     DTYPE t, s;
     if (q1 < q2) {
         //printf("..[dqds2x2] q1 < q2, swap!\n");
@@ -478,15 +479,17 @@ void dqds2x2_plain(DTYPE * r1, DTYPE * r2, DTYPE q1, DTYPE e1, DTYPE q2)
         q1 = q2;
         q2 = t;
     }
-    t = 0.5 * ((q1 - q2) + e1);
+    // volatile local to deny reordering, e1 may be small to q1 and q2
+    dq = q1 - q2;
+    t = 0.5 * (dq + e1);
     if (e1 > EPS2 * q2 && t != ZERO) {
         s = q2 * (e1 / t);
         //printf("..[dqds2x2] q1=%13e, q2=%13e, e1=%13e, t=%13e, s=%13e, e1/t=%13e\n",
         //       q1, q2, e1, t, s, e1/t);
         if (s <= t) {
-            s = q2 * e1 / (t * (1.0 + SQRT(1.0 + s / t)));
+            s = q2 * (e1 / (t * (1.0 + SQRT(1.0 + s / t))));
         } else {
-            s = q2 * e1 / (t + SQRT(t) * SQRT(t + s));
+            s = q2 * (e1 / (t + SQRT(t) * SQRT(t + s)));
         }
         t = q1 + (s + e1);
         //printf("..[dqds2x2] q1=%13e, q2=%13e, e1=%13e, t=%13e, s=%13e, q1/t=%13e\n",
@@ -535,13 +538,17 @@ int dqds_neglible(armas_dense_t * Z, int N, int ping, DTYPE sigma)
     //  e(n-2) neglible if
     //    old.e(n-2) <= eps^2*q(n-2) || e(n-2) <= eps^2*(sigma + q(n-1)*q(n)/(q(n)+e(n-1)))
 
+    qn = armas_get_unsafe(Z, qrow, N - 1);
+    if (N == 1) {
+        armas_set_unsafe(Z, 0, 0, qn + sigma);
+        return 1;
+    }
     en1 = armas_get_unsafe(Z, erow, N - 2);
     en1p = armas_get_unsafe(Z, eerow, N - 2);
-    qn = armas_get_unsafe(Z, qrow, N - 1);
     qn1 = armas_get_unsafe(Z, qrow, N - 2);
 
-    // deflate if N == 1 or if last E is neglibe --> 1 eigenvalue 
-    if (N == 1 || en1 <= EPS2 * (sigma + qn) || en1p <= EPS2 * qn1) {
+    // deflate if last E is neglibe --> 1 eigenvalue
+    if (en1 <= EPS2 * (sigma + qn) || en1p <= EPS2 * qn1) {
         r1 = armas_get_unsafe(Z, qqrow, N - 1);
         //printf("..[neglible] deflate, 1 eigenvalue, k=%d, eig=%9.7f (%9.7f)\n",
         //       N-1, SQRT(qn+sigma), SQRT(r1+sigma));
@@ -560,7 +567,7 @@ int dqds_neglible(armas_dense_t * Z, int N, int ping, DTYPE sigma)
     }
     // 2 eigenvalues; from (1) sec 6.1
     dqds2x2_plain(&r1, &r2, qn1, en1, qn);
-    armas_set_unsafe(Z, 0, N - 1, qn * (qn1 / r1) + sigma);
+    armas_set_unsafe(Z, 0, N - 1, r2 + sigma);
     armas_set_unsafe(Z, 0, N - 2, r1 + sigma);
     //printf("..[neglible] deflate, 2 eigenvalues, k=%d, 1.eig=%9.6f, 2.eig=%9.6f\n",
     //     N-1, SQRT(qn*(qn1/r1)+sigma), SQRT(r1+sigma));
@@ -679,8 +686,8 @@ int dqds_goodstep(DTYPE * ssum, armas_dense_t * Z, int N, int pp,
                 dmind->dmin = ZERO;
                 //printf("..[masked] dmin1 > %e, setting qn to zero.!\n",
                 //       dmind->dmin1);
-                // break out from loop
-                //break;
+                // done; tau is already in the computed q and e values
+                break;
             }
 
             nfail++;
@@ -859,7 +866,7 @@ void dqds_li_test(int ping, armas_dense_t * Z, int N, DTYPE * emin,
         ek = armas_get_at_unsafe(&se, k);
         qk1 = armas_get_at_unsafe(&sq, k + 1);
         qk = d + ek;
-        if (ek < EPS2 * d) {
+        if (ek <= EPS2 * d) {
             // Li's test eq.5 in (1), page 12
             //printf("..[li] ek=%13e < EPS2*d [%13e, %13e]\n", ek, d, EPS2*d);
             armas_set_at_unsafe(&se, k, -ZERO);
@@ -1149,6 +1156,10 @@ int armas_dqds_w(armas_dense_t * D, armas_dense_t * E, armas_wbuf_t * wb,
 
     if (emax == ZERO) {
         // already diagonal
+        for (k = 0; k < N; k++) {
+            armas_set_at_unsafe(D, k, armas_get_at_unsafe(&sq, k));
+        }
+        armas_sort_eigenvec(D, __nil, __nil, __nil, ARMAS_DESC);
         return 0;
     }
 #if defined(__DQDS_SCALING)
-- 
2.43.0


From 925eb98debfb8f30d574d40fea5eccc80de00f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 058/113] fix: 2x2 singular value signs and stable 2x2
 symmetric eigenvalue computation

---
 src/lapack/aux.c | 49 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/lapack/aux.c b/src/lapack/aux.c
index f05dfae..114ac9f 100644
--- a/src/lapack/aux.c
+++ b/src/lapack/aux.c
@@ -279,13 +279,13 @@ void armas_bdsvd2x2_vec(DTYPE * ssmin, DTYPE * ssmax, DTYPE * cosl,
         *sinr = clt;
         *cosl = srt;
         *sinl = crt;
-        tsign = sign(ONE, *cosr) * sign(ONE, *cosl) * sign(ONE, f);
+        tsign = sign(ONE, *sinr) * sign(ONE, *sinl) * sign(ONE, h);
     } else {
         *cosr = crt;
         *sinr = srt;
         *cosl = clt;
         *sinl = slt;
-        tsign = sign(ONE, *sinr) * sign(ONE, *sinl) * sign(ONE, h);
+        tsign = sign(ONE, *cosr) * sign(ONE, *cosl) * sign(ONE, f);
     }
     if (gmax)
         tsign = sign(ONE, *sinr) * sign(ONE, *cosl) * sign(ONE, g);
@@ -370,7 +370,8 @@ void armas_sym_eigen2x2(DTYPE * z1, DTYPE * z2, DTYPE a, DTYPE b, DTYPE c)
 void armas_sym_eigen2x2vec(DTYPE * z1, DTYPE * z2, DTYPE * cs,
                              DTYPE * sn, DTYPE a, DTYPE b, DTYPE c)
 {
-    DTYPE T, b2a, amca, Zt, acmax, acmin, ht;
+    DTYPE T, b2, d, rt, acmax, acmin, t, c1, s1;
+    int sgn1, sgn2;
 
     acmax = a;
     acmin = c;
@@ -378,17 +379,41 @@ void armas_sym_eigen2x2vec(DTYPE * z1, DTYPE * z2, DTYPE * cs,
         acmax = c;
         acmin = a;
     }
-    b2a = ABS(b + b);
+    // as in lapack.xLAEV2
+    b2 = b + b;
     T = a + c;
-    amca = ABS(a - c);
-    Zt = T + COPYSIGN(HYPOT(amca, b2a), T);
-    *z1 = HALF * Zt;
-    *z2 = TWO * ((acmax / Zt) * acmin - (b / Zt) * b);
+    d = a - c;
+    rt = HYPOT(d, b2);
+    sgn1 = T < ZERO ? -1 : 1;
+    if (T == ZERO) {
+        *z1 = HALF * rt;
+        *z2 = -HALF * rt;
+    } else {
+        *z1 = HALF * (T + sgn1 * rt);
+        *z2 = (acmax / *z1) * acmin - (b / *z1) * b;
+    }
 
-    // these should be thought out for cancellation effects....
-    ht = HYPOT(1.0, (*z1 - a) / b);
-    *cs = 1.0 / ht;
-    *sn = (*z1 - a) / (b * ht);
+    sgn2 = d < ZERO ? -1 : 1;
+    t = d + sgn2 * rt;
+    if (ABS(t) > ABS(b2)) {
+        t = -b2 / t;
+        s1 = ONE / SQRT(ONE + t * t);
+        c1 = t * s1;
+    } else if (b2 == ZERO) {
+        c1 = ONE;
+        s1 = ZERO;
+    } else {
+        t = -t / b2;
+        c1 = ONE / SQRT(ONE + t * t);
+        s1 = t * c1;
+    }
+    if (sgn1 == sgn2) {
+        *cs = -s1;
+        *sn = c1;
+    } else {
+        *cs = c1;
+        *sn = s1;
+    }
 }
 //! @}
 #else
-- 
2.43.0


From b8672c6de21fa24400e77a45e5e8baf70045223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 059/113] fix: symmetric eigenproblem: sorted 2x2 case and
 argument size checks

---
 src/lapack/evd.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 8a92d07..7bf8629 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -57,6 +57,8 @@ int eigen_sym_small(armas_dense_t * D, armas_dense_t * A,
         armas_set_unsafe(A, 1, 0, ZERO);
         armas_gvright(A, cs, sn, 0, 1, 0, A->rows);
     }
+    armas_sort_eigenvec(D, (flags & ARMAS_WANTV) ? A : ARMAS_NIL, ARMAS_NIL,
+                        ARMAS_NIL, ARMAS_ASC);
     return 0;
 }
 
@@ -132,7 +134,7 @@ int armas_eigen_sym_w(armas_dense_t * D,
     if (!conf)
         conf = armas_conf_default();
 
-    if (!A) {
+    if (!A || !D) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
@@ -147,7 +149,7 @@ int armas_eigen_sym_w(armas_dense_t * D,
         return 0;
     }
 
-    if (A->rows != A->cols && armas_size(D) != A->rows) {
+    if (A->rows != A->cols || armas_size(D) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
@@ -301,7 +303,7 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         return -ARMAS_ESIZE;
     }
 
-    if (!wb && (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE)) {
+    if (!wb || (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
-- 
2.43.0


From c0a8e4025a6c03cf5e6bb80f1870b4bf43a9d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 060/113] fix: tridiagonal eigenvalue iteration limits

---
 src/lapack/trdevd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/trdevd.c b/src/lapack/trdevd.c
index 045a9ed..897cb3b 100644
--- a/src/lapack/trdevd.c
+++ b/src/lapack/trdevd.c
@@ -57,7 +57,7 @@ int armas_trdevd_qr(armas_dense_t * D, armas_dense_t * E,
         saves = 1;
     }
 
-    maxiter = 6 * N;
+    maxiter = 30 * N;
     iq = iqold = N;
     ip = ipold = 0;
     for (stop = 0, n = 0; !stop && maxiter > 0 && iq > 0; maxiter--, n++) {
@@ -66,7 +66,7 @@ int armas_trdevd_qr(armas_dense_t * D, armas_dense_t * E,
         for (k = iq - 1; k > 0; k--) {
             e1 = ABS(armas_get_at_unsafe(E, k - 1));
             d1 = ABS(armas_get_at_unsafe(D, k - 1));
-            if (e1 < tol * (d0 + d1)) {
+            if (e1 <= tol * (d0 + d1)) {
                 armas_set_at_unsafe(E, k - 1, ZERO);
                 if (k == (iq - 1)) {
                     // convergence of bottom value;
-- 
2.43.0


From e0b53ef452f94ea0e2f986534f84c1602d06bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 061/113] fix: tridiagonal bisection: zero pivots, out of
 bounds read, selection of values and errors

---
 src/lapack/trdbis.c | 77 ++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 32 deletions(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 5a6fe2b..6229a6c 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -74,15 +74,19 @@
  * See (1) 5.3 algorithm 4.
  */
 static
-int float_count_ieee(armas_dense_t * D, armas_dense_t * E, DTYPE x)
+int float_count_ieee(armas_dense_t * D, armas_dense_t * E, DTYPE x, DTYPE pivmin)
 {
     int k, count = 0;
-    DTYPE d = ONE, bim1 = ZERO;
+    DTYPE d, ek, t = ZERO;
 
     for (k = 0; k < armas_size(D); k++) {
-        d = (armas_get_at_unsafe(D, k) - x) - bim1 * bim1 / d;
-        bim1 = armas_get_at_unsafe(E, k);
-        count += signbit(d) ? 1 : 0;
+        d = (armas_get_at_unsafe(D, k) - x) - t;
+        ek = k < armas_size(E) ? armas_get_at_unsafe(E, k) : ZERO;
+        // replace too small pivot if next element is divided by it
+        if (ek != ZERO && ABS(d) < pivmin)
+            d = -pivmin;
+        t = ek != ZERO ? ek * ek / d : ZERO;
+        count += d < ZERO ? 1 : 0;
     }
     return count;
 }
@@ -95,8 +99,8 @@ int float_count_ieee(armas_dense_t * D, armas_dense_t * E, DTYPE x)
  *  fudge = 2.1; pivmin = min e(i)^2  ; pivmin = pivmin*safemn
  */
 static
-void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
-                           armas_dense_t * E)
+void compute_gerschgorin(DTYPE * glow, DTYPE * gup, DTYPE * piv,
+                           armas_dense_t * D, armas_dense_t * E)
 {
     int k, n = armas_size(D);
     DTYPE gl, gu, di, ei, eim1, t, bnorm, pivmin;
@@ -114,7 +118,7 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
         if (gu < di + t)
             gu = di + t;
         eim1 = ei;
-        if (ei * ei < pivmin)
+        if (ei * ei > pivmin)
             pivmin = ei * ei;
     }
     pivmin = SAFEMIN * pivmin;
@@ -127,7 +131,8 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
     // widen the interval to ensure that all eigenvalues are included.
     bnorm = ABS(gl) > ABS(gu) ? ABS(gl) : ABS(gu);
     *glow = gl - bnorm * (n * EPS) * 2.0 - 4.2 * pivmin;
-    *gup = gu + bnorm * (n * EPS) * 2.0 + 2.1 * pivmin;
+    *gup = gu + bnorm * (n * EPS) * 2.0 + 4.2 * pivmin;
+    *piv = pivmin;
 
 }
 
@@ -150,36 +155,37 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
  * \param tau
  *      requested precision; must be < max|T_i|*eps
  *
- * \retval eigenvalue or NaN
+ * \retval  0 OK
+ * \retval <0 requested eigenvalue not in the interval
  */
 static
-DTYPE trd_bisect_one(armas_dense_t * D,
+int trd_bisect_one(DTYPE * eigen, armas_dense_t * D,
                        armas_dense_t * E,
                        DTYPE left,
-                       DTYPE right, int nleft, int nright, DTYPE tau)
+                       DTYPE right, int nleft, int nright, DTYPE tau, DTYPE pivmin)
 {
     int nl, nr, nmid, working = 1;
-    DTYPE mid, eigen;
+    DTYPE mid;
 
     if (nleft >= nright || left > right) {
-        return NAN;
+        return -1;
     }
 
-    nl = float_count_ieee(D, E, left);
-    nr = float_count_ieee(D, E, right);
+    nl = float_count_ieee(D, E, left, pivmin);
+    nr = float_count_ieee(D, E, right, pivmin);
     if (nl > nleft || nr < nright) {
-        return NAN;
+        return -1;
     }
 
     for (int count = 0; working; count++) {
         // inside(l, r) (see Assumption 3 in (1))
         mid = (right + left) / 2.0;
-        if (right - left < tau) {
-            eigen = MIN(MAX(mid, left), right);
+        if (right - left <= tau || mid <= left || mid >= right) {
+            *eigen = MIN(MAX(mid, left), right);
             // printf("  eigen: %e [%d iterations]\n", eigen, count);
             working = 0;
         } else {
-            nmid = float_count_ieee(D, E, mid);
+            nmid = float_count_ieee(D, E, mid, pivmin);
             nmid = IMIN(IMAX(nmid, nleft), nright);
             if (nmid > nleft) {
                 right = mid;
@@ -191,7 +197,7 @@ DTYPE trd_bisect_one(armas_dense_t * D,
             }
         }
     }
-    return eigen;
+    return 0;
 }
 
 
@@ -204,7 +210,7 @@ DTYPE trd_bisect_one(armas_dense_t * D,
  * to define value range [low, high). 
  *
  * @param[out] Y
- *      Computed eigenvalues sorted to increasing order.
+ *      Computed eigenvalues sorted to increasing order, first of them at index 0.
  * @param[in] D
  *      Diagonal elements of tridiagonal matrix T
  * @param[in] E
@@ -225,17 +231,21 @@ int armas_trdbisect(armas_dense_t * Y,
                       armas_conf_t * conf)
 {
     //armas_dense_t Xrow;
-    DTYPE gleft, gright, bnorm, tau, eigen;
+    DTYPE gleft, gright, bnorm, tau, pivmin, eigen;
     int nleft, nright;
     int first, last;
 
     if (!conf)
         conf = armas_conf_default();
 
-    if (armas_size(D) == 0 || armas_size(E) == 0)
+    if (armas_size(D) == 0)
         return 0;
+    if (armas_size(E) != armas_size(D) - 1) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
-    compute_gerschgorin(&gleft, &gright, D, E);
+    compute_gerschgorin(&gleft, &gright, &pivmin, D, E);
     bnorm = MAX(ABS(gleft), ABS(gright));
     tau = params ? params->tau : 0.0;
     if (tau < bnorm * EPS)
@@ -246,8 +256,8 @@ int armas_trdbisect(armas_dense_t * Y,
             // index parameters are zero; eigenvalue range defined.
             gleft = MAX(gleft, params->left);
             gright = MIN(gright, params->right);
-            nleft = float_count_ieee(D, E, gleft);
-            nright = IMAX(0, float_count_ieee(D, E, gright));
+            nleft = float_count_ieee(D, E, gleft, pivmin);
+            nright = IMAX(0, float_count_ieee(D, E, gright, pivmin));
         } else {
             // index range
             nleft = IMAX(0, params->ileft);
@@ -261,13 +271,16 @@ int armas_trdbisect(armas_dense_t * Y,
         last = armas_size(D);
     }
 
+    if (armas_size(Y) < last - first) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     for (int k = first; k < last; k++) {
-        eigen = trd_bisect_one(D, E, gleft, gright, k, k + 1, tau);
-        if (isnan(eigen)) {
-            return -1;
+        if (trd_bisect_one(&eigen, D, E, gleft, gright, k, k + 1, tau, pivmin) < 0) {
+            conf->error = ARMAS_ECONVERGE;
+            return -ARMAS_ECONVERGE;
         }
-        armas_set_unsafe(Y, k, 0, eigen);
-        gleft = (eigen > ZERO ? (ONE - EPS) : (ONE + EPS)) * gleft;
+        armas_set_at_unsafe(Y, k - first, eigen);
     }
     return 0;
 }
-- 
2.43.0


From 6a7f36b94dc57f282ee2fe675b67a27d82593433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 062/113] fix: secular equation: pole pairing, convergence and
 accuracy of the root iteration

---
 src/lapack/trdsec.c | 125 ++++++++++++++++++++++++--------------------
 1 file changed, 68 insertions(+), 57 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 8d9cd9c..6678936 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -91,28 +91,17 @@ static inline
 void compute_delta(armas_dense_t * delta, armas_dense_t * D, int ik,
                    DTYPE tau)
 {
-    DTYPE d0, d1;
+    DTYPE d0;
+    // volatile; must not be re-associated to D(j) - (D(K) + tau)
+    volatile DTYPE d1;
     d0 = armas_get_at_unsafe(D, ik);
     for (int i = 0; i < armas_size(D); i++) {
-        d1 = (armas_get_at_unsafe(D, i) - d0) - tau;
-        armas_set_at_unsafe(delta, i, d1);
+        d1 = armas_get_at_unsafe(D, i) - d0;
+        armas_set_at_unsafe(delta, i, d1 - tau);
     }
     armas_set_at_unsafe(delta, ik, -tau);
 }
 
-/*
- * Compute delta(j) = delta(j) - eta
- */
-static inline
-void update_delta(armas_dense_t * delta, DTYPE eta)
-{
-    int ix;
-    ix = delta->rows == 1 ? delta->step : 1;
-    for (int i = 0; i < armas_size(delta); i++) {
-        delta->elems[i*ix] -= eta;
-    }
-}
-
 
 /*
  * Secular function
@@ -190,7 +179,7 @@ void update_delta(armas_dense_t * delta, DTYPE eta)
 /*
  * Stopping criterias:
  * a.  |eta| <= c *__eps * min(|d_k - y|, |d_k1 - y|)               (1) eq.48
- * b.  eta^2 <= __eps * min(|d_k - y|, |d_k1 - y|)*(|eta0|-|eta|)   (1) eq.49
+ *     (not used, invalid if increment is result of interval halving)
  * c.  |F|   <= N * __eps * (1/rho + |H+G|)                         (1) eq.50/(3) eq 3.4
  */
 
@@ -269,6 +258,10 @@ int trdsec_initial_guess(DTYPE * tau, DTYPE * tau_low, DTYPE * tau_high,
     } else {
         *tau = (B - SQRT(dd)) / C;
     }
+    // starting point must be inside the bracketing interval and not on a pole
+    if (!(*tau >= *tau_low && *tau <= *tau_high) || *tau == ZERO) {
+        *tau = (*tau_low + *tau_high) / 2.0;
+    }
     compute_delta(delta, D, iK, *tau);
     return iK;
 
@@ -296,8 +289,12 @@ int trdsec_initial_guess(DTYPE * tau, DTYPE * tau_low, DTYPE * tau_high,
         *tau_low = ZERO;
         *tau_high = mpoint;
     }
+    // starting point must be inside the bracketing interval
+    if (!(*tau > *tau_low && *tau <= *tau_high)) {
+        *tau = mpoint;
+    }
     compute_delta(delta, D, N - 1, *tau);
-    return index - 1;
+    return N - 1;
 }
 
 /*
@@ -322,62 +319,56 @@ static
 int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
                 armas_dense_t * delta, int index, DTYPE rho)
 {
-    int iK, iK1, niter, maxiter, N;
+    int iK, iL, niter, maxiter, N;
 
-    DTYPE F, dF, Fa, A, B, C, tau, tau_low, tau_high, eta, eta0, dd, edif;
+    DTYPE F, dF, Fa, A, B, C, tau, tau_low, tau_high, eta, dd, dmin;
     DTYPE delta_k, delta_k1, da_k, da_k1;
     DTYPE H, dH, G, dG;
 
     N = armas_size(D);
+    if (N == 1) {
+        // only one term, the root is explicit
+        A = armas_get_at_unsafe(Z, 0);
+        tau = rho * A * A;
+        armas_set_at_unsafe(delta, 0, -tau);
+        *lambda = armas_get_at_unsafe(D, 0) + tau;
+        return 0;
+    }
     tau = ZERO;
 
     // compute initial value at (D[k] + D[k+1])/2
     // note: D[i] - (D[k] + D[k+1])/2 == D[i] - D[k] - (D[k+1] - D[k])/2.0
     iK = trdsec_initial_guess(&tau, &tau_low,
                               &tau_high, D, Z, delta, index, rho);
-    if (iK == index) {
-        iK1 = index + 1;
-        delta_k = armas_get_at_unsafe(delta, iK);
-        if (index < N - 1) {
-            delta_k1 = armas_get_at_unsafe(delta, iK1);
-        } else {
-            delta_k1 = tau;
-        }
-    } else {
-        iK1 = index;
-        delta_k1 = armas_get_at_unsafe(delta, iK1);
-        if (index < N - 1) {
-            delta_k = armas_get_at_unsafe(delta, iK);
-        } else {
-            delta_k = tau;
-        }
-    }
+    // poles of the interpolating rational function are D[iL] and D[iL+1]
+    iL = index < N - 1 ? index : N - 2;
     eta = ONE;
-    eta0 = ONE;
-    maxiter = 20;
+    maxiter = 150;
     for (niter = 0; niter < maxiter; niter++) {
 
         G = ZERO;
         dG = ZERO;
-        rational_forward(&G, &dG, Z, delta, 0, iK + 1);
+        rational_forward(&G, &dG, Z, delta, 0, iL + 1);
         H = ZERO;
         dH = ZERO;
-        rational_backward(&H, &dH, Z, delta, iK + 1, N);
+        rational_backward(&H, &dH, Z, delta, iL + 1, N);
         F = 1 / rho + G + H;
         dF = dG + dH;
         Fa = 1 / rho + ABS(G + H);
 
+        delta_k = armas_get_at_unsafe(delta, iL);
+        delta_k1 = armas_get_at_unsafe(delta, iL + 1);
         da_k = ABS(delta_k);
         da_k1 = ABS(delta_k1);
 
-        edif = (da_k < da_k1 ? da_k : da_k1) * (ABS(eta0) - ABS(eta));
+        dmin = da_k < da_k1 ? da_k : da_k1;
 
         // stopping criterion from (1) eq 50 and (3) eq 3.4
         if (ABS(F) < N * EPS * Fa) {
             break;
         }
-        // stopping criterion from (1), eq 49
-        if (eta * eta < EPS * edif) {
+        // stopping criterion from (1), eq 48
+        if (niter > 0 && ABS(eta) <= EPS * dmin) {
             break;
         }
         if (F < ZERO) {
@@ -385,6 +376,12 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
         } else {
             tau_high = tau_high < tau ? tau_high : tau;
         }
+        // stop when interval cannot be divided any more or computed value of
+        // the function is not distinguishable from rounding errors
+        if (tau_high - tau_low <= EPS * ABS(tau)
+            || ABS(F) <= 2.0 * EPS * (1 / rho + ABS(G) + ABS(H) + ABS(tau) * dF)) {
+            break;
+        }
 
         A = F - delta_k * dG - delta_k1 * dH;
         B = (delta_k + delta_k1) * F - delta_k * delta_k1 * (dH + dG);
@@ -392,17 +389,33 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
         // compute discriminant of A*x^2 - 2B*x + C with extra precission
         B /= 2.0;
         armas_discriminant(&dd, A, B, C);
-        eta0 = eta;
-        if (B > 0) {
+        dd = dd < ZERO ? ZERO : dd;
+        if (index == N - 1) {
+            // the root is outside of the poles, to the right
+            A = ABS(A);
+            if (A == ZERO) {
+                eta = tau_high - tau;
+            } else if (B >= ZERO) {
+                eta = (B + SQRT(dd)) / A;
+            } else {
+                eta = C / (B - SQRT(dd));
+            }
+        } else if (B > ZERO) {
             eta = C / (B + SQRT(dd));
-        } else {
+        } else if (A != ZERO) {
             eta = (B - SQRT(dd)) / A;
+        } else {
+            eta = -F / dF;
         }
         // F and eta should be of different sign. If product positive
         // then use Newton step instead.
         if (F * eta > ZERO) {
             eta = -F / dF;
         }
+        // On slow convergence halve the interval on every other step
+        if (niter > 10 && (niter & 1)) {
+            eta = (tau_low + tau_high) / 2.0 - tau;
+        }
         // If overshooting, adjust ...
         if (tau + eta > tau_high || tau + eta < tau_low) {
             if (F < ZERO) {
@@ -413,16 +426,10 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
         }
 
         tau += eta;
-        delta_k -= eta;
-        delta_k1 -= eta;
-        update_delta(delta, eta);
+        compute_delta(delta, D, iK, tau);
     }
 
-    if (index == N - 1) {
-        *lambda = armas_get_at_unsafe(D, N - 1) + tau;
-    } else {
-        *lambda = armas_get_at_unsafe(D, iK) + tau;
-    }
+    *lambda = armas_get_at_unsafe(D, iK) + tau;
     return niter == maxiter ? -niter : niter;
 }
 
@@ -689,7 +696,9 @@ int armas_trdsec_solve_vec(armas_dense_t * y, armas_dense_t * v,
         conf = armas_conf_default();
 
     if (armas_size(v) != armas_size(z)
-        || armas_size(v) != armas_size(d)) {
+        || armas_size(v) != armas_size(d)
+        || armas_size(y) != armas_size(d)
+        || Qd->rows != armas_size(d) || Qd->cols != armas_size(d)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
@@ -734,6 +743,8 @@ int armas_trdsec_eigen(armas_dense_t * Q, armas_dense_t * v,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!Qd)
+        Qd = Q;
     if (Q->rows != Q->cols || Qd->rows != Qd->cols) {
         conf->error = ARMAS_ESIZE;
         return -1;
@@ -743,7 +754,7 @@ int armas_trdsec_eigen(armas_dense_t * Q, armas_dense_t * v,
         return -1;
     }
 
-    if (!Qd || Q == Qd) {
+    if (Q == Qd) {
         trdsec_eigenbuild_inplace(Q, v, conf);
     } else {
         trdsec_eigen2_build(Q, v, Qd, conf);
-- 
2.43.0


From d1c5f64aa0134620541661404d271b8d1a7af21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 063/113] fix: print matrix to the given stream

---
 src/base/matrix.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index 43e3780..b413853 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -174,20 +174,20 @@ void armas_printf(FILE *out, const char *efmt, const armas_dense_t *m)
     int rowpartial = m->rows > 18;
     int colpartial = m->cols > 9;
     for (i = 0; i < m->rows; i++ ) {
-        printf("[");
+        fprintf(out, "[");
         for (j = 0; j < m->cols; j++ ) {
             if (j > 0) {
-                printf(", ");
+                fprintf(out, ", ");
             }
-            printf(efmt, m->elems[j*m->step+i]);
+            fprintf(out, efmt, m->elems[j*m->step+i]);
             if (colpartial && j == 3) {
                 j = m->cols - 5;
-                printf(", ...");
+                fprintf(out, ", ...");
             }
         }
-        printf("]\n");
+        fprintf(out, "]\n");
         if (rowpartial && i == 8) {
-            printf(" ....\n");
+            fprintf(out, " ....\n");
             i = m->rows - 10;
         }
     }
@@ -195,6 +195,6 @@ void armas_printf(FILE *out, const char *efmt, const armas_dense_t *m)
 
 void armas_print(const armas_dense_t *m, FILE *out)
 {
-    armas_printf(out, "%8.1", m);
+    armas_printf(out, "%8.1e", m);
 }
 
-- 
2.43.0


From 237d1b07381915393efe6e2f6640f906acfd7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 064/113] fix: allow restoring workspace position at the end of
 the buffer

---
 src/include/armas.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/armas.h b/src/include/armas.h
index 8109149..fff324f 100644
--- a/src/include/armas.h
+++ b/src/include/armas.h
@@ -659,7 +659,7 @@ void *armas_wptr(const armas_wbuf_t *W)
 __ARMAS_INLINE
 void armas_wsetpos(armas_wbuf_t *W, size_t pos)
 {
-    if (W && pos < W->bytes)
+    if (W && pos <= W->bytes)
         W->offset = pos;
 }
 
-- 
2.43.0


From b420e1332f1518dd3e6761b71c003e621cc9a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 065/113] fix: sparse containers: keep duplicates, bounds,
 empty vectors and capacities consistent

---
 src/include/sparse.h |  2 +-
 src/sparse/convert.c | 33 ++++++++++------
 src/sparse/copy.c    | 28 ++++++++++----
 src/sparse/dense.c   | 22 ++++++++---
 src/sparse/splocal.h | 24 +-----------
 src/sparse/util.c    | 91 ++++++++++++++++++++++----------------------
 6 files changed, 107 insertions(+), 93 deletions(-)

diff --git a/src/include/sparse.h b/src/include/sparse.h
index 8a4370a..f6b7a65 100644
--- a/src/include/sparse.h
+++ b/src/include/sparse.h
@@ -255,7 +255,7 @@ int *armassp_iptr(const armas_sparse_t *A, int j)
 __ARMAS_INLINE
 int armassp_nz(const armas_sparse_t *A, int j, int ix)
 {
-    for (int p = A->ptr[j]; A->ix[p] <= ix && p < A->ptr[j+1]; p++) {
+    for (int p = A->ptr[j]; p < A->ptr[j+1] && A->ix[p] <= ix; p++) {
         if (A->ix[p] == ix)
             return p;
     }
diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index 65767d7..00d498c 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -230,16 +230,17 @@ armas_sparse_t *armassp_convert_to(
     if (target != ARMASSP_CSC && target != ARMASSP_CSR)
         return (armas_sparse_t *) 0;
 
-    // test for space
-    if (!armassp_test_alloc(A, B->rows, B->cols, B->nnz, target)) {
+    if (!A || A == B)
         return (armas_sparse_t *) 0;
-    }
-    // test structure
-    if (!armassp_test_structure(A, B->rows, B->cols, B->nnz, target)) {
+    // conversion to same format is a copy
+    if (B->kind == target)
+        return armassp_copy_to(A, B);
+    // test for space
+    if (!A->elems.v || !armassp_test_alloc(A, B->rows, B->cols, B->nnz, target)) {
         return (armas_sparse_t *) 0;
     }
-    // init internal arrays
-    armassp_init_arrays(A, B->rows, B->cols, B->nnz, target);
+    // init internal structure
+    armassp_init_structure(A, B->rows, B->cols, B->nnz, target);
 
     switch (B->kind) {
     case ARMASSP_COO:
@@ -252,13 +253,11 @@ armas_sparse_t *armassp_convert_to(
     case ARMASSP_CSC:
         if (target == ARMASSP_CSR)
             csc_to_csr(A, B);
-        // target CSC implies copying ...
         break;
     case ARMASSP_CSR:
     default:
         if (target == ARMASSP_CSC)
             csr_to_csc(A, B);
-        // target CSR implies copying ...
         break;
     }
     return A;
@@ -279,8 +278,14 @@ armas_sparse_t *armassp_convert_to(
 armas_sparse_t *armassp_convert(const armas_sparse_t * B,
                                     armassp_type_enum target)
 {
+    if (!B)
+        return (armas_sparse_t *) 0;
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, target);
-    return armassp_convert_to(A, B, target);
+    if (!A || !armassp_convert_to(A, B, target)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
@@ -320,10 +325,16 @@ armas_sparse_t *armassp_transpose_to(armas_sparse_t * A,
 
 armas_sparse_t *armassp_transpose(const armas_sparse_t * B)
 {
+    if (!B || B->kind == ARMASSP_COO)
+        return (armas_sparse_t *) 0;
     armassp_type_enum t = B->kind == ARMASSP_CSC ? ARMASSP_CSR : ARMASSP_CSC;
     // make space reservation as if converted to other storage format
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, t);
-    return armassp_transpose_to(A, B);
+    if (!A || !armassp_transpose_to(A, B)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code."
diff --git a/src/sparse/copy.c b/src/sparse/copy.c
index cf0ebc6..a334b25 100644
--- a/src/sparse/copy.c
+++ b/src/sparse/copy.c
@@ -21,6 +21,7 @@
 
 #include "matrix.h"
 #include "sparse.h"
+#include "splocal.h"
 
 /**
  * @brief Make A = B
@@ -33,32 +34,37 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
     if (!B || !A)
         return (armas_sparse_t *) 0;
 
-    if (armassp_nbytes(A) < armassp_bytes_for(B)) {
+    if (A == B)
+        return A;
+    if (!A->elems.v || armassp_nbytes(A) < armassp_bytes_for(B)) {
         return (armas_sparse_t *) 0;
     }
 
-    DTYPE *Ae, *Be;
     switch (B->kind) {
     case ARMASSP_CSC:
     case ARMASSP_CSR:
-        Ae = A->elems.v;
-        Be = B->elems.v;
+        armassp_init_structure(A, B->rows, B->cols, B->nnz, B->kind);
         for (int k = 0; k < B->nnz; k++) {
-            Ae[k] = Be[k];
+            A->elems.v[k] = B->elems.v[k];
             A->ix[k] = B->ix[k];
         }
         for (int k = 0; k <= B->nptr; k++) {
             A->ptr[k] = B->ptr[k];
         }
-        A->nptr = B->nptr;
-        A->nnz = B->nnz;
         break;
     case ARMASSP_COO:
         for (int k = 0; k < B->nnz; k++) {
             A->elems.ep[k] = B->elems.ep[k];
         }
+        A->rows = B->rows;
+        A->cols = B->cols;
+        A->size = armassp_nbytes(A) / sizeof(coo_elem_t);
+        A->kind = ARMASSP_COO;
+        A->ptr = A->ix = (int *) 0;
+        A->nptr = 0;
         break;
     }
+    A->nnz = B->nnz;
     return A;
 }
 
@@ -69,8 +75,14 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
  */
 armas_sparse_t *armassp_mkcopy(const armas_sparse_t * B)
 {
+    if (!B)
+        return (armas_sparse_t *) 0;
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, B->kind);
-    return armassp_copy_to(A, B);
+    if (!A || (A->elems.v && !armassp_copy_to(A, B))) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code!"
diff --git a/src/sparse/dense.c b/src/sparse/dense.c
index 89ce9e3..e209530 100644
--- a/src/sparse/dense.c
+++ b/src/sparse/dense.c
@@ -23,6 +23,12 @@
 #include "matrix.h"
 #include "sparse.h"
 
+static inline
+void add_at(armas_dense_t * A, int row, int col, DTYPE val)
+{
+    armas_set_unsafe(A, row, col, armas_get_unsafe(A, row, col) + val);
+}
+
 int armassp_todense(armas_dense_t * A, const armas_sparse_t * B,
                       armas_conf_t * cf)
 {
@@ -31,7 +37,13 @@ int armassp_todense(armas_dense_t * A, const armas_sparse_t * B,
 
     if (A->rows != B->rows || A->cols != B->cols) {
         cf->error = ARMAS_ESIZE;
-        return -1;
+        return -ARMAS_ESIZE;
+    }
+    // entries with same index are added up
+    for (int j = 0; j < A->cols; j++) {
+        for (int i = 0; i < A->rows; i++) {
+            armas_set_unsafe(A, i, j, ZERO);
+        }
     }
 
     int stat = 0;
@@ -39,21 +51,21 @@ int armassp_todense(armas_dense_t * A, const armas_sparse_t * B,
     case ARMASSP_CSC:
         for (int j = 0; j < B->nptr; j++) {
             for (int k = B->ptr[j]; k < B->ptr[j + 1]; k++) {
-                armas_set(A, B->ix[k], j, B->elems.v[k]);
+                add_at(A, B->ix[k], j, B->elems.v[k]);
             }
         }
         break;
     case ARMASSP_CSR:
         for (int i = 0; i < B->nptr; i++) {
             for (int k = B->ptr[i]; k < B->ptr[i + 1]; k++) {
-                armas_set(A, i, B->ix[k], B->elems.v[k]);
+                add_at(A, i, B->ix[k], B->elems.v[k]);
             }
         }
         break;
     case ARMASSP_COO:
         for (int j = 0; j < B->nnz; j++) {
-            armas_set(A, B->elems.ep[j].i, B->elems.ep[j].j,
-                        B->elems.ep[j].val);
+            add_at(A, B->elems.ep[j].i, B->elems.ep[j].j,
+                   B->elems.ep[j].val);
         }
         break;
     default:
diff --git a/src/sparse/splocal.h b/src/sparse/splocal.h
index 4980c6e..7e55ab8 100644
--- a/src/sparse/splocal.h
+++ b/src/sparse/splocal.h
@@ -115,18 +115,6 @@ int armassp_test_alloc(
     return A->__nbytes >= armassp_bytes_needed(rows, cols, nnz, typ);
 }
 
-static inline
-int armassp_test_structure(
-    const armas_sparse_t *A, int rows, int cols, int nnz, armassp_type_enum typ)
-{
-    int n = typ == ARMASSP_CSR ? rows : cols;
-    // non-zero elements
-    int nz = (DTYPE *)A->ptr - A->elems.v;
-    // length of ptr array
-    int np = A->ix - A->ptr;
-    return n + 1 == np && nnz == nz;
-}
-
 static inline
 int armassp_init_structure(
     armas_sparse_t *A, int rows, int cols, int nnz, armassp_type_enum typ)
@@ -140,17 +128,7 @@ int armassp_init_structure(
     A->size = nnz;
     A->nnz = 0;
     A->kind = typ;
-    return 0;
-}
-
-static inline
-int armassp_init_arrays(
-    armas_sparse_t *A, int rows, int cols, int nnz, armassp_type_enum typ)
-{
-    int n = typ == ARMASSP_CSR ? rows : cols;
-    A->ptr = (int *)&A->elems.v[nnz];
-    A->ix = &A->ptr[n+1];
-    A->nptr = n;
+    memset(A->ptr, 0, (n + 1) * sizeof(int));
     return 0;
 }
 
diff --git a/src/sparse/util.c b/src/sparse/util.c
index 8b5a37a..7bae31c 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -54,6 +54,8 @@
 int armassp_make(armas_sparse_t * A, int rows, int cols, int nnz,
                    armassp_type_enum storage, void *data, size_t dlen)
 {
+    if (rows < 0 || cols < 0 || nnz < 0 || !data)
+        return -1;
     size_t nbytes = armassp_bytes_needed(rows, cols, nnz, storage);
     if (dlen < nbytes)
         return -1;
@@ -68,6 +70,7 @@ int armassp_make(armas_sparse_t * A, int rows, int cols, int nnz,
         A->ptr = (int *) &A->elems.v[nnz];
         A->nptr = (storage == ARMASSP_CSR ? rows : cols);
         A->ix = &A->ptr[A->nptr + 1];
+        memset(A->ptr, 0, (A->nptr + 1) * sizeof(int));
         break;
     }
     A->__nbytes = nbytes;
@@ -99,12 +102,16 @@ int armassp_make(armas_sparse_t * A, int rows, int cols, int nnz,
 armas_sparse_t *armassp_init(armas_sparse_t * A, int rows, int cols,
                                  int nnz, armassp_type_enum storage)
 {
-    if (rows == 0 || cols == 0 || nnz == 0) {
+    if (rows < 0 || cols < 0 || nnz < 0)
+        return (armas_sparse_t *) 0;
+
+    if (rows == 0 || cols == 0) {
         armassp_clear(A);
+        A->kind = storage;
         return A;
     }
     size_t nbytes = armassp_bytes_needed(rows, cols, nnz, storage);
-    void *data = calloc(nbytes, 1);
+    void *data = calloc(nbytes > 0 ? nbytes : 1, 1);
     if (!data)
         return (armas_sparse_t *) 0;
     armassp_make(A, rows, cols, nnz, storage, data, nbytes);
@@ -118,7 +125,11 @@ armas_sparse_t *armassp_new(int rows, int cols, int nnz,
         (armas_sparse_t *) calloc(1, sizeof(armas_sparse_t));
     if (!A)
         return A;
-    return armassp_init(A, rows, cols, nnz, kind);
+    if (!armassp_init(A, rows, cols, nnz, kind)) {
+        free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
@@ -128,6 +139,8 @@ armas_sparse_t *armassp_new(int rows, int cols, int nnz,
 int armassp_resize(armas_sparse_t * A, int newsize)
 {
     if (A->kind == ARMASSP_COO) {
+        if (newsize <= 0 || newsize < A->nnz)
+            return -1;
         coo_elem_t *nb = (coo_elem_t *) calloc(newsize, sizeof(coo_elem_t));
         if (!nb)
             return -1;
@@ -135,6 +148,7 @@ int armassp_resize(armas_sparse_t * A, int newsize)
         free(A->elems.ep);
         A->elems.ep = nb;
         A->size = newsize;
+        A->__nbytes = newsize * sizeof(coo_elem_t);
         return 0;
     }
     // others not yet supported
@@ -150,6 +164,8 @@ int armassp_append(armas_sparse_t * A, int m, int n, DTYPE v)
     if (A->kind != ARMASSP_COO)
         return -1;
 
+    if (m < 0 || m >= A->rows || n < 0 || n >= A->cols)
+        return -1;
     if (A->nnz == A->size) {
         if (armassp_resize(A, A->size + 64) < 0)
             return -1;
@@ -168,57 +184,42 @@ int armassp_append(armas_sparse_t * A, int m, int n, DTYPE v)
  */
 int armassp_hasdiag(const armas_sparse_t * A, int diag)
 {
-    int i, j, start, end, p, roff, coff;
-    int nc = 0;
+    int i, k, p, len;
 
     if (!A || A->rows != A->cols)
         return 0;
-    if (diag < 0 && A->rows < -diag)
-        return 0;
-    if (diag > 0 && A->cols < diag)
+    if (diag <= -A->rows || diag >= A->cols)
         return 0;
 
-    switch (A->kind) {
-    case ARMASSP_COO:
-        roff = diag < 0 ? 0 : diag;
-        coff = diag > 0 ? 0 : diag;
-        nc = diag < 0 ? A->rows + diag : A->cols - diag;
-        for (i = 0; i < A->nnz; i++) {
-            if (A->elems.ep[i].i + coff == A->elems.ep[i].j + roff)
-                nc--;
-        }
-        break;
-    case ARMASSP_CSC:
-        start = diag > 0 ? diag : 0;
-        end = diag < 0 ? A->cols - diag : A->cols;
-        nc = end - start;
-        for (i = 0, j = start; j < end; i++, j++) {
-            for (p = armassp_index(A, j); p < armassp_index(A, j + 1); p++) {
-                if (armassp_at(A, p) == i) {
-                    nc--;
-                    break;
-                }
+    len = A->rows - (diag < 0 ? -diag : diag);
+    for (k = 0; k < len; k++) {
+        // row and column of k'th element on diagonal
+        int row = diag < 0 ? k - diag : k;
+        int col = diag > 0 ? k + diag : k;
+        int found = 0;
+        switch (A->kind) {
+        case ARMASSP_COO:
+            for (i = 0; i < A->nnz && !found; i++) {
+                found = A->elems.ep[i].i == row && A->elems.ep[i].j == col;
             }
-        }
-        break;
-    case ARMASSP_CSR:
-        start = diag < 0 ? -diag : 0;
-        end = diag > 0 ? A->rows - diag : A->rows;
-        nc = end - start;
-        for (j = 0, i = start; i < end; i++, j++) {
-            for (p = armassp_index(A, i); p < armassp_index(A, i + 1); p++) {
-                if (armassp_at(A, p) == j) {
-                    nc--;
-                    break;
-                }
+            break;
+        case ARMASSP_CSC:
+            for (p = A->ptr[col]; p < A->ptr[col + 1] && !found; p++) {
+                found = A->ix[p] == row;
             }
+            break;
+        case ARMASSP_CSR:
+            for (p = A->ptr[row]; p < A->ptr[row + 1] && !found; p++) {
+                found = A->ix[p] == col;
+            }
+            break;
+        default:
+            break;
         }
-        break;
-    default:
-        nc = -1;
-        break;
+        if (!found)
+            return 0;
     }
-    return nc == 0;
+    return 1;
 }
 #endif    // defined(armassp_hasdiag)
 
-- 
2.43.0


From dd908a86d06e13c37f140bc208a372c4bf82ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 066/113] fix: sparse vectors: duplicate entries and out of
 range targets

---
 src/sparse/accum.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/sparse/accum.c b/src/sparse/accum.c
index c196285..ee752fc 100644
--- a/src/sparse/accum.c
+++ b/src/sparse/accum.c
@@ -19,7 +19,6 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
-#include <assert.h>
 #include "matrix.h"
 #include "sparse.h"
 
@@ -134,10 +133,14 @@ void armas_accum_dot(armas_accum_t * acc,
     while (px < x->nz && py < y->nz) {
         d = x->ix[px] - y->ix[py];
         if (d == 0) {
-            // index match
-            v += x->elems[px] * y->elems[py];
-            px++;
-            py++;
+            // index match; entries with same index are added up
+            int ix = x->ix[px];
+            DTYPE vx = ZERO, vy = ZERO;
+            for (; px < x->nz && x->ix[px] == ix; px++)
+                vx += x->elems[px];
+            for (; py < y->nz && y->ix[py] == ix; py++)
+                vy += y->elems[py];
+            v += vx * vy;
             changed = 1;
         } else {
             d < 0 ? px++ : py++;
@@ -159,12 +162,13 @@ void armas_accum_gather(armas_sparse_t * C,
     int k, head;
     C->ptr[ik] = C->nnz;
     for (head = 0; head < acc->tail; head++) {
+        // no space for more elements
+        if (C->nnz >= C->size || C->nnz >= maxnz)
+            break;
         k = acc->queue[head];
         C->ix[C->nnz] = k;
         C->elems.v[C->nnz] = alpha * acc->elems[k];
         C->nnz++;
-        // need realloc??; core dump now if yes
-        assert(C->nnz < C->size);
     }
 }
 
-- 
2.43.0


From 8c7a21ebd160de341615273ac337ebb3014947a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 067/113] fix: sparse add: transposed operands, capacity, entry
 order

---
 src/sparse/add.c | 255 +++++++++++++----------------------------------
 1 file changed, 72 insertions(+), 183 deletions(-)

diff --git a/src/sparse/add.c b/src/sparse/add.c
index 53febd8..de1700f 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -26,158 +26,25 @@
 
 #include "splocal.h"
 
+/*
+ * Accumulate k'th vector of alpha*op(A) where vectors are rows (CSR) or columns (CSC).
+ */
 static
-void add_csr_nn(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
-{
-    int i, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->rows; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
-        }
-        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, armassp_at(B, p), val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
-    }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
-}
-
-static
-void add_csr_nt(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
-{
-    int i, j, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->rows; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
-        }
-
-        for (j = 0; j < B->rows; j++) {
-            if ((p = armassp_nz(B, j, i)) < 0)
-                continue;
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, j, val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
-    }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
-}
-
-static
-void add_csr_tn(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
-{
-    int i, j, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->rows; i++) {
-        for (j = 0; j < A->rows; j++) {
-            if ((p = armassp_nz(A, j, i)) < 0)
-                continue;
-            val = beta * armassp_value(A, p);
-            armas_accum_addpos(spa, j, val, i);
-        }
-        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, armassp_at(B, p), val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
-    }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
-}
-
-
-static
-void add_csc_nn(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
+void add_vector(armas_accum_t * spa, DTYPE alpha, const armas_sparse_t * A, int k, int trans)
 {
-    int i, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->cols; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
+    int j, p;
+    if (!trans) {
+        for (p = A->ptr[k]; p < A->ptr[k + 1]; p++) {
+            armas_accum_addpos(spa, armassp_at(A, p), alpha * armassp_value(A, p), k);
         }
-        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, armassp_at(B, p), val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
+        return;
     }
-    C->ptr[A->cols] = C->nnz;
-    C->nptr = A->cols;
-}
-
-static
-void add_csc_nt(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
-{
-    int i, j, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->cols; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
+    for (j = 0; j < A->nptr; j++) {
+        for (p = A->ptr[j]; p < A->ptr[j + 1]; p++) {
+            if (armassp_at(A, p) == k)
+                armas_accum_addpos(spa, j, alpha * armassp_value(A, p), k);
         }
-
-        for (j = 0; j < B->cols; j++) {
-            if ((p = armassp_nz(B, j, i)) < 0)
-                continue;
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, j, val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
     }
-    C->ptr[A->cols] = C->nnz;
-    C->nptr = A->cols;
 }
 
 /**
@@ -203,53 +70,70 @@ int armassp_addto_w(armas_sparse_t * C,
                       const armas_sparse_t * B,
                       int bits, armas_wbuf_t * wb, armas_conf_t * cf)
 {
-    if (!A || !B)
-        return 0;
+    int k, rows, cols, rowsb, colsb, dim;
+    size_t need;
 
-    if (A->kind != B->kind) {
+    if (!cf)
+        cf = armas_conf_default();
+    if (!A || !B) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-    if (A->rows != B->rows || A->cols != B->cols) {
+    if (A->kind != B->kind || A->kind == ARMASSP_COO) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    rows = (bits & ARMAS_TRANSA) != 0 ? A->cols : A->rows;
+    cols = (bits & ARMAS_TRANSA) != 0 ? A->rows : A->cols;
+    rowsb = (bits & ARMAS_TRANSB) != 0 ? B->cols : B->rows;
+    colsb = (bits & ARMAS_TRANSB) != 0 ? B->rows : B->cols;
+    if (rows != rowsb || cols != colsb) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-
+    dim = A->kind == ARMASSP_CSR ? cols : rows;
+    need = armas_accum_bytes(dim);
     if (wb && wb->bytes == 0) {
-        wb->bytes = armas_accum_need(C);
+        wb->bytes = need;
         return 0;
     }
-    if (armas_wbytes(wb) < armas_accum_need(C)) {
+    if (!C || C == A || C == B || C->kind != A->kind) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (C->rows != rows || C->cols != cols) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+    if (armas_wbytes(wb) < need) {
         cf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
+
     armas_accum_t spa;
     // get current position in wb space
     size_t pos = armas_wpos(wb);
     // make sparse accumulator 
-    armas_accum_make(&spa, armas_accum_dim(C),
-                       armas_wptr(wb), armas_wbytes(wb));
+    armas_accum_make(&spa, dim, armas_wreserve_bytes(wb, need), need);
 
-    switch (bits & (ARMAS_TRANSA | ARMAS_TRANSB)) {
-    case ARMAS_TRANSB:
-        if (A->kind == ARMASSP_CSC) {
-            add_csc_nt(C, alpha, A, beta, B, &spa);
-        } else {
-            add_csr_nt(C, alpha, A, beta, B, &spa);
-        }
-        break;
-    case ARMAS_TRANSA:
-        if (A->kind == ARMASSP_CSC) {
-        } else {
-            add_csr_tn(C, alpha, A, beta, B, &spa);
-        }
-        break;
-    default:
-        if (A->kind == ARMASSP_CSC) {
-            add_csc_nn(C, alpha, A, beta, B, &spa);
-        } else {
-            add_csr_nn(C, alpha, A, beta, B, &spa);
+    C->nnz = 0;
+    armas_accum_clear(&spa);
+    for (k = 0; k < C->nptr; k++) {
+        add_vector(&spa, alpha, A, k, (bits & ARMAS_TRANSA) != 0);
+        add_vector(&spa, beta, B, k, (bits & ARMAS_TRANSB) != 0);
+        if (spa.tail > C->size - C->nnz) {
+            // no space for result
+            armas_wsetpos(wb, pos);
+            C->nnz = 0;
+            memset(C->ptr, 0, (C->nptr + 1) * sizeof(int));
+            cf->error = ARMAS_ESIZE;
+            return -ARMAS_ESIZE;
         }
-        break;
+        armas_accum_gather(C, ONE, &spa, k, C->size);
+        spa.tail = 0;
     }
+    C->ptr[C->nptr] = C->nnz;
+    armassp_sort(C);
     // release used wbspace
     armas_wsetpos(wb, pos);
     return 0;
@@ -270,28 +154,33 @@ armas_sparse_t *armassp_add(DTYPE alpha,
     armas_sparse_t *C = (armas_sparse_t *) 0;
     armas_wbuf_t work = ARMAS_WBNULL;
 
-    if (!A || !B)
-        return C;
-
+    if (!cf)
+        cf = armas_conf_default();
     if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0)
         return C;
 
     if (!armas_walloc(&work, work.bytes)) {
-        cf->error = ARMAS_EWORK;
+        cf->error = ARMAS_EMEMORY;
         return C;
     }
-    // allocate target matrix; size estimate 
-    int cnz = A->nnz + B->nnz;
-    C = armassp_new(A->rows, A->cols, cnz, A->kind);
+    // allocate target matrix; upper limit of result size
+    C = armassp_new((bits & ARMAS_TRANSA) != 0 ? A->cols : A->rows,
+                    (bits & ARMAS_TRANSA) != 0 ? A->rows : A->cols,
+                    A->nnz + B->nnz, A->kind);
     if (!C) {
+        cf->error = ARMAS_EMEMORY;
         armas_wrelease(&work);
         return C;
     }
 
-    armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf);
+    if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0) {
+        armassp_free(C);
+        C = (armas_sparse_t *) 0;
+    }
     armas_wrelease(&work);
     return C;
 }
+
 #else
 #warning "Missing defines. No code!"
 #endif /* ARMAS_PROVIDES && ARMAS_REQUIRES */
-- 
2.43.0


From 2eaa945aacad7a0f77fcffe2bacb0ff861cec94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 068/113] fix: sparse product: alpha, transposed operands,
 capacity; armassp_mult computes the product

---
 src/sparse/mult.c | 147 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 110 insertions(+), 37 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 778d228..a937e9d 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -50,7 +50,9 @@ int mult_csr_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        if (spa->tail > C->size - C->nnz)
+            return -ARMAS_ESIZE;
+        armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -79,6 +81,8 @@ int mult_csr_nt(armas_sparse_t * C,
             armas_accum_dot(spa, k, &a, &b, i);
         }
         // gather data to C[i,:] row
+        if (spa->tail > C->size - C->nnz)
+            return -ARMAS_ESIZE;
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
@@ -100,20 +104,23 @@ int mult_csr_tn(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->rows; i++) {
+    for (i = 0; i < A->cols; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < A->rows; j++) {
             if ((p = armassp_nz(A, j, i)) < 0)
                 continue;
             armassp_vector(&b, B, j);
-            armas_accum_scatter(spa, &b, armassp_value(A, p), i);
+            for (; p < A->ptr[j + 1] && armassp_at(A, p) == i; p++)
+                armas_accum_scatter(spa, &b, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
+        if (spa->tail > C->size - C->nnz)
+            return -ARMAS_ESIZE;
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[A->cols] = C->nnz;
+    C->nptr = A->cols;
     return 0;
 }
 
@@ -138,16 +145,20 @@ int mult_csr_tt(armas_sparse_t * C,
                 // test if A[i,k] non-zero
                 if ((p0 = armassp_nz(A, k, i)) < 0)
                     continue;
-                val = armassp_value(A, p0) * armassp_value(B, p1);
-                armas_accum_addpos(spa, j, val, i);
+                for (; p0 < A->ptr[k + 1] && armassp_at(A, p0) == i; p0++) {
+                    val = armassp_value(A, p0) * armassp_value(B, p1);
+                    armas_accum_addpos(spa, j, val, i);
+                }
             }
         }
         // gather data to C[i,:] row
+        if (spa->tail > C->size - C->nnz)
+            return -ARMAS_ESIZE;
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[C->rows] = C->nnz;
+    C->nptr = C->rows;
     return 0;
 }
 
@@ -171,6 +182,8 @@ int mult_csc_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(B, p), i);
         }
         // gather data to C[:,i] column
+        if (spa->tail > C->size - C->nnz)
+            return -ARMAS_ESIZE;
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
@@ -200,6 +213,8 @@ int mult_csc_tn(armas_sparse_t * C,
             armas_accum_dot(spa, k, &a, &b, i);
         }
         // gather data to C[i,:] row
+        if (spa->tail > C->size - C->nnz)
+            return -ARMAS_ESIZE;
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
@@ -221,15 +236,18 @@ int mult_csc_nt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < B->cols; i++) {
+    for (i = 0; i < C->cols; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < B->cols; j++) {
             if ((p = armassp_nz(B, j, i)) < 0)
                 continue;
             armassp_vector(&a, A, j);
-            armas_accum_scatter(spa, &a, armassp_value(B, p), i);
+            for (; p < B->ptr[j + 1] && armassp_at(B, p) == i; p++)
+                armas_accum_scatter(spa, &a, armassp_value(B, p), i);
         }
         // gather data to C[i,:] row
+        if (spa->tail > C->size - C->nnz)
+            return -ARMAS_ESIZE;
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
@@ -251,19 +269,23 @@ int mult_csc_tt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < C->rows; i++) {
-        for (j = 0; j < C->cols; j++) {
+    for (i = 0; i < C->cols; i++) {
+        for (j = 0; j < C->rows; j++) {
             // get column j from A;
             for (p1 = armassp_index(A, j); p1 < armassp_index(A, j + 1); p1++) {
                 k = armassp_at(A, p1);
                 // test if A[i,k] non-zero
                 if ((p0 = armassp_nz(B, k, i)) < 0)
                     continue;
-                val = armassp_value(B, p0) * armassp_value(A, p1);
-                armas_accum_addpos(spa, j, val, i);
+                for (; p0 < B->ptr[k + 1] && armassp_at(B, p0) == i; p0++) {
+                    val = armassp_value(B, p0) * armassp_value(A, p1);
+                    armas_accum_addpos(spa, j, val, i);
+                }
             }
         }
         // gather data to C[:,i] col
+        if (spa->tail > C->size - C->nnz)
+            return -ARMAS_ESIZE;
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
@@ -275,8 +297,31 @@ int mult_csc_tt(armas_sparse_t * C,
 size_t armassp_mult_nnz(const armas_sparse_t * A,
                           const armas_sparse_t * B, int flags)
 {
-    int n = (flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows;
-    return ((size_t) A->nnz) * ((size_t) B->nnz) / n;
+    // upper limit; sum of the sizes of partial products op(A)[:,k]*op(B)[k,:]
+    size_t na, nb, nnz = 0, all;
+    int k, p, ninner = (flags & ARMAS_TRANSA) == 0 ? A->cols : A->rows;
+    int bya = ((flags & ARMAS_TRANSA) == 0) == (A->kind == ARMASSP_CSC);
+    int byb = ((flags & ARMAS_TRANSB) != 0) == (B->kind == ARMASSP_CSC);
+
+    for (k = 0; k < ninner; k++) {
+        na = nb = 0;
+        if (bya) {
+            na = armassp_len(A, k);
+        } else {
+            for (p = 0; p < A->nnz; p++)
+                na += armassp_at(A, p) == k;
+        }
+        if (byb) {
+            nb = armassp_len(B, k);
+        } else {
+            for (p = 0; p < B->nnz; p++)
+                nb += armassp_at(B, p) == k;
+        }
+        nnz += na * nb;
+    }
+    all = (size_t) ((flags & ARMAS_TRANSA) == 0 ? A->rows : A->cols)
+        * (size_t) ((flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows);
+    return nnz < all ? nnz : all;
 }
 
 /**
@@ -311,6 +356,13 @@ int armassp_multto_w(armas_sparse_t * C,
 {
     int m, n, ok;
 
+    if (!cf)
+        cf = armas_conf_default();
+    if (!A || !B || !C || !w || C == A || C == B
+        || A->kind != B->kind || A->kind != C->kind || A->kind == ARMASSP_COO) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         m = A->cols;
@@ -333,34 +385,25 @@ int armassp_multto_w(armas_sparse_t * C,
         ok = A->cols == B->rows && C->rows == m && C->cols == n;
         break;
     }
-    if (!ok || !w) {
-        cf->error = ARMAS_EINVAL;
-        return -1;
+    if (!ok) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
     }
-
     // get estimate for needed work space
     if (w->bytes == 0) {
         w->bytes = armas_accum_need(C);
         return 0;
     }
-    // 
-    // size estimate;
-    int cnz = A->nnz * B->nnz / n;
-    size_t cbytes = armassp_bytes_needed(m, n, cnz, C->kind);
-    if (armassp_nbytes(C) < cbytes) {
-        cf->error = ARMAS_ESIZE;
-        return -2;
-    }
 
     size_t sz = armas_accum_need(C);
     if (armas_wbytes(w) < sz) {
         cf->error = ARMAS_EWORK;
-        return -3;
+        return -ARMAS_EWORK;
     }
 
+    size_t pos = armas_wpos(w);
     armas_accum_t spa;
-    armas_accum_make(&spa, armas_accum_dim(C), armas_wreserve_bytes(w, sz),
-                       armas_wbytes(w));
+    armas_accum_make(&spa, armas_accum_dim(C), armas_wreserve_bytes(w, sz), sz);
 
     int stat = 0;
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
@@ -389,6 +432,15 @@ int armassp_multto_w(armas_sparse_t * C,
             stat = mult_csr_nn(C, alpha, A, B, &spa);
         break;
     }
+    armas_wsetpos(w, pos);
+    if (stat < 0) {
+        // no space for the result
+        C->nnz = 0;
+        memset(C->ptr, 0, (C->nptr + 1) * sizeof(int));
+        cf->error = ARMAS_ESIZE;
+        return stat;
+    }
+    armassp_sort(C);
     return stat;
 }
 
@@ -416,21 +468,42 @@ armas_sparse_t *armassp_mult(DTYPE alpha,
                                  int flags, armas_conf_t * cf)
 {
     armas_sparse_t *C;
-    //armas_accum_t spa;
+    armas_wbuf_t work = ARMAS_WBNULL;
+    int m, n, ka, kb;
 
+    if (!cf)
+        cf = armas_conf_default();
     if (!A || !B || A->kind != B->kind || A->kind == ARMASSP_COO) {
+        cf->error = ARMAS_EINVAL;
         return (armas_sparse_t *) 0;
     }
-    // allocate target matrix; size estimate 
-    int cnz = A->nnz * B->nnz / A->cols;
-    C = armassp_new(A->rows, B->cols, cnz, A->kind);
+    m = (flags & ARMAS_TRANSA) != 0 ? A->cols : A->rows;
+    ka = (flags & ARMAS_TRANSA) != 0 ? A->rows : A->cols;
+    kb = (flags & ARMAS_TRANSB) != 0 ? B->cols : B->rows;
+    n = (flags & ARMAS_TRANSB) != 0 ? B->rows : B->cols;
+    if (ka != kb) {
+        cf->error = ARMAS_ESIZE;
+        return (armas_sparse_t *) 0;
+    }
+    // allocate target matrix;
+    C = armassp_new(m, n, armassp_mult_nnz(A, B, flags), A->kind);
     if (!C) {
         cf->error = ARMAS_EMEMORY;
         return (armas_sparse_t *) 0;
     }
-
+    if (!armas_walloc(&work, armas_accum_need(C))) {
+        cf->error = ARMAS_EMEMORY;
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
+    if (armassp_multto_w(C, alpha, A, B, flags, &work, cf) < 0) {
+        armassp_free(C);
+        C = (armas_sparse_t *) 0;
+    }
+    armas_wrelease(&work);
     return C;
 }
+
 #else
 #warning "Missing defines. No code!"
 #endif // ARMAS_PROVIDES && ARMAS_REQUIRES
-- 
2.43.0


From 8e9edf68067a7af5e2d1bb860db1705a2184f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 069/113] fix: sparse matrix-vector products: strided vectors,
 scaling, triangles, size checks

---
 src/sparse/gemv.c |  98 ++++++++----------
 src/sparse/symv.c | 174 +++++++-------------------------
 src/sparse/trmv.c | 246 ++++++++++++----------------------------------
 3 files changed, 136 insertions(+), 382 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 148711e..e48b656 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -23,65 +23,39 @@
 #include "matrix.h"
 #include "sparse.h"
 
-// CSC storage
+/*
+ * Update y = beta*y + alpha*op(A)*x; compressed vectors of A are rows of op(A)
+ */
 static
-int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
-               const DTYPE * x, int flags)
+void mvmult_rows(DTYPE beta, DTYPE * y, int yinc, DTYPE alpha,
+                 const armas_sparse_t * A, const DTYPE * x, int xinc)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
-
-        for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
-
-        // update with linear combinations of A's columns
-        for (int j = 0; j < A->cols; j++) {
-            ax = alpha * x[j];
-            for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                y[A->ix[k]] += ax * Ae[k];
-            }
-        }
-    } else {
-        // y + alpha*A^T*x
-        for (int j = 0; j < A->cols; j++) {
-            ax = 0;
-            for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                ax += Ae[k] * x[A->ix[k]];
-            }
-            y[j] = beta * y[j] + alpha * ax;
+    for (int j = 0; j < A->nptr; j++) {
+        ax = ZERO;
+        for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
+            ax += Ae[k] * x[A->ix[k] * xinc];
         }
+        y[j * yinc] = (beta == ZERO ? ZERO : beta * y[j * yinc]) + alpha * ax;
     }
-    return 0;
 }
 
+/*
+ * Update y = beta*y + alpha*op(A)*x; compressed vectors of A are columns of op(A)
+ */
 static
-int csr_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
-               const DTYPE * x, int flags)
+void mvmult_cols(DTYPE beta, DTYPE * y, int yinc, int ny, DTYPE alpha,
+                 const armas_sparse_t * A, const DTYPE * x, int xinc)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
-        // y + alpha*A*x
-        for (int j = 0; j < A->rows; j++) {
-            ax = 0;
-            for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                ax += Ae[k] * x[A->ix[k]];
-            }
-            y[j] = beta * y[j] + alpha * ax;
-        }
-    } else {
-        // y + alpha*A^T*x
-        for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
-
-        // update with linear combinations of A's rows
-        for (int j = 0; j < A->rows; j++) {
-            ax = alpha * x[j];
-            for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                y[A->ix[k]] += ax * Ae[k];
-            }
+    for (int i = 0; i < ny; i++)
+        y[i * yinc] = beta == ZERO ? ZERO : beta * y[i * yinc];
+    for (int j = 0; j < A->nptr; j++) {
+        ax = alpha * x[j * xinc];
+        for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
+            y[A->ix[k] * yinc] += ax * Ae[k];
         }
     }
-    return 0;
 }
 
 /**
@@ -95,23 +69,35 @@ int armassp_mvmult(DTYPE beta, armas_dense_t * y,
     if (!cf)
         cf = armas_conf_default();
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
-
-    if (!ok) {
+    int trans = (flags & ARMAS_TRANS) != 0;
+    int ny = trans ? A->cols : A->rows;
+    int nx = trans ? A->rows : A->cols;
+    if (armas_size(y) != ny || armas_size(x) != nx) {
         cf->error = ARMAS_ESIZE;
-        return -1;
+        return -ARMAS_ESIZE;
+    }
+    if (!armas_isvector(y) || !armas_isvector(x)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
     }
+    int yinc = y->rows == 1 ? y->step : 1;
+    int xinc = x->rows == 1 ? x->step : 1;
     DTYPE *yd = armas_data(y);
     DTYPE *xd = armas_data(x);
 
     switch (A->kind) {
     case ARMASSP_CSC:
-        return csc_mvmult(beta, yd, alpha, A, xd, flags);
+        if (trans)
+            mvmult_rows(beta, yd, yinc, alpha, A, xd, xinc);
+        else
+            mvmult_cols(beta, yd, yinc, ny, alpha, A, xd, xinc);
+        return 0;
     case ARMASSP_CSR:
-        return csr_mvmult(beta, yd, alpha, A, xd, flags);
+        if (trans)
+            mvmult_cols(beta, yd, yinc, ny, alpha, A, xd, xinc);
+        else
+            mvmult_rows(beta, yd, yinc, alpha, A, xd, xinc);
+        return 0;
     default:
         break;
     }
diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index 6e9c7d2..722c7a6 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -35,127 +35,32 @@
  *   y3 = a30*x0 + a31*x2 + a32*x2 + a33*x3
  */
 
-#if 0
-// CSR lower triangular
-static
-int csr_mvmult_lsym(DTYPE beta, DTYPE * y, DTYPE alpha,
-                    const armas_sparse_t * A, const DTYPE * x, int flags)
-{
-    int j, p;
-    DTYPE ax, yk, *Ae = A->elems.v;
-    if (beta != ONE) {
-        for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
-    }
-    // update with dot product with A's rows
-    for (j = A->rows - 1; j >= 0; j--) {
-        ax = alpha * x[j];
-        yk = 0.0;
-        for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] <= j; p++) {
-            yk += x[A->ix[p]] * Ae[p];
-            if (A->ix[p] != j)
-                y[A->ix[p]] += ax * Ae[p];
-        }
-        y[j] += alpha * yk;
-    }
-    return 0;
-}
-
-// CSR storage; upper triangular
-static
-int csr_mvmult_usym(DTYPE beta, DTYPE * y, DTYPE alpha,
-                    const armas_sparse_t * A, const DTYPE * x, int flags)
-{
-    int j, k;
-    DTYPE yk, ax, *Ae = A->elems.v;
-
-    if (beta != ONE) {
-        for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
-    }
-    // update with linear combinations of A's columns
-    for (j = 0; j < A->rows; j++) {
-        ax = alpha * x[j];
-        // skip rows below diagonal
-        for (k = A->ptr[j]; A->ix[k] < j && k < A->ptr[j + 1]; k++);
-        //
-        yk = 0.0;
-        if (A->ix[k] == j) {
-            yk = x[A->ix[k]] * Ae[k];
-            k++;
-        }
-        for (; k < A->ptr[j + 1]; k++) {
-            yk += x[A->ix[k]] * Ae[k];
-            y[A->ix[p]] += ax * Ae[p];
-        }
-        y[j] += alpha * yk;
-    }
-    return 0;
-}
-#endif
-
-// CSC lower triangular == CSR upper triangular
-static
-int csc_mvmult_lsym(DTYPE beta, DTYPE * y, DTYPE alpha,
-                    const armas_sparse_t * A, const DTYPE * x, int flags)
-{
-    int j, k;
-    DTYPE yk, ax, *Ae = A->elems.v;
-
-    if (beta != ONE) {
-        for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
-    }
-    // update with linear combinations of A's columns
-    for (j = 0; j < A->cols; j++) {
-        ax = alpha * x[j];
-        // skip element above diagonal (CSC) and below diagonal (CSR) 
-        for (k = A->ptr[j]; A->ix[k] < j && k < A->ptr[j + 1]; k++);
-        //
-        yk = 0.0;
-        if (A->ix[k] == j) {
-            yk = x[A->ix[k]] * Ae[k];
-            k++;
-        }
-        for (; k < A->ptr[j + 1]; k++) {
-            yk += x[A->ix[k]] * Ae[k];
-            y[A->ix[k]] += ax * Ae[k];
-        }
-        y[j] += alpha * yk;
-    }
-    return 0;
-}
-
-// CSC upper triangular == CSR lower triangular
+/*
+ * Update y = beta*y + alpha*A*x; if after is non-zero then elements of the compressed
+ * vectors on or after diagonal are referenced otherwise elements on or before diagonal.
+ */
 static
-int csc_mvmult_usym(DTYPE beta, DTYPE * y, DTYPE alpha,
-                    const armas_sparse_t * A, const DTYPE * x, int flags)
+void mvmult_sym(DTYPE beta, DTYPE * y, int yinc, DTYPE alpha,
+                const armas_sparse_t * A, const DTYPE * x, int xinc, int after)
 {
-    int i, j, k;
     DTYPE yk, ax, *Ae = A->elems.v;
 
-    if (beta != ONE) {
-        for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
-    }
-    // update with linear combinations of A's columns
-    for (j = A->cols - 1; j >= 0; j--) {
-        ax = alpha * x[j];
-        // skip rows below diagonal
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j && k >= A->ptr[j]; k--);
-        //
-        yk = 0.0;
-        if (A->ix[k] == j) {
-            yk = x[A->ix[k]] * Ae[k];
-            k--;
-        }
-        for (i = A->ptr[j]; i <= k; i++) {
-            yk += x[A->ix[i]] * Ae[i];
-            y[A->ix[i]] += ax * Ae[i];
+    for (int i = 0; i < A->rows; i++)
+        y[i * yinc] = beta == ZERO ? ZERO : beta * y[i * yinc];
+
+    for (int j = 0; j < A->nptr; j++) {
+        ax = alpha * x[j * xinc];
+        yk = ZERO;
+        for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
+            int i = A->ix[k];
+            if (after ? i < j : i > j)
+                continue;
+            yk += x[i * xinc] * Ae[k];
+            if (i != j)
+                y[i * yinc] += ax * Ae[k];
         }
-        y[j] += alpha * yk;
+        y[j * yinc] += alpha * yk;
     }
-    return 0;
 }
 
 /**
@@ -192,37 +97,24 @@ int armassp_mvmult_sym(DTYPE beta, armas_dense_t * y,
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
-
-    if (!ok) {
+    if (A->rows != A->cols || armas_size(y) != A->rows || armas_size(x) != A->rows) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    DTYPE *yd = armas_data(y);
-    DTYPE *xd = armas_data(x);
-
-    switch (flags & (ARMAS_LOWER | ARMAS_UPPER)) {
-    case ARMAS_UPPER:
-        if (A->kind == ARMASSP_CSR) {
-            return csc_mvmult_lsym(beta, yd, alpha, A, xd, flags);
-        } else {
-            return csc_mvmult_usym(beta, yd, alpha, A, xd, flags);
-        }
-        break;
-    case ARMAS_LOWER:
-    default:
-        if (A->kind == ARMASSP_CSR) {
-            return csc_mvmult_usym(beta, yd, alpha, A, xd, flags);
-        } else {
-            return csc_mvmult_lsym(beta, yd, alpha, A, xd, flags);
-        }
-        break;
+    if (!armas_isvector(y) || !armas_isvector(x)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
     }
-    return -ARMAS_EINVAL;
+    int yinc = y->rows == 1 ? y->step : 1;
+    int xinc = x->rows == 1 ? x->step : 1;
+
+    // CSC lower triangular == CSR upper triangular
+    int after = (flags & ARMAS_UPPER) != 0
+        ? A->kind == ARMASSP_CSR : A->kind == ARMASSP_CSC;
+    mvmult_sym(beta, armas_data(y), yinc, alpha, A, armas_data(x), xinc, after);
+    return 0;
 }
+
 #else
 #warning "Missing defines. No code!"
 #endif /* ARMAS_PROVIDES && ARMAS_REQUIRES */
diff --git a/src/sparse/trmv.c b/src/sparse/trmv.c
index 0a9c413..bfd061e 100644
--- a/src/sparse/trmv.c
+++ b/src/sparse/trmv.c
@@ -22,164 +22,56 @@
 #include "armas.h"
 #include "sparse.h"
 
-// b = alpha*A*x; A upper triangular
-static
-int csc_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    DTYPE xj, *Ae = A->elems.v;
-    int k;
-    // start from upper left corner; update with linear combination
-    for (int j = 0; j < A->cols; j++) {
-        xj = x[j];
-        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] <= j; k++) {
-            x[A->ix[k]] += alpha * Ae[k] * xj;
-        }
-        if (unit) {
-            x[j] = alpha * xj;
-        } else {
-            // k-1 in index to last row in this column; if on diagonal 
-            x[j] = A->ix[k - 1] == j ? alpha * Ae[k - 1] * xj : 0.0;
-        }
-    }
-    return 0;
-}
-
-// b = alpha*A*x; A upper triangular
-static
-int csr_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    DTYPE xv, *Ae = A->elems.v;
-    int k;
-    // start from upper left corner
-    for (int j = 0; j < A->rows; j++) {
-        xv = unit != 0 ? x[j] : 0.0;
-        // skip positions below diagonal; if unit diagonal then skip diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
-        for (; k < A->ptr[j + 1]; k++) {
-            xv += Ae[k] * x[A->ix[k]];
-        }
-        x[j] = alpha * xv;
-    }
-    return 0;
-}
-
-// b = alpha*A^T*x; A upper triangular
-static
-int csc_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    // start from lower right corner
-    DTYPE xv, *Ae = A->elems.v;
-    int j, k;
-    for (j = A->cols - 1; j >= 0; j--) {
-        xv = unit != 0 ? x[j] : 0.0;
-        // per column only rows that are less or equal to column
-        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] <= j - unit; k++) {
-            xv += Ae[k] * x[A->ix[k]];
-        }
-        x[j] = alpha * xv;
-    }
-    return 0;
-}
-
-static
-int csr_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    DTYPE xj, *Ae = A->elems.v;
-    int k;
-    // start from lower right corner
-    for (int j = A->rows - 1; j >= 0; j--) {
-        xj = x[j];
-        for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--) {
-            x[A->ix[k]] += alpha * Ae[k] * xj;
-        }
-        // diagonal element
-        if (unit != 0) {
-            x[j] = alpha * xj;
-        } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
-        }
-    }
-    return 0;
-}
-
-// b = alpha*A*x; A lower triangular
-static
-int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    DTYPE xj, *Ae = A->elems.v;
-    int i, k;
-    // start from lower right corner
-    for (int j = A->cols - 1; j >= 0; j--) {
-        xj = x[j];
-        // skip position above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
-        // update x rows below diagonal
-        for (i = k; i < A->ptr[j + 1]; i++) {
-            x[A->ix[i]] += alpha * Ae[i] * xj;
-        }
-        // compute diagonal entry;
-        if (unit != 0) {
-            x[j] = alpha * xj;
-        } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
-        }
-    }
-    return 0;
-}
-
-// b = alpha*A*x; A lower triangular
+/*
+ * Compute x = alpha*op(A)*x; compressed vectors of A are rows of op(A). If before is non-zero
+ * then vector elements before the diagonal are referenced, otherwise elements after it.
+ */
 static
-int csr_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+void mvmult_trm_rows(DTYPE * x, int xinc, DTYPE alpha, const armas_sparse_t * A,
+                     int before, int unit)
 {
     DTYPE xv, *Ae = A->elems.v;
-    int k, j;
-    for (j = A->rows - 1; j >= 0; j--) {
-        xv = unit ? x[j] : 0.0;
-        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] <= j - unit; k++) {
-            xv += Ae[k] * x[A->ix[k]];
+    int i, j, k, n;
+
+    for (n = 0; n < A->nptr; n++) {
+        j = before ? A->nptr - 1 - n : n;
+        xv = unit ? x[j * xinc] : ZERO;
+        for (k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
+            i = A->ix[k];
+            if ((before ? i > j : i < j) || (unit && i == j))
+                continue;
+            xv += Ae[k] * x[i * xinc];
         }
-        x[j] = alpha * xv;
+        x[j * xinc] = alpha * xv;
     }
-    return 0;
-}
-
-// b = alpha*A^T*x; A lower triangular
-static
-int csc_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    DTYPE xv;
-    int k, j;
-    for (j = 0; j < A->cols; j++) {
-        xv = unit != 0 ? x[j] : 0.0;
-        // skip rows above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
-        for (; k < A->ptr[j + 1]; k++) {
-            xv += A->elems.v[k] * x[A->ix[k]];
-        }
-        x[j] = alpha * xv;
-    }
-    return 0;
 }
 
+/*
+ * Compute x = alpha*op(A)*x; compressed vectors of A are columns of op(A).
+ */
 static
-int csr_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+void mvmult_trm_cols(DTYPE * x, int xinc, DTYPE alpha, const armas_sparse_t * A,
+                     int before, int unit)
 {
-    DTYPE xj, *Ae = A->elems.v;
-    int p;
-    for (int j = 0; j < A->rows; j++) {
-        xj = x[j];
-        // update earlier rows with current entry
-        for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++) {
-            x[A->ix[p]] += alpha * Ae[p] * xj;
-        }
-        // compute diagonal entry;
-        if (unit != 0) {
-            x[j] = alpha * xj;
-        } else {
-            x[j] = A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
+    DTYPE xj, d, *Ae = A->elems.v;
+    int i, j, k, n;
+
+    for (n = 0; n < A->nptr; n++) {
+        j = before ? n : A->nptr - 1 - n;
+        xj = alpha * x[j * xinc];
+        d = unit ? ONE : ZERO;
+        for (k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
+            i = A->ix[k];
+            if (before ? i > j : i < j)
+                continue;
+            if (i != j) {
+                x[i * xinc] += Ae[k] * xj;
+            } else if (!unit) {
+                d += Ae[k];
+            }
         }
+        x[j * xinc] = d * xj;
     }
-    return 0;
 }
 
 /**
@@ -209,50 +101,34 @@ int armassp_mvmult_trm(armas_dense_t * x, DTYPE alpha,
     if (!cf)
         cf = armas_conf_default();
 
-    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
-
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
-    if (!ok) {
+    }
+    if (A->rows != A->cols || armas_size(x) != A->rows) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-
-    int unit = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
-
-    DTYPE *y = armas_data(x);
-
-    // TODO: we assume column vector here; how about a row vector??
-    switch (flags & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_TRANS)) {
-    case ARMAS_UPPER | ARMAS_TRANS:
-        if (A->kind == ARMASSP_CSR)
-            csr_mvmult_ut(y, alpha, A, unit);
-        else
-            csc_mvmult_ut(y, alpha, A, unit);
-        break;
-    case ARMAS_UPPER:
-        if (A->kind == ARMASSP_CSR)
-            csr_mvmult_un(y, alpha, A, unit);
-        else
-            csc_mvmult_un(y, alpha, A, unit);
-        break;
-    case ARMAS_LOWER | ARMAS_TRANS:
-    case ARMAS_TRANS:
-        if (A->kind == ARMASSP_CSR)
-            csr_mvmult_lt(y, alpha, A, unit);
-        else
-            csc_mvmult_lt(y, alpha, A, unit);
-        break;
-    case ARMAS_LOWER:
-    default:
-        if (A->kind == ARMASSP_CSR)
-            csr_mvmult_ln(y, alpha, A, unit);
-        else
-            csc_mvmult_ln(y, alpha, A, unit);
-        break;
+    if (!armas_isvector(x)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    int unit = (flags & ARMAS_UNIT) != 0;
+    int upper = (flags & ARMAS_UPPER) != 0;
+    int trans = (flags & ARMAS_TRANS) != 0;
+    int xinc = x->rows == 1 ? x->step : 1;
+    // referenced elements are before diagonal in the compressed vectors
+    int before = A->kind == ARMASSP_CSC ? upper : !upper;
+
+    // compressed vectors are rows of op(A)
+    if ((A->kind == ARMASSP_CSR) != trans) {
+        mvmult_trm_rows(armas_data(x), xinc, alpha, A, before, unit);
+    } else {
+        mvmult_trm_cols(armas_data(x), xinc, alpha, A, before, unit);
     }
     return 0;
 }
+
 #else
 #warning "Missing defines. No code!"
 #endif /* ARMAS_PROVIDES && ARMAS_REQUIRES */
-- 
2.43.0


From af81037a359176f007082168baba512cdc129848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 070/113] fix: sparse triangular solve: alpha, strides,
 singular diagonal reported

---
 src/sparse/trsv.c | 246 ++++++++++++++--------------------------------
 1 file changed, 72 insertions(+), 174 deletions(-)

diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 964d6d8..bb49ec6 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -23,161 +23,67 @@
 #include "matrix.h"
 #include "sparse.h"
 
-// solve A*x = alpha*b; A upper triangular
-static
-int csc_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    DTYPE *Ae = A->elems.v;
-    int i, j, k;
-    for (j = A->cols - 1; j >= 0; j--) {
-        // skip rows below diagonal;
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j; k--);
-        x[j] = unit ? x[j] : x[j] / Ae[k];
-        for (i = A->ptr[j]; i < k; i++) {
-            x[A->ix[i]] -= Ae[i] * x[j];
-        }
-    }
-    return 0;
-}
-
-static
-int csr_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    DTYPE xk, *Ae = A->elems.v;
-    int i, j;
-    for (j = A->rows - 1; j >= 0; j--) {
-        xk = 0;
-        for (i = A->ptr[j + 1] - 1; i >= A->ptr[j] && A->ix[i] > j; i--) {
-            xk += Ae[i] * x[A->ix[i]];
-        }
-        // here Ax[i] == j
-        if (unit) {
-            x[j] -= xk;
-        } else {
-            x[j] = (x[j] - xk) / Ae[i];
-        }
-    }
-    return 0;
-}
-
-// solve A^T*x = alpha*b; A upper triangular
-static
-int csc_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    DTYPE xk, *Ae = A->elems.v;
-    int i, j;
-    for (j = 0; j < A->cols; j++) {
-        xk = 0;
-        for (i = A->ptr[j]; i < A->ptr[j + 1] - 1 && A->ix[i] < j; i++) {
-            xk += Ae[i] * x[A->ix[i]];
-        }
-        // here Ax[i] == j
-        if (unit) {
-            x[j] -= xk;
-        } else {
-            x[j] = (x[j] - xk) / Ae[i];
-        }
-    }
-    return 0;
-}
-
-static
-int csr_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    DTYPE *Ae = A->elems.v;
-    int j, p;
-    for (j = 0; j < A->rows; j++) {
-        // skip elements below diagonal; assume diagonal always exists
-        for (p = A->ptr[j]; A->ix[p] < j; p++);
-        x[j] = unit ? x[j] : (A->ix[p] == j ? x[j] / Ae[p] : x[j] / 0.0);
-        for (p++; p < A->ptr[j + 1]; p++) {
-            x[A->ix[p]] -= Ae[p] * x[j];
-        }
-    }
-    return 0;
-}
-
-// solve A*x = alpha*b; A lower triangular
+/*
+ * Find sum of diagonal entries in j'th compressed vector.
+ */
 static
-int csc_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+DTYPE diag_value(const armas_sparse_t * A, int j)
 {
-    int i, j;
-    for (j = 0; j < A->cols; j++) {
-        // skip elements above diagonal
-        for (i = A->ptr[j]; A->ix[i] < j; i++);
-        // compute diagonal; assumes non-zero ; A->ix[i] == j
-        if (!unit)
-            x[j] /= A->elems.v[i];
-        for (i += 1; i < A->ptr[j + 1]; i++) {
-            x[A->ix[i]] -= A->elems.v[i] * x[j];
-        }
+    DTYPE d = ZERO;
+    for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
+        if (A->ix[k] == j)
+            d += A->elems.v[k];
     }
-    return 0;
+    return d;
 }
 
+/*
+ * Solve op(A)*x = alpha*b; compressed vectors of A are rows of op(A). If before is non-zero
+ * then vector elements before the diagonal are referenced, otherwise elements after it.
+ */
 static
-int csr_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+void mvsolve_trm_rows(DTYPE * x, int xinc, DTYPE alpha, const armas_sparse_t * A,
+                      int before, int unit)
 {
-    DTYPE *Ae = A->elems.v;
-    int j, p;
-
-    if (!unit)
-        x[0] /= Ae[A->ptr[0]];
-
-    for (j = 1; j < A->rows; j++) {
-
-        for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++) {
-            x[j] -= Ae[p] * x[A->ix[p]];
+    DTYPE xv, *Ae = A->elems.v;
+    int i, j, k, n;
+
+    for (n = 0; n < A->nptr; n++) {
+        j = before ? n : A->nptr - 1 - n;
+        xv = alpha * x[j * xinc];
+        for (k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
+            i = A->ix[k];
+            if (before ? i < j : i > j)
+                xv -= Ae[k] * x[i * xinc];
         }
-        // compute diagonal; assumes non-zero ; A->ix[k] == j
-        if (!unit)
-            x[j] /= Ae[p];
+        x[j * xinc] = unit ? xv : xv / diag_value(A, j);
     }
-    return 0;
 }
 
-// solve A^T*x = alpha*b; A lower triangular
+/*
+ * Solve op(A)*x = alpha*b; compressed vectors of A are columns of op(A).
+ */
 static
-int csc_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+void mvsolve_trm_cols(DTYPE * x, int xinc, DTYPE alpha, const armas_sparse_t * A,
+                      int before, int unit)
 {
-    DTYPE *Ae = A->elems.v;
-    int i, j, k;
-
-    // skip elements above diagonal
-    for (i = A->ptr[A->cols - 1]; A->ix[i] < A->cols - 1; i++);
-    // compute diagonal; assumes non-zero ; A->ix[A->ptr[A->cols-1]] == A->cols-1
-    if (!unit)
-        x[A->cols - 1] /= Ae[i];
+    DTYPE xj, *Ae = A->elems.v;
+    int i, j, k, n;
 
-    for (j = A->cols - 2; j >= 0; j--) {
-        // skip elements above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j; k++);
-        // A->ix[k] == first row index equals column index
-        for (i = k + 1; i < A->ptr[j + 1]; i++) {
-            x[j] -= Ae[i] * x[A->ix[i]];
-        }
-        // compute diagonal; assumes non-zero ; A->ix[k] == j
-        if (!unit)
-            x[j] /= Ae[k];
+    if (alpha != ONE) {
+        for (i = 0; i < A->nptr; i++)
+            x[i * xinc] *= alpha;
     }
-    return 0;
-}
-
-static
-int csr_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
-{
-    int j, p;
-    DTYPE *Ae = A->elems.v;
-    for (j = A->rows - 1; j >= 0; j--) {
-        // skip elements above diagonal
-        for (p = A->ptr[j + 1] - 1; A->ix[p] > j; p--);
-        if (!unit)
-            x[j] /= Ae[p];
-        for (p--; p >= A->ptr[j]; p--) {
-            x[A->ix[p]] -= Ae[p] * x[j];
+    for (n = 0; n < A->nptr; n++) {
+        j = before ? A->nptr - 1 - n : n;
+        xj = unit ? x[j * xinc] : x[j * xinc] / diag_value(A, j);
+        for (k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
+            i = A->ix[k];
+            if (before ? i < j : i > j)
+                x[i * xinc] -= Ae[k] * xj;
         }
+        x[j * xinc] = xj;
     }
-    return 0;
 }
 
 /**
@@ -208,50 +114,42 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
         cf = armas_conf_default();
 
     if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
-    if (!ok) {
+    if (A->rows != A->cols || armas_size(x) != A->rows) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    if (!armas_isvector(x)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    int unit = (flags & ARMAS_UNIT) != 0;
+    int upper = (flags & ARMAS_UPPER) != 0;
+    int trans = (flags & ARMAS_TRANS) != 0;
+    int xinc = x->rows == 1 ? x->step : 1;
+    // referenced elements are before diagonal in the compressed vectors
+    int before = A->kind == ARMASSP_CSC ? upper : !upper;
+    if (!unit) {
+        // diagonal entries must be non-zero
+        for (int j = 0; j < A->nptr; j++) {
+            if (diag_value(A, j) == ZERO) {
+                cf->error = ARMAS_ESINGULAR;
+                return -ARMAS_ESINGULAR;
+            }
+        }
+    }
 
-    int unit = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
-
-    DTYPE *y = armas_data(x);
-
-    // TODO: we assume column vector here; how about a row vector??
-    switch (flags & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_TRANS)) {
-    case ARMAS_UPPER | ARMAS_TRANS:
-        if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_ut(y, alpha, A, unit);
-        else
-            csc_mvsolve_ut(y, alpha, A, unit);
-        break;
-    case ARMAS_UPPER:
-        if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_un(y, alpha, A, unit);
-        else
-            csc_mvsolve_un(y, alpha, A, unit);
-        break;
-    case ARMAS_LOWER | ARMAS_TRANS:
-    case ARMAS_TRANS:
-        if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_lt(y, alpha, A, unit);
-        else
-            csc_mvsolve_lt(y, alpha, A, unit);
-        break;
-    case ARMAS_LOWER:
-    default:
-        if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_ln(y, alpha, A, unit);
-        else
-            csc_mvsolve_ln(y, alpha, A, unit);
-        break;
+    // compressed vectors are rows of op(A)
+    if ((A->kind == ARMASSP_CSR) != trans) {
+        mvsolve_trm_rows(armas_data(x), xinc, alpha, A, before, unit);
+    } else {
+        mvsolve_trm_cols(armas_data(x), xinc, alpha, A, before, unit);
     }
     return 0;
 }
+
 #else
 #warning "Missing defines. No code!"
 #endif /* ARMAS_PROVIDES && ARMAS_REQUIRES */
-- 
2.43.0


From 22263cc41eee13d161d126812b6f5810b81932b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 071/113] fix: conjugate gradient solvers: stop on the true
 residual norm, exact start, breakdown, counts and status

---
 src/sparse/cgne.c   | 37 +++++++++++++++++++---------------
 src/sparse/cgnr.c   | 48 +++++++++++++++++++++++++++------------------
 src/sparse/cgrad.c  | 33 ++++++++++++++++++-------------
 src/sparse/pcgrad.c | 33 ++++++++++++++++++-------------
 4 files changed, 88 insertions(+), 63 deletions(-)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index a2050a2..9fe8f99 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -55,7 +55,9 @@ static inline
 int check_parms(const armas_dense_t * x,
                 const armas_sparse_t * A, const armas_dense_t * b)
 {
-    if (!A)
+    if (!A || !x || !b)
+        return 0;
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
         return 0;
     if (!armas_isvector(x))
         return 0;
@@ -124,7 +126,7 @@ int armassp_cgne_w(armas_dense_t * x,
                      const armas_dense_t * b,
                      armas_wbuf_t * wb, armas_conf_t * cf)
 {
-    DTYPE dot_r, dot_p, alpha, beta, dot_r1, *t, rstop, rmult;
+    DTYPE dot_r, dot_p, alpha, beta, dot_r1, nrm_r, *t, rstop, rmult;
     armas_dense_t p, Ap, r;
     int niter, m, n, maxiter;
 
@@ -158,8 +160,8 @@ int armassp_cgne_w(armas_dense_t * x,
     size_t pos = armas_wpos(wb);
 
     maxiter = cf->maxiter > 0 ? cf->maxiter : 2 * A->rows;
-    rstop = cf->stop != ZERO ? (DTYPE) cf->stop : ZERO;
-    rmult = cf->smult != ZERO ? (DTYPE) cf->smult : EPS;
+    rstop = cf->stop > ZERO ? (DTYPE) cf->stop : ZERO;
+    rmult = cf->smult > ZERO ? (DTYPE) cf->smult : EPS;
 
     m = A->rows;
     n = A->cols;
@@ -167,13 +169,12 @@ int armassp_cgne_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(wb, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult(ONE, &r, -ONE, A, x, 0, cf);
+    nrm_r = armas_nrm2(&r, cf);
 
     if (rstop == ZERO)
-        rstop = rmult * (rmult * armas_dot(&r, &r, cf));
-    else
-        rstop *= rstop;
+        rstop = rmult * nrm_r;
 
     // p0 = A^T*r0
     t = armas_wreserve(wb, n, sizeof(DTYPE));
@@ -185,12 +186,14 @@ int armassp_cgne_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_r1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_r1 = armas_dot(&r, &r, cf);
+    for (niter = 0; niter < maxiter && nrm_r > rstop; niter++) {
         // Ap = A*p
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
-        dot_r = armas_dot(&r, &r, cf);
+        dot_r = dot_r1;
         dot_p = armas_dot(&p, &p, cf);
+        if (dot_r == ZERO || dot_p == ZERO)
+            break;
         alpha = dot_r / dot_p;
 
         // x = x + alpha*p
@@ -199,9 +202,7 @@ int armassp_cgne_w(armas_dense_t * x,
         armas_axpy(&r, -alpha, &Ap, cf);
 
         dot_r1 = armas_dot(&r, &r, cf);
-        if (dot_r1 < rstop) {
-            break;
-        }
+        nrm_r = armas_nrm2(&r, cf);
         beta = dot_r1 / dot_r;
         // p = beta*p + A^T*r;
         armassp_mvmult(beta, &p, ONE, A, &r, ARMAS_TRANS, cf);
@@ -209,10 +210,14 @@ int armassp_cgne_w(armas_dense_t * x,
 
     // -------------------------------------------------------------------------
     cf->numiters = niter;
-    cf->residual = (double) SQRT(dot_r1);
+    cf->residual = (double) nrm_r;
 
     armas_wsetpos(wb, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (nrm_r > rstop) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 93ca367..e3d68b7 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -47,13 +47,15 @@
  *  b,r,w = [m,1]
  */
 
-#define CGNR_WSIZE(m, n)  ((2*(n) + (m))*sizeof(DTYPE))
+#define CGNR_WSIZE(m, n)  ((2*(n) + 2*(m))*sizeof(DTYPE))
 
 static inline
 int check_parms(const armas_dense_t * x,
                 const armas_sparse_t * A, const armas_dense_t * b)
 {
-    if (!A)
+    if (!A || !x || !b)
+        return 0;
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
         return 0;
     if (!armas_isvector(x))
         return 0;
@@ -111,7 +113,7 @@ int armassp_cgnr_w(armas_dense_t * x,
                      armas_wbuf_t * W, armas_conf_t * cf)
 {
     armas_dense_t p, Ap, r, z;
-    DTYPE dot_z, dot_p, alpha, beta, dot_z1, *t, rstop, rmult;
+    DTYPE dot_z, dot_p, alpha, beta, dot_z1, nrm_r, nrm_z, *t, rstop, zstop, rmult;
     int m, n, maxiter, niter;
 
     if (!cf)
@@ -150,15 +152,9 @@ int armassp_cgnr_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult(ONE, &r, -ONE, A, x, 0, cf);
-
-    // no absolute stopping criteria; make it epsilon^2*(r0, r0) 
-    if (rstop == ZERO)
-        rstop = rmult * (rmult * armas_dot(&r, &r, cf));
-    else
-        // absolute stopping relative to epsilon*nrm2(r0)
-        rstop *= rstop;
+    nrm_r = armas_nrm2(&r, cf);
 
     // z0 = A^T*r0
     t = armas_wreserve(W, n, sizeof(DTYPE));
@@ -168,18 +164,29 @@ int armassp_cgnr_w(armas_dense_t * x,
     t = armas_wreserve(W, n, sizeof(DTYPE));
     armas_make(&p, n, 1, n, t);
     armas_copy(&p, &z, cf);
+    nrm_z = armas_nrm2(&z, cf);
+
+    // stop on residual r or on residual of the normal equations z = A^T*r
+    zstop = rstop;
+    if (rstop == ZERO) {
+        // no absolute stopping criteria; make it relative to r0 and z0
+        rstop = rmult * nrm_r;
+        zstop = rmult * nrm_z;
+    }
 
     // w = Ap
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&Ap, m, 1, m, t);
 
     // --------------------------------------------------------------------
-    dot_z1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_z1 = armas_dot(&z, &z, cf);
+    for (niter = 0; niter < maxiter && nrm_r > rstop && nrm_z > zstop; niter++) {
         // Ap = A*p
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
-        dot_z = armas_dot(&z, &z, cf);
+        dot_z = dot_z1;
         dot_p = armas_dot(&Ap, &Ap, cf);
+        if (dot_z == ZERO || dot_p == ZERO)
+            break;
         alpha = dot_z / dot_p;
 
         // x = x + alpha*p
@@ -190,19 +197,22 @@ int armassp_cgnr_w(armas_dense_t * x,
         armassp_mvmult(ZERO, &z, ONE, A, &r, ARMAS_TRANS, cf);
 
         dot_z1 = armas_dot(&z, &z, cf);
-        if (dot_z1 < rstop) {
-            break;
-        }
+        nrm_r = armas_nrm2(&r, cf);
+        nrm_z = armas_nrm2(&z, cf);
         beta = dot_z1 / dot_z;
         // p = beta*p + z;
         armas_axpby(beta, &p, ONE, &z, cf);
     }
 
     cf->numiters = niter;
-    cf->residual = (double) SQRT(dot_z1);
+    cf->residual = (double) nrm_z;
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (nrm_r > rstop && nrm_z > zstop) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index b32e1bf..d0bdf20 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -49,7 +49,9 @@ static inline
 int check_parms(const armas_dense_t * x,
                 const armas_sparse_t * A, const armas_dense_t * b)
 {
-    if (!A)
+    if (!A || !x || !b)
+        return 0;
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
         return 0;
     if (!armas_isvector(x))
         return 0;
@@ -112,7 +114,7 @@ int armassp_cgrad_w(armas_dense_t * x,
                       int flags, armas_wbuf_t * W, armas_conf_t * cf)
 {
     int maxiter, niter, m;
-    DTYPE dot_r, dot_p, alpha, beta, dot_r1, *t, rstop, rmult;
+    DTYPE dot_r, dot_p, alpha, beta, dot_r1, nrm_r, *t, rstop, rmult;
     armas_dense_t p, Ap, r;
 
     if (!cf)
@@ -150,13 +152,12 @@ int armassp_cgrad_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult_sym(ONE, &r, -ONE, A, x, flags, cf);
+    nrm_r = armas_nrm2(&r, cf);
 
     if (rstop == ZERO)
-        rstop = rmult * (rmult * armas_dot(&r, &r, cf));
-    else
-        rstop *= rstop;
+        rstop = rmult * nrm_r;
 
     // p0 = r0
     t = armas_wreserve(W, m, sizeof(DTYPE));
@@ -167,12 +168,14 @@ int armassp_cgrad_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_r1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_r1 = armas_dot(&r, &r, cf);
+    for (niter = 0; niter < maxiter && nrm_r > rstop; niter++) {
         // Ap = A*p
         armassp_mvmult_sym(ZERO, &Ap, ONE, A, &p, flags, cf);
-        dot_r = armas_dot(&r, &r, cf);
+        dot_r = dot_r1;
         dot_p = armas_dot(&Ap, &p, cf);
+        if (dot_r == ZERO || dot_p == ZERO)
+            break;
         alpha = dot_r / dot_p;
 
         // x = x + alpha*p
@@ -181,9 +184,7 @@ int armassp_cgrad_w(armas_dense_t * x,
         armas_axpy(&r, -alpha, &Ap, cf);
 
         dot_r1 = armas_dot(&r, &r, cf);
-        if (dot_r1 < rstop) {
-            break;
-        }
+        nrm_r = armas_nrm2(&r, cf);
         beta = dot_r1 / dot_r;
         // p = beta*p + r;
         armas_axpby(beta, &p, ONE, &r, cf);
@@ -191,10 +192,14 @@ int armassp_cgrad_w(armas_dense_t * x,
 
     // -------------------------------------------------------------------------
     cf->numiters = niter;
-    cf->residual = (double) SQRT(dot_r1);
+    cf->residual = (double) nrm_r;
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (nrm_r > rstop) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 9e25337..20ac331 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -68,7 +68,9 @@ static inline
 int check_parms(const armas_dense_t * x,
                 const armas_sparse_t * A, const armas_dense_t * b)
 {
-    if (!A)
+    if (!A || !x || !b)
+        return 0;
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
         return 0;
     if (!armas_isvector(x))
         return 0;
@@ -123,7 +125,7 @@ int armassp_pcgrad_w(armas_dense_t * x,
                        int flags, armas_wbuf_t * W, armas_conf_t * cf)
 {
     int m, niter, maxiter;
-    DTYPE dot_rz, dot_p, dot_rz1, *t, rstop, alpha, beta, rmult;
+    DTYPE dot_rz, dot_p, dot_rz1, nrm_r, *t, rstop, alpha, beta, rmult;
     armas_dense_t Ap, p, z, r;
 
     if (!cf)
@@ -139,7 +141,7 @@ int armassp_pcgrad_w(armas_dense_t * x,
         W->bytes = PCGRAD_WSIZE(m);
         return 0;
     }
-    if (check_parms(x, A, b) == 0) {
+    if (check_parms(x, A, b) == 0 || !M || !M->precond) {
         cf->error = ARMAS_EINVAL;
         return -1;
     }
@@ -156,16 +158,15 @@ int armassp_pcgrad_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult_sym(ONE, &r, -ONE, A, x, flags, cf);
+    nrm_r = armas_nrm2(&r, cf);
 
     rstop = cf->stop > ZERO ? cf->stop : ZERO;
     maxiter = cf->maxiter > 0 ? cf->maxiter : 2 * m;
     rmult = cf->smult > ZERO ? cf->smult : EPS;
     if (rstop == ZERO)
-        rstop = rmult * (rmult * armas_dot(&r, &r, cf));
-    else
-        rstop *= rstop;
+        rstop = rmult * nrm_r;
 
     // z0 = M^-1*r0
     t = armas_wreserve(W, m, sizeof(DTYPE));
@@ -182,12 +183,14 @@ int armassp_pcgrad_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_rz1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_rz1 = armas_dot(&r, &z, cf);
+    for (niter = 0; niter < maxiter && nrm_r > rstop; niter++) {
         // Ap = A*p
         armassp_mvmult_sym(ZERO, &Ap, ONE, A, &p, flags, cf);
         dot_p = armas_dot(&Ap, &p, cf);
-        dot_rz = armas_dot(&r, &z, cf);
+        dot_rz = dot_rz1;
+        if (dot_rz == ZERO || dot_p == ZERO)
+            break;
         alpha = dot_rz / dot_p;
 
         // x = x + alpha*p
@@ -198,9 +201,7 @@ int armassp_pcgrad_w(armas_dense_t * x,
         M->precond(&z, M, &r, cf);
 
         dot_rz1 = armas_dot(&r, &z, cf);
-        if (dot_rz1 < rstop) {
-            break;
-        }
+        nrm_r = armas_nrm2(&r, cf);
         beta = dot_rz1 / dot_rz;
         // p = beta*p + z;
         armas_axpby(beta, &p, ONE, &z, cf);
@@ -208,9 +209,13 @@ int armassp_pcgrad_w(armas_dense_t * x,
     // -------------------------------------------------------------------------
 
     cf->numiters = niter;
-    cf->residual = SQRT(dot_rz1);
+    cf->residual = nrm_r;
 
     armas_wsetpos(W, wpos);
+    if (nrm_r > rstop) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
-- 
2.43.0


From 6e00531916e4b9f849f595108fb85cac2ca65457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 072/113] fix: GMRES: restart length above the order, stopping
 criteria, preconditioner, breakdown and status

---
 src/sparse/gmres.c  | 164 ++++++++++++++++++++++++++-----------------
 src/sparse/pgmres.c | 167 ++++++++++++++++++++++++++------------------
 2 files changed, 197 insertions(+), 134 deletions(-)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index a310d1d..48e6268 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -92,40 +92,38 @@ int gmres_hh_fused(armas_dense_t * x,
                    armas_dense_t * S,
                    armas_dense_t * y,
                    armas_dense_t * w,
-                   DTYPE * res, DTYPE stop, armas_conf_t * cnf)
+                   DTYPE * res, DTYPE stop, int *breakdown, armas_conf_t * cnf)
 {
-    armas_dense_t PTL, PBL, PBR, P00, p01, p11, p21, P22, PL, PR, P0, p1, P2;
-    armas_dense_t T, z, beta;
-    DTYPE _beta, u, h0, c, s, r;
+    armas_dense_t P0, p01, p1, p11, p21, T, z, beta;
+    DTYPE _beta, u, h0, c, s, r, rmax;
+    int n = P->rows;
     int m = P->cols - 1;
+    int nrot = 0;
+    int converged = 0;
+    int niter = 0;
 
-    EMPTY(P00);
-
-    // w = b - A*x0; z = r0
     armas_make(&beta, 1, 1, 1, &_beta);
+    *breakdown = 0;
+    rmax = ZERO;
+
+    // first Householder vector from r0 = b - A*x0
+    armas_submatrix(&p1, P, 0, 0, n, 1);
+    armas_copy(&p1, w, cnf);
+    armas_submatrix(&p11, P, 0, 0, 1, 1);
+    if (n > 1) {
+        armas_submatrix(&p21, P, 1, 0, n - 1, 1);
+    } else {
+        EMPTY(p21);
+    }
+    armas_house(&p11, &p21, y, 0, cnf);
 
-    mat_partition_2x2(
-        &PTL, __nil,
-        &PBL, &PBR, /**/ P, 1, 1, ARMAS_PTOPLEFT);
-    mat_partition_1x2(
-        &PL, &PR, /**/ P, 1, ARMAS_PLEFT);
-
-    armas_copy(&PL, w, cnf);
-    armas_house(&PTL, &PBL, y, 0, cnf);
-    int nrot = 0;
-    int converged = 0;
-    while (PBR.cols > 0 && converged == 0) {
-        mat_repartition_2x2to3x3(
-            &PTL, /**/
-            &P00, &p01, __nil,
-            __nil, &p11, __nil,
-            __nil, &p21, &P22, /**/ P, 1, ARMAS_PBOTTOMRIGHT);
-        mat_repartition_1x2to1x3(
-            &PL, /**/ &P0, &p1, &P2, /**/ P, 1, ARMAS_PRIGHT);
-        // ---------------------------------------------------------------------
+    for (int k = 1; k <= m && !converged; k++) {
+        armas_submatrix(&P0, P, 0, 0, n, k);
+        armas_submatrix(&p1, P, 0, k, n, 1);
+        armas_submatrix(&p01, P, 0, k, k, 1);
         // w = v = P_1*..P_j*e_j = Q_j*e_j
         armas_scale(w, ZERO, cnf);
-        armas_set_unsafe(w, P00.rows - 1, 0, ONE);
+        armas_set_unsafe(w, k - 1, 0, ONE);
         armas_housemult_w(w, __nil, &P0, ARMAS_LEFT, __wbnil, cnf);
         // z = Av; p1 == z
         armassp_mvmult(ZERO, &p1, ONE, A, w, 0, cnf);
@@ -136,13 +134,36 @@ int gmres_hh_fused(armas_dense_t * x,
         // apply previouse rotations to p01
         armas_gvupdate(&p01, 0, C, S, nrot, ARMAS_LEFT | ARMAS_FORWARD);
 
-        // unscaled Householder transformation to zero p21
-        armas_house(&p11, &p21, &beta, 0, cnf);
+        // unscaled Householder transformation to zero p21; nothing left if k == n
+        _beta = ZERO;
+        if (k < n) {
+            armas_submatrix(&p11, P, k, k, 1, 1);
+            if (k < n - 1) {
+                armas_submatrix(&p21, P, k + 1, k, n - k - 1, 1);
+            } else {
+                EMPTY(p21);
+            }
+            armas_house(&p11, &p21, &beta, 0, cnf);
+        }
 
         // compute rotation to zero new beta 
-        h0 = armas_get_unsafe(&p01, p01.rows - 1, 0);
+        niter++;
+        h0 = armas_get_unsafe(&p01, k - 1, 0);
         armas_gvcompute(&c, &s, &r, h0, _beta);
-        armas_set_unsafe(&p01, p01.rows - 1, 0, r);
+        for (int j = 0; j < k - 1; j++) {
+            u = ABS(armas_get_unsafe(&p01, j, 0));
+            if (u > rmax)
+                rmax = u;
+        }
+        u = ABS(r);
+        if (u > rmax)
+            rmax = u;
+        if (u <= n * EPS * rmax) {
+            // singular; new vector does not reduce the residual
+            *breakdown = 1;
+            break;
+        }
+        armas_set_unsafe(&p01, k - 1, 0, r);
         // clear y element from old value and rotate
         armas_set_unsafe(y, nrot + 1, 0, ZERO);
         armas_gvleft(y, c, s, nrot, nrot + 1, 0, 1);
@@ -150,24 +171,17 @@ int gmres_hh_fused(armas_dense_t * x,
         armas_set_unsafe(C, nrot, 0, c);
         armas_set_unsafe(S, nrot, 0, s);
         nrot++;
-        converged = ABS(armas_get_unsafe(y, nrot, 0)) < stop;
-        // ---------------------------------------------------------------------
-        mat_continue_3x3to2x2(
-            &PTL, __nil,
-            &PBL, &PBR, /**/ &P00, &p11, &P22, /**/ P, ARMAS_PBOTTOMRIGHT);
-        mat_continue_1x3to1x2(
-            &PL, &PR, /**/ &P0, &p1, /**/ P, ARMAS_PRIGHT);
+        converged = ABS(armas_get_unsafe(y, nrot, 0)) <= stop;
     }
 
-    if (nrot < m) {
-        m = nrot;
-    }
-    // residual of |beta*e0 - H*y| in y[m]
-    *res = ABS(armas_get_unsafe(y, m, 0));
+    // residual of |beta*e0 - H*y| in y[nrot]
+    *res = ABS(armas_get_unsafe(y, nrot, 0));
+    if (nrot == 0)
+        return niter;
 
-    // 2. solve for y; len(y) == cols(H) == m;
-    armas_submatrix(&T, P, 0, 1, m, m);
-    armas_make(&z, m, 1, m, armas_data(y));
+    // 2. solve for y; len(y) == cols(H) == nrot;
+    armas_submatrix(&T, P, 0, 1, nrot, nrot);
+    armas_make(&z, nrot, 1, nrot, armas_data(y));
     armas_mvsolve_trm(&z, ONE, &T, ARMAS_UPPER, cnf);
 
     // Compute:
@@ -177,13 +191,13 @@ int gmres_hh_fused(armas_dense_t * x,
     armas_column(&z, P, P->cols - 1);
     armas_scale(&z, ZERO, cnf);
 
-    for (int j = m - 1; j >= 0; j--) {
+    for (int j = nrot - 1; j >= 0; j--) {
         u = armas_get_unsafe(y, j, 0);
         // compute z = P_j*(y_j*e_j + z) ; u = y_j*e_j
         hmult(&z, P, j, u, cnf);
     }
     armas_axpy(x, ONE, &z, cnf);
-    return m;
+    return niter;
 }
 
 /* 
@@ -195,11 +209,12 @@ int gmres_hh_loop_fused(armas_dense_t * x,
                         const armas_dense_t * b,
                         int maxiter,
                         int m,
-                        DTYPE * stopping, armas_wbuf_t * W, armas_conf_t * cf)
+                        DTYPE * residual, armas_wbuf_t * W, armas_conf_t * cf)
 {
-    armas_dense_t P, w, C, S, y;
+    armas_dense_t P, Pk, w, C, S, y;
     DTYPE nrm_r0, nrm_r1, rstop;
     int n = A->cols;
+    int stop = 0;
 
     size_t pos = armas_wpos(W);
     // matrix P; Householder vectors
@@ -223,23 +238,33 @@ int gmres_hh_loop_fused(armas_dense_t * x,
     armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     nrm_r0 = armas_nrm2(&w, cf);
 
-    rstop = stopping && *stopping != ZERO ?
-        *stopping : EPS * nrm_r0 * A->cols;
+    rstop = cf->stop > ZERO ? (DTYPE) cf->stop
+        : (cf->smult > ZERO ? (DTYPE) cf->smult : EPS * A->cols) * nrm_r0;
 
     int niter = 0;
-    for (int j = 0; j < maxiter; j += m) {
+    nrm_r1 = nrm_r0;
+    while (nrm_r1 > rstop && niter < maxiter && !stop) {
+        int k = maxiter - niter < m ? maxiter - niter : m;
+        armas_submatrix(&Pk, &P, 0, 0, n, k + 1);
         niter +=
-            gmres_hh_fused(x, A, b, &P, &C, &S, &y, &w, &nrm_r1, rstop, cf);
-        if (nrm_r1 < rstop) {
-            break;
+            gmres_hh_fused(x, A, b, &Pk, &C, &S, &y, &w, &nrm_r1, rstop, &stop, cf);
+        if (nrm_r1 > rstop) {
+            // compute residual; w = b - A*x
+            armas_copy(&w, b, cf);
+            armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
+            nrm_r1 = armas_nrm2(&w, cf);
         }
-        // compute residual; w = b - A*x
-        armas_copy(&w, b, cf);
-        armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     }
 
+    *residual = nrm_r1;
+    cf->numiters = niter;
+    cf->residual = nrm_r1;
     armas_wsetpos(W, pos);
-    return niter;
+    if (nrm_r1 > rstop) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 #ifdef ARMASSP_INCLUDE_GMRES_MGS_VERSION
@@ -401,7 +426,7 @@ int compute_m(int n, int w)
     if (w < n)
         return 0;
     int m = w / (n + 3) - 2;
-    return m < 3 ? 0 : m;
+    return m < 1 ? 0 : m;
 }
 
 
@@ -411,6 +436,8 @@ int check_params(armas_dense_t * x,
 {
     if (!A || !x || !b)
         return 0;
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
+        return 0;
     if (A->rows != A->cols)
         return 0;
     if (!armas_isvector(x))
@@ -456,6 +483,10 @@ int armassp_gmres_w(armas_dense_t * x,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!A) {
+        cf->error = ARMAS_EINVAL;
+        return -1;
+    }
     int n = A->rows;
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
 
@@ -468,6 +499,8 @@ int armassp_gmres_w(armas_dense_t * x,
         cf->error = ARMAS_EINVAL;
         return -1;
     }
+    if (n == 0)
+        return 0;
     // estimate of m
     int me = compute_m(n, armas_wbytes(wb) / sizeof(DTYPE));
     if (me == 0) {
@@ -475,11 +508,12 @@ int armassp_gmres_w(armas_dense_t * x,
         return -1;
     }
     int maxiter = cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
+    if (m > me)
+        m = me;
+    if (m > n)
+        m = n;
     DTYPE res = ZERO;
-    int niter = gmres_hh_loop_fused(x, A, b, maxiter, me, &res, wb, cf);
-    cf->residual = res;
-    cf->numiters = niter;
-    return 0;
+    return gmres_hh_loop_fused(x, A, b, maxiter, m, &res, wb, cf);
 }
 
 /**
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index 07aa9bf..c6fe02e 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -92,43 +92,42 @@ int pgmres_hh_pfused(armas_dense_t * x,
                      armas_dense_t * S,
                      armas_dense_t * y,
                      armas_dense_t * w,
-                     DTYPE * res, DTYPE stop, armas_conf_t * cnf)
+                     DTYPE * res, DTYPE stop, int *breakdown, armas_conf_t * cnf)
 {
-    armas_dense_t PTL, PBL, PBR, P00, p01, p11, p21, P22, PL, PR, P0, p1, P2;
-    armas_dense_t T, z, beta;
-    DTYPE _beta, u, h0, c, s, r;
+    armas_dense_t P0, p01, p1, p11, p21, T, z, beta;
+    DTYPE _beta, u, h0, c, s, r, rmax;
+    int n = P->rows;
     int m = P->cols - 1;
+    int nrot = 0;
+    int converged = 0;
+    int niter = 0;
 
-    EMPTY(P00);
-
-    // w = b - A*x0; z = r0
     armas_make(&beta, 1, 1, 1, &_beta);
+    *breakdown = 0;
+    rmax = ZERO;
+
+    // first Householder vector from r0 = b - A*x0
+    armas_submatrix(&p1, P, 0, 0, n, 1);
+    armas_copy(&p1, w, cnf);
+    armas_submatrix(&p11, P, 0, 0, 1, 1);
+    if (n > 1) {
+        armas_submatrix(&p21, P, 1, 0, n - 1, 1);
+    } else {
+        EMPTY(p21);
+    }
+    armas_house(&p11, &p21, y, 0, cnf);
 
-    mat_partition_2x2(
-        &PTL, __nil,
-        &PBL, &PBR, /**/ P, 1, 1, ARMAS_PTOPLEFT);
-    mat_partition_1x2(
-        &PL, &PR, /**/ P, 1, ARMAS_PLEFT);
-
-    armas_copy(&PL, w, cnf);
-    armas_house(&PTL, &PBL, y, 0, cnf);
-    int nrot = 0;
-    int converged = 0;
-    while (PBR.cols > 0 && converged == 0) {
-        mat_repartition_2x2to3x3(
-            &PTL, /**/
-            &P00, &p01, __nil,
-            __nil, &p11, __nil,
-            __nil, &p21, &P22, /**/ P, 1, ARMAS_PBOTTOMRIGHT);
-        mat_repartition_1x2to1x3(
-            &PL, /**/ &P0, &p1, &P2, /**/ P, 1, ARMAS_PRIGHT);
-        // ---------------------------------------------------------------------
+    for (int k = 1; k <= m && !converged; k++) {
+        armas_submatrix(&P0, P, 0, 0, n, k);
+        armas_submatrix(&p1, P, 0, k, n, 1);
+        armas_submatrix(&p01, P, 0, k, k, 1);
         // w = v = P_1*..P_j*e_j = Q_j*e_j
         armas_scale(w, ZERO, cnf);
-        armas_set_unsafe(w, P00.rows - 1, 0, ONE);
+        armas_set_unsafe(w, k - 1, 0, ONE);
         armas_housemult_w(w, __nil, &P0, ARMAS_LEFT, __wbnil, cnf);
-        // z = AM^-1*v; p1 == z
-        M->precond(&p1, M, &p1, cnf);
+        // w = M^-1*v
+        M->precond(w, M, w, cnf);
+        // z = Av; p1 == z
         armassp_mvmult(ZERO, &p1, ONE, A, w, 0, cnf);
         // z = P_j*...P_1*Av
         armas_housemult_w(&p1, __nil, &P0, ARMAS_LEFT | ARMAS_TRANS, __wbnil,
@@ -137,13 +136,36 @@ int pgmres_hh_pfused(armas_dense_t * x,
         // apply previouse rotations to p01
         armas_gvupdate(&p01, 0, C, S, nrot, ARMAS_LEFT | ARMAS_FORWARD);
 
-        // unscaled Householder transformation to zero p21
-        armas_house(&p11, &p21, &beta, 0, cnf);
+        // unscaled Householder transformation to zero p21; nothing left if k == n
+        _beta = ZERO;
+        if (k < n) {
+            armas_submatrix(&p11, P, k, k, 1, 1);
+            if (k < n - 1) {
+                armas_submatrix(&p21, P, k + 1, k, n - k - 1, 1);
+            } else {
+                EMPTY(p21);
+            }
+            armas_house(&p11, &p21, &beta, 0, cnf);
+        }
 
         // compute rotation to zero new beta 
-        h0 = armas_get_unsafe(&p01, p01.rows - 1, 0);
+        niter++;
+        h0 = armas_get_unsafe(&p01, k - 1, 0);
         armas_gvcompute(&c, &s, &r, h0, _beta);
-        armas_set_unsafe(&p01, p01.rows - 1, 0, r);
+        for (int j = 0; j < k - 1; j++) {
+            u = ABS(armas_get_unsafe(&p01, j, 0));
+            if (u > rmax)
+                rmax = u;
+        }
+        u = ABS(r);
+        if (u > rmax)
+            rmax = u;
+        if (u <= n * EPS * rmax) {
+            // singular; new vector does not reduce the residual
+            *breakdown = 1;
+            break;
+        }
+        armas_set_unsafe(&p01, k - 1, 0, r);
         // clear y element from old value and rotate
         armas_set_unsafe(y, nrot + 1, 0, ZERO);
         armas_gvleft(y, c, s, nrot, nrot + 1, 0, 1);
@@ -151,24 +173,17 @@ int pgmres_hh_pfused(armas_dense_t * x,
         armas_set_unsafe(C, nrot, 0, c);
         armas_set_unsafe(S, nrot, 0, s);
         nrot++;
-        converged = ABS(armas_get_unsafe(y, nrot, 0)) < stop;
-        // ---------------------------------------------------------------------
-        mat_continue_3x3to2x2(
-            &PTL, __nil,
-            &PBL, &PBR, /**/ &P00, &p11, &P22, /**/ P, ARMAS_PBOTTOMRIGHT);
-        mat_continue_1x3to1x2(
-            &PL, &PR, /**/ &P0, &p1, /**/ P, ARMAS_PRIGHT);
+        converged = ABS(armas_get_unsafe(y, nrot, 0)) <= stop;
     }
 
-    if (nrot < m) {
-        m = nrot;
-    }
-    // residual of |beta*e0 - H*y| in y[m]
-    *res = ABS(armas_get_unsafe(y, m, 0));
+    // residual of |beta*e0 - H*y| in y[nrot]
+    *res = ABS(armas_get_unsafe(y, nrot, 0));
+    if (nrot == 0)
+        return niter;
 
-    // 2. solve for y; len(y) == cols(H) == m;
-    armas_submatrix(&T, P, 0, 1, m, m);
-    armas_make(&z, m, 1, m, armas_data(y));
+    // 2. solve for y; len(y) == cols(H) == nrot;
+    armas_submatrix(&T, P, 0, 1, nrot, nrot);
+    armas_make(&z, nrot, 1, nrot, armas_data(y));
     armas_mvsolve_trm(&z, ONE, &T, ARMAS_UPPER, cnf);
 
     // Compute:
@@ -178,7 +193,7 @@ int pgmres_hh_pfused(armas_dense_t * x,
     armas_column(&z, P, P->cols - 1);
     armas_scale(&z, ZERO, cnf);
 
-    for (int j = m - 1; j >= 0; j--) {
+    for (int j = nrot - 1; j >= 0; j--) {
         u = armas_get_unsafe(y, j, 0);
         // compute z = P_j*(y_j*e_j + z) ; u = y_j*e_j
         hmult(&z, P, j, u, cnf);
@@ -186,7 +201,7 @@ int pgmres_hh_pfused(armas_dense_t * x,
     // x = x + M^-1*z
     M->precond(&z, M, &z, cnf);
     armas_axpy(x, ONE, &z, cnf);
-    return m;
+    return niter;
 }
 
 
@@ -206,7 +221,7 @@ int compute_m(int n, int w)
     if (w < n)
         return 0;
     int m = w / (n + 3) - 2;
-    return m < 3 ? 0 : m;
+    return m < 1 ? 0 : m;
 }
 
 
@@ -216,6 +231,8 @@ int check_params(const armas_dense_t * x,
 {
     if (!A || !x || !b)
         return 0;
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
+        return 0;
     if (A->rows != A->cols)
         return 0;
     if (!armas_isvector(x))
@@ -268,34 +285,41 @@ int armassp_pgmres_w(armas_dense_t * x,
                        const armassp_precond_t * M,
                        armas_wbuf_t * W, armas_conf_t * cf)
 {
-    int n, m, me, maxiter, niter;
-    armas_dense_t P, w, C, S, y;
+    int n, m, me, maxiter, niter, stop;
+    armas_dense_t P, Pk, w, C, S, y;
     DTYPE nrm_r0, nrm_r1, rstop, *t;
 
     if (!cf)
         cf = armas_conf_default();
     if (!A) {
+        cf->error = ARMAS_EINVAL;
         return -1;
     }
 
     n = A->cols;
     m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
-    if (W->bytes == 0) {
+    if (W && W->bytes == 0) {
         // get working size
         W->bytes = GMRES_WSIZE(n, m);
         return 0;
     }
-    if (!check_params(x, A, b)) {
+    if (!check_params(x, A, b) || !M || !M->precond) {
         cf->error = ARMAS_EINVAL;
         return -1;
     }
+    if (A->rows == 0)
+        return 0;
     // estimate of m
     me = compute_m(n, armas_wbytes(W) / sizeof(DTYPE));
     if (me == 0) {
         cf->error = ARMAS_EWORK;
         return -1;
     }
-    maxiter = cf && cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
+    if (m > me)
+        m = me;
+    if (m > n)
+        m = n;
+    maxiter = cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
 
     // ------------------------------------------------------------------------
     size_t pos = armas_wpos(W);
@@ -320,28 +344,33 @@ int armassp_pgmres_w(armas_dense_t * x,
     armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     nrm_r0 = armas_nrm2(&w, cf);
 
-    rstop = cf->stop > ZERO ? cf->stop
-        : (cf->smult > ZERO ? cf->smult * nrm_r0 : EPS * nrm_r0);
+    rstop = cf->stop > ZERO ? (DTYPE) cf->stop
+        : (cf->smult > ZERO ? (DTYPE) cf->smult : EPS * A->cols) * nrm_r0;
 
     // ------------------------------------------------------------------------
-    nrm_r1 = ZERO;
+    nrm_r1 = nrm_r0;
     niter = 0;
-    for (int j = 0; j < maxiter; j += m) {
+    stop = 0;
+    while (nrm_r1 > rstop && niter < maxiter && !stop) {
+        int k = maxiter - niter < m ? maxiter - niter : m;
+        armas_submatrix(&Pk, &P, 0, 0, n, k + 1);
         niter +=
-            pgmres_hh_pfused(x, A, b, M, &P, &C, &S, &y, &w, &nrm_r1, rstop, cf);
-        if (nrm_r1 < rstop) {
-            break;
+            pgmres_hh_pfused(x, A, b, M, &Pk, &C, &S, &y, &w, &nrm_r1, rstop, &stop, cf);
+        if (nrm_r1 > rstop) {
+            // compute residual; w = b - A*x
+            armas_copy(&w, b, cf);
+            armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
+            nrm_r1 = armas_nrm2(&w, cf);
         }
-        // compute residual; w = b - A*x
-        armas_copy(&w, b, cf);
-        armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     }
 
     armas_wsetpos(W, pos);
-
-    cf->residual = nrm_r1;
     cf->numiters = niter;
-
+    cf->residual = nrm_r1;
+    if (nrm_r1 > rstop) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
-- 
2.43.0


From 01d3308219c56facf83fd5755685a1aa24d06a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 073/113] fix: incomplete factorisations: report breakdown,
 apply L before U

---
 src/sparse/icholz.c | 61 +++++++++++++++++++++++++++------------------
 src/sparse/iluz.c   | 25 +++++++++++++------
 2 files changed, 54 insertions(+), 32 deletions(-)

diff --git a/src/sparse/icholz.c b/src/sparse/icholz.c
index bed4c45..94fbe2d 100644
--- a/src/sparse/icholz.c
+++ b/src/sparse/icholz.c
@@ -61,10 +61,13 @@ int csr_illtz_lower(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        // zero diagonal entry is not allowed
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a12^T
 
+        if (!(armassp_value(A, p0) > ZERO))
+            return -ARMAS_ENEGATIVE;
         a11 = sqrt(armassp_value(A, p0));
         Le[p0] = a11;
         // l21 = a21/a11; A22 = A22 - l21*l21^T
@@ -76,7 +79,7 @@ int csr_illtz_lower(armas_sparse_t * A)
             Le[p1] /= a11;
             // A22[k,:] = A22[k,:] - l21[k]*l21^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
@@ -101,10 +104,13 @@ int csr_illtz_upper(armas_sparse_t * A)
 
     // compute u11 = sqrt(a11); u12 = a12/u11; A22 = A22 - u12*u12^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        // zero diagonal entry is not allowed
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a12^T
 
+        if (!(armassp_value(A, p0) > ZERO))
+            return -ARMAS_ENEGATIVE;
         a11 = sqrt(armassp_value(A, p0));
         Ue[p0] = a11;
 
@@ -118,7 +124,7 @@ int csr_illtz_upper(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and above diagonal
             for (p1 = p0 + 1;
@@ -150,10 +156,13 @@ int csc_illtz_lower(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->cols; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        // zero diagonal entry is not allowed
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a12^T
 
+        if (!(armassp_value(A, p0) > ZERO))
+            return -ARMAS_ENEGATIVE;
         a11 = sqrt(armassp_value(A, p0));
         Le[p0] = a11;
         // l21 = a21/a11;
@@ -166,7 +175,7 @@ int csc_illtz_lower(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and below diagonal
             for (p1 = p0 + 1;
@@ -199,10 +208,13 @@ int csc_illtz_upper(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        // zero diagonal entry is not allowed
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a12^T
 
+        if (!(armassp_value(A, p0) > ZERO))
+            return -ARMAS_ENEGATIVE;
         a11 = sqrt(armassp_value(A, p0));
         Ue[p0] = a11;
         // u12^T = u12^T/a11; A22 = A22 - u12*u12^T
@@ -214,7 +226,7 @@ int csc_illtz_upper(armas_sparse_t * A)
             Ue[p1] /= a11;
             // A22[:,k] = A22[:,k] - u12[k]*u12^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
@@ -232,22 +244,23 @@ int csc_illtz_upper(armas_sparse_t * A)
  */
 int armassp_icholz(armas_sparse_t * A, int flags)
 {
+    if (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)
+        return -ARMAS_EINVAL;
+    if (A->rows != A->cols)
+        return -ARMAS_ESIZE;
+
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER)) {
 
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR)
-            csr_illtz_upper(A);
-        else
-            csc_illtz_upper(A);
-        break;
+            return csr_illtz_upper(A);
+        return csc_illtz_upper(A);
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR)
-            csr_illtz_lower(A);
-        else
-            csc_illtz_lower(A);
+            return csr_illtz_lower(A);
+        return csc_illtz_lower(A);
     }
-    return 0;
 }
 
 
diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index 3cee9fb..1d39d0c 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -59,10 +59,13 @@ int csr_iluz(armas_sparse_t * L)
 
     // IKJ loop; compute l21 = a21/a11; A22 = A22 - l21*a12^T
     for (i = 0; i < L->rows; i++) {
-        for (p0 = armassp_index(L, i); armassp_at(L, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(L, p0) == i);
+        // zero diagonal entry is not allowed
+        if ((p0 = armassp_nz(L, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a12^T
         a11 = armassp_value(L, p0);
+        if (a11 == ZERO)
+            return -ARMAS_ESINGULAR;
 
         // l21 = a21/a11; A22 = A22 - l21*a12^T
         for (k = i + 1; k < L->rows; k++) {
@@ -101,10 +104,13 @@ int csc_iluz(armas_sparse_t * L)
 
     // IKJ loop; compute l21 = a21/a11; A22 = A22 - l21*a12^T
     for (i = 0; i < L->cols; i++) {
-        for (p0 = armassp_index(L, i); armassp_at(L, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a21
-        assert(armassp_at(L, p0) == i);
+        // zero diagonal entry is not allowed
+        if ((p0 = armassp_nz(L, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a21
         a11 = armassp_value(L, p0);
+        if (a11 == ZERO)
+            return -ARMAS_ESINGULAR;
 
         // l21 = a21/a11
         for (p = p0 + 1; p < armassp_index(L, i + 1); p++) {
@@ -140,6 +146,8 @@ int armassp_iluz(armas_sparse_t * L)
 {
     if (L->kind != ARMASSP_CSR && L->kind != ARMASSP_CSC)
         return -1;
+    if (L->rows != L->cols)
+        return -ARMAS_ESIZE;
 
     if (L->kind == ARMASSP_CSR) {
         return csr_iluz(L);
@@ -154,9 +162,9 @@ int precond_ilu(armas_dense_t * z,
 {
     if (z != x)
         armas_mcopy(z, x, 0, cf);
-    // x = M^-1*x = L^-1*(U^-1*x)
-    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
+    // x = M^-1*x = U^-1*(L^-1*x)
     armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UNIT | ARMAS_LOWER, cf);
+    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
     return 0;
 }
 
@@ -180,6 +188,7 @@ int armassp_init_iluz(armassp_precond_t * P, armas_sparse_t * A)
         P->M = A;
         P->flags = 0;
         P->precond = precond_ilu;
+        P->partial = NULL;
     }
     return stat;
 }
-- 
2.43.0


From 03ba2fb43237ca175b61a02a9575042c91694f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 074/113] fix: JSON reader: invalid numbers and characters,
 incomplete data, index and size bounds

---
 src/io/json_base.c   | 65 ++++++++++++++++++++++++++++++--------------
 src/io/json_reader.c | 27 +++++++++++++++---
 2 files changed, 67 insertions(+), 25 deletions(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index 1e8a6b4..daadd21 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -20,6 +20,10 @@
 
 //! @cond
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+#include <limits.h>
+#include <errno.h>
 #include "matrix.h"
 //! @endcond
 
@@ -111,6 +115,19 @@ enum {
     MEMBER_DTA_VAL
 };
 
+/* Convert token to integer; token must be complete integer in range. */
+static
+int armas_json_integer(int *val, const char *iob)
+{
+    char *end;
+    errno = 0;
+    long v = strtol(iob, &end, 10);
+    if (errno != 0 || end == iob || *end != '\0' || v < INT_MIN || v > INT_MAX)
+        return -1;
+    *val = (int)v;
+    return 0;
+}
+
 static
 int armas_json_read_coord(int *row, int *col, double *dval, armas_iostream_t *ios, char *iob, size_t ioblen)
 {
@@ -120,12 +137,14 @@ int armas_json_read_coord(int *row, int *col, double *dval, armas_iostream_t *io
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
         return -1;
-    *row = atoi(iob);
+    if (armas_json_integer(row, iob) < 0)
+        return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
         return -1;
-    *col = atoi(iob);
+    if (armas_json_integer(col, iob) < 0)
+        return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
@@ -147,7 +166,7 @@ int armas_json_read_coorddata(armas_dense_t *A, armas_iostream_t *ios, char *iob
             return -1;
 
         n++;
-        if (row >= 0 && row <= A->rows && col >= 0 && col <= A->cols)
+        if (row >= 0 && row < A->rows && col >= 0 && col < A->cols)
             armas_set_unsafe(A, row, col, (DTYPE)dval);
 
         tok = armas_json_read_token(iob, ioblen, ios);
@@ -170,14 +189,8 @@ int armas_json_read_data(armas_dense_t *A, armas_iostream_t *ios, char *iob, siz
     for (int j = 0; j < A->cols; j++) {
         for (int i = 0; i < A->rows; i++, n++) {
             if (n > 0) {
-                if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',') {
-                    if (tok == ']') {
-                        /* array closing ']' */
-                        armas_ios_ungetchar(ios, tok);
-                        return n;
-                    }
+                if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
                     return -1;
-                }
             }
             tok = armas_json_read_token(iob, ioblen, ios);
             if (tok != ARMAS_JSON_NUMBER && tok != ARMAS_JSON_INT) {
@@ -190,7 +203,7 @@ int armas_json_read_data(armas_dense_t *A, armas_iostream_t *ios, char *iob, siz
             }
             switch (tok) {
             case ARMAS_JSON_INT:
-                dval = (double)atoi(iob);
+                dval = strtod(iob, (char **)0);
                 break;
             default:
                 dval = strtod(iob, (char **)0);
@@ -263,25 +276,25 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
                 }
                 return -1;
             }
-            if (strncmp(iob, "rows", 4) == 0) {
+            if (strcmp(iob, "rows") == 0) {
                 if ((member_bits & HAVE_ROWS) != 0)
                     return -4;
                 state = MEMBER_ROW_SEP;
             }
-            else if (strncmp(iob, "cols", 4) == 0) {
+            else if (strcmp(iob, "cols") == 0) {
                 if ((member_bits & HAVE_COLS) != 0)
                     return -4;
                 state = MEMBER_COL_SEP;
             }
-            else if (strncmp(iob, "data", 4) == 0) {
+            else if (strcmp(iob, "data") == 0) {
                 state = MEMBER_DTA_SEP;
             }
-            else if (strncmp(iob, "nnz", 3) == 0) {
+            else if (strcmp(iob, "nnz") == 0) {
                 if ((member_bits & HAVE_NNZ) != 0)
                     return -4;
                 state = MEMBER_NNZ_SEP;
             }
-            else if (strncmp(iob, "flags", 5) == 0) {
+            else if (strcmp(iob, "flags") == 0) {
                 if ((member_bits & HAVE_FLAGS) != 0)
                     return -4;
                 state = MEMBER_FLG_SEP;
@@ -306,7 +319,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_ROW_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            rows = atoi(iob);
+            if (armas_json_integer(&rows, iob) < 0)
+                return -1;
             member_bits |= HAVE_ROWS;
             state = MEMBER_SEP;
             break;
@@ -319,7 +333,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_COL_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            cols = atoi(iob);
+            if (armas_json_integer(&cols, iob) < 0)
+                return -1;
             member_bits |= HAVE_COLS;
             state = MEMBER_SEP;
             break;
@@ -332,7 +347,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_NNZ_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            nnz = atoi(iob);
+            if (armas_json_integer(&nnz, iob) < 0)
+                return -1;
             member_bits |= HAVE_NNZ;
             state = MEMBER_SEP;
             break;
@@ -345,7 +361,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_FLG_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            flags = atoi(iob);
+            if (armas_json_integer(&flags, iob) < 0)
+                return -1;
             member_bits |= HAVE_FLAGS;
             state = MEMBER_SEP;
             break;
@@ -364,6 +381,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
     if ((member_bits & (HAVE_ROWS|HAVE_COLS)) != (HAVE_ROWS|HAVE_COLS)) {
         return -5;
     }
+    if (rows < 0 || cols < 0 || (cols > 0 && rows > INT_MAX / cols))
+        return -5;
     // for the time being; ignore flags and nnz
     // here read next data elements;
     tok = armas_json_read_token(iob, sizeof(iob), ios);
@@ -377,7 +396,11 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         if (!aa)
             return -1;
     }
-    armas_init(aa, rows, cols);
+    if (!armas_init(aa, rows, cols)) {
+        if (have_new)
+            free(aa);
+        return -1;
+    }
 
     if (armas_json_read_data(aa, ios, iob, sizeof(iob)) < 0)
         goto error_exit;
diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index 6f23290..809df95 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -7,6 +7,7 @@
 
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <ctype.h>
 
 #include "armas.h"
@@ -65,8 +66,11 @@
 enum {
     JSON_STATE_VALUE = 0,
     JSON_STATE_STRING,
+    JSON_STATE_MINUS,
     JSON_STATE_NUMBER,
+    JSON_STATE_FRAC,
     JSON_STATE_EXP,
+    JSON_STATE_EXPSIGN,
     JSON_STATE_EXP1,
     JSON_STATE_ESCAPE,
     JSON_STATE_HEX1,
@@ -185,11 +189,20 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 return ARMAS_JSON_EINVAL;
             *cp++ = c;
             *cp = '\0';
-            c = atoi(lit) & 0xff;
+            c = (int)strtol(lit, (char **)0, 16) & 0xff;
             *bp++ = c;
             state = JSON_STATE_STRING;
             break;
 
+        case JSON_STATE_MINUS:
+        case JSON_STATE_FRAC:
+            // must get at least one digit after '-' or '.'
+            if (!isdigit(c))
+                return ARMAS_JSON_EINVAL;
+            *bp++ = c;
+            state = JSON_STATE_NUMBER;
+            break;
+
         case JSON_STATE_NUMBER:
             switch (c) {
             case ',':
@@ -213,6 +226,7 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                     return ARMAS_JSON_EINVAL;
                 *bp++ = c;
                 is_frac = 1;
+                state = JSON_STATE_FRAC;
                 break;
             default:
                 if (isdigit(c)) {
@@ -226,11 +240,15 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             break;
 
         case JSON_STATE_EXP:
-            // must get at least one digit after E|e
+        case JSON_STATE_EXPSIGN:
+            // must get at least one digit after E|e, one sign allowed
             switch (c) {
             case '-':
             case '+':
+                if (state == JSON_STATE_EXPSIGN)
+                    return ARMAS_JSON_EINVAL;
                 *bp++ = c;
+                state = JSON_STATE_EXPSIGN;
                 break;
             default:
                 if (isdigit(c)) {
@@ -360,10 +378,11 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 }
                 if (isdigit(c) || c == '-') {
                     *bp++ = c;
-                    state = JSON_STATE_NUMBER;
+                    state = c == '-' ? JSON_STATE_MINUS : JSON_STATE_NUMBER;
                     break;
                 }
-                break;
+                // not a start of any token
+                return ARMAS_JSON_EINVAL;
             }
         }
         if ((size_t)(bp - buf) >= len-1) {
-- 
2.43.0


From ad0f5b2a834ece6bf75698decccde622f6e92064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 075/113] fix: JSON writer: non-finite values and failing first
 character are errors

---
 src/io/json_writer.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 4e40bf4..5b4562a 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -35,7 +35,7 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
         break;
     case ARMAS_JSON_STRING:
         cp = (char *)ptr;
-        armas_ios_putchar(writer, '"');
+        JSON_ONERROR(armas_ios_putchar(writer, '"'));
         for (int k = 0; *cp && k < len; k++, cp++) {
             switch (*cp) {
             case '\t':
@@ -67,7 +67,7 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
                 JSON_ONERROR(armas_ios_putchar(writer, '"'));
                 break;
             default:
-                if (!iscntrl(*cp))
+                if (!iscntrl((unsigned char)*cp))
                     JSON_ONERROR(armas_ios_putchar(writer, *cp));
                 break;
             }
@@ -96,11 +96,12 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
             return -1;
         }
 
-        if (isfinite(v)) {
-            n = snprintf(buf, sizeof(buf), numformat, v);
-            for (int k = 0; k < n; k++)
-                JSON_ONERROR(armas_ios_putchar(writer, buf[k]));
-        }
+        n = snprintf(buf, sizeof(buf), numformat, v);
+        // infinities and NaNs cannot be presented
+        if (!isdigit((unsigned char)buf[n-1]))
+            return -1;
+        for (int k = 0; k < n; k++)
+            JSON_ONERROR(armas_ios_putchar(writer, buf[k]));
         break;
     case ARMAS_JSON_TRUE:
         JSON_ONERROR(armas_ios_putchar(writer, 't'));
-- 
2.43.0


From eb3408cdaae95efaf785d57aa23577629daaac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 076/113] fix: string streams: bytes above 127 are not end of
 file, strings are not written

---
 src/io/ios.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/io/ios.c b/src/io/ios.c
index 9a28fac..b716784 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -46,7 +46,7 @@ int wb_getc(void *ptr)
 {
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes)
-        return wb->buf[wb->offset++];
+        return (unsigned char)wb->buf[wb->offset++];
     return -1;
 }
 
@@ -64,11 +64,20 @@ int wb_putc(void *ptr, int c)
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes) {
         wb->buf[wb->offset++] = c;
-        return c;
+        return (unsigned char)c;
     }
     return -1;
 }
 
+static
+void str_ungetc(void *ptr, int c)
+{
+    // string is read-only
+    struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
+    if (wb->offset > 0)
+        wb->offset--;
+}
+
 static
 void str_close(void *ptr)
 {
@@ -79,7 +88,7 @@ void str_close(void *ptr)
 static
 armas_iostream_vtable_t str_vtable = (armas_iostream_vtable_t){
     .get_char = wb_getc,
-    .unget_char = wb_ungetc,
+    .unget_char = str_ungetc,
     .put_char = 0,
     .close = str_close
 };
-- 
2.43.0


From 781836ff88467b652e55cc982c77b35281c1d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 077/113] fix: matrix market reading and writing of dense
 matrices

---
 src/io/iomm.c | 160 +++++++++++++++++++++++++++++---------------------
 1 file changed, 93 insertions(+), 67 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 6b155a0..5330c38 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -24,6 +24,8 @@
 // ----------------------------------------------------------------------------
 
 //! \cond
+#include <errno.h>
+#include <limits.h>
 #include "matrix.h"
 //! \endcond
 
@@ -59,24 +61,35 @@ DTYPE read_value(char *s)
 #define MM_DTYPE ARMAS_MM_REAL
 #define TYPE_STRING "real"
 
-#if FLOAT32
-#define FMT1 "%f"
-#define FMT3 "%d %d %f"
-#else
-#define FMT1 "%lf"
-#define FMT3 "%d %d %lf"
-#endif
-
+/* read element value; returns number of characters consumed or <0 if value is malformed */
 static inline
 int read_value(const char *s, DTYPE *val)
 {
-    return sscanf(s, FMT1, val);
+    char *endp;
+    *val = (DTYPE)strtod(s, &endp);
+    return endp != s ? (int)(endp - s) : -1;
 }
 
 static inline
 int read_line(const char *s, int *row, int *col, DTYPE *val)
 {
-    return sscanf(s, FMT3, row, col, val);
+    int n;
+    char *cp, *endp;
+    long r, c;
+    errno = 0;
+    r = strtol(s, &endp, 10);
+    if (endp == s || !isspace((unsigned char)*endp))
+        return -1;
+    cp = endp;
+    c = strtol(cp, &endp, 10);
+    if (endp == cp || !isspace((unsigned char)*endp))
+        return -1;
+    if (errno != 0 || r < 0 || r > INT_MAX || c < 0 || c > INT_MAX)
+        return -1;
+    *row = (int)r;
+    *col = (int)c;
+    n = read_value(endp, val);
+    return n < 0 ? -1 : n + (int)(endp - s);
 }
 
 #endif
@@ -96,7 +109,7 @@ static struct mm_keys __mmkeys[] = (struct mm_keys []) {
     { "coordinate",      11, ARMAS_MM_COORDINATE },
     { "symmetric",       10, ARMAS_MM_SYMMETRIC },
     { "hermitian",       10, ARMAS_MM_HERMITIAN },
-    { "general",          7, ARMAS_MM_GENERAL },
+    { "general",          8, ARMAS_MM_GENERAL },
     { "%%matrixmarket",  15, ARMAS_MM_HEADER },
     { 0, 0, 0}
 };
@@ -140,7 +153,7 @@ static inline
 char *strlower(char *s)
 {
     for (char *cp = s; *cp; cp++)
-        *cp = tolower(*cp);
+        *cp = tolower((unsigned char)*cp);
     return s;
 }
 
@@ -158,7 +171,7 @@ int __mmread_banner(FILE *f, int *typecode)
 
     if (!fgets(iob, sizeof(iob), f))
         return -1;
-    if (iob[0] != '%' && iob[1] != '%')
+    if (iob[0] != '%' || iob[1] != '%')
         return -1;
 
     if ((s = strchr(iob, '\n'))) {
@@ -208,6 +221,14 @@ int __mmread_banner(FILE *f, int *typecode)
     return 0;
 }
 
+static inline
+int mm_isblank(const char *s)
+{
+    while (isspace((unsigned char)*s))
+        s++;
+    return *s == '\0';
+}
+
 /*
  * size row:
  * nrows ncols number-of-non-zeros|<empty>
@@ -217,28 +238,33 @@ int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
 {
     char *iob = (char *)0;
     char *cp, *endptr;
-    int nread;
+    long v[3] = {0, 0, 0};
     size_t ioblen = 0;
+    int stat = -1;
+    int nval = (typecode & ARMAS_MM_COORDINATE) != 0 ? 3 : 2;
 
-    while ((nread = getline(&iob, &ioblen, f)) != -1) {
-        if (iob[0] != '%')
-            break;
-    }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
+    while (getline(&iob, &ioblen, f) != -1) {
+        if (iob[0] == '%' || mm_isblank(iob))
+            continue;
         cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz =strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
+        for (stat = 0; stat < nval; stat++, cp = endptr) {
+            errno = 0;
+            v[stat] = strtol(cp, &endptr, 10);
+            if (endptr == cp || (*endptr && !isspace((unsigned char)*endptr)))
+                break;
+            if (errno != 0 || v[stat] < 0 || v[stat] > INT_MAX)
+                break;
         }
-    } else {
-        *m = *n = *nnz = 0;
+        // all values present and nothing else on line
+        stat = stat == nval && mm_isblank(cp) ? 0 : -1;
+        break;
     }
     free(iob);
+    if (stat < 0 || (v[1] > 0 && v[0] > INT_MAX / v[1]))
+        return -1;
+    *m = (int)v[0];
+    *n = (int)v[1];
+    *nnz = (int)v[2];
     return 0;
 }
 
@@ -262,7 +288,8 @@ int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
 int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
 {
     int typecode;
-    int m, n, nc, nnz, r, c, nelem, nread, k;
+    int m, n, nnz, r, c, k, symm, nc;
+    long nelem;
     char *iobuf;
     size_t ioblen;
     DTYPE v;
@@ -280,66 +307,62 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         return -1;
     }
 
-    if ((typecode & ARMAS_MM_SYMMETRIC) != 0 && m != n) {
+    // hermitian real matrix is symmetric
+    symm = (typecode & (ARMAS_MM_SYMMETRIC|ARMAS_MM_HERMITIAN)) != 0;
+    if (symm && m != n) {
         return -1;
     }
 
-    armas_init(A, m, n);
+    if (!armas_init(A, m, n))
+        return -1;
 
     // number of elements to expect
     nelem = nnz;
     if ((typecode & ARMAS_MM_ARRAY) != 0) 
-        nelem = (typecode & ARMAS_MM_SYMMETRIC) != 0 ? n*(n + 1)/2 : m*n;
+        nelem = symm ? (long)n*(n + 1)/2 : (long)m*n;
 
     ioblen = 0;
     iobuf = (char *)0;
-    c =  k = 0;
-    r = -1;
-    nc = m;  // for lower triangular storage index for next column
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nelem) {
-        if (*iobuf == '%')
+    r = c = k = 0;
+    while (k < nelem && getline(&iobuf, &ioblen, f) != -1) {
+        if (*iobuf == '%' || mm_isblank(iobuf))
             continue;
         if ((typecode & ARMAS_MM_ARRAY) != 0) {
-            //v = strtod(iobuf, &endptr);
-            if (read_value(iobuf, &v) < 0)
-                goto endloop;
-
-            if ((typecode & ARMAS_MM_SYMMETRIC) != 0) {
-                // only lower triangular elements provided (n*(n+1)/2 elements)
-                // in packed format
-                if (k == nc) {
-                    // next column, update start index for following column
-                    c++;
-                    nc += m - c;
-                    r = c - 1;
-                }
-                r++;
-            }
-            else {
-                r = k%m;
-                c = k/m;
-            }
+            if ((nc = read_value(iobuf, &v)) < 0)
+                break;
         }
         else {
-            if (read_line(iobuf, &r, &c, &v) < 0)
-                goto endloop;
+            if ((nc = read_line(iobuf, &r, &c, &v)) < 0)
+                break;
             // indexing starting from 1
+            if (r < 1 || r > m || c < 1 || c > n)
+                break;
             r--; c--;
         }
-        if (r >= 0 && r < A->rows && c >= 0 && c < A->cols)
-            armas_set_unsafe(A, r, c, v);
+        if (!mm_isblank(&iobuf[nc]))
+            break;
+        armas_set_unsafe(A, r, c, v);
         k++;
+        if ((typecode & ARMAS_MM_ARRAY) != 0 && ++r == m) {
+            // next column; only lower triangular elements provided if symmetric
+            c++;
+            r = symm ? c : 0;
+        }
     }
- endloop:
     // getline allocates; we free it
     if (iobuf)
         free(iobuf);
 
     // assert k == m*n; for general matrix; k == n*(n+1)/2 for lower triangular
-    if (k != nelem)
+    // and last line not cut short by failing stream
+    if (k != nelem || ferror(f)) {
+        armas_release(A);
         return -1;
+    }
+    if (flags)
+        *flags = symm ? ARMAS_SYMM : 0;
 
-    return typecode;
+    return 0;
 }
 
 
@@ -349,8 +372,11 @@ int armas_mmdump(FILE *f, const armas_dense_t *A, int flags)
     char *t = TYPE_STRING;
     int n, j, k;
 
-    if  ((flags & ARMAS_SYMM) != 0)
+    if  ((flags & ARMAS_SYMM) != 0) {
+        if (A->rows != A->cols)
+            return -1;
         s = "symmetric";
+    }
 
     n  = fprintf(f, "%%%%Matrixmarket matrix array %s %s\n", t, s);
     n += fprintf(f, "%d %d\n", A->rows, A->cols);
@@ -358,10 +384,10 @@ int armas_mmdump(FILE *f, const armas_dense_t *A, int flags)
     for (j = 0; j < A->cols; j++) {
         k = (flags & ARMAS_SYMM) != 0 ? j : 0;
         for ( ; k < A->rows; k++) {
-            n += fprintf(f, "%.13e\n", armas_get_unsafe(A, k, j));
+            n += fprintf(f, "%.16e\n", armas_get_unsafe(A, k, j));
         }
     }
-    return n;
+    return ferror(f) ? -1 : n;
 }
 #else
 #warning "Missing defines! No code."
-- 
2.43.0


From 08d5fff8a08ba60236565fe0492d3c8ba3d52233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 078/113] fix: matrix market reading and writing of sparse
 matrices

---
 src/sparse/io.c | 125 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 84 insertions(+), 41 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index d4bcbf6..e35035f 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -26,6 +26,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "matrix.h"
 #include "sparse.h"
@@ -55,7 +57,7 @@ static struct mm_keys __mmkeys[] = (struct mm_keys[]) {
     {"coordinate", 11, ARMAS_MM_COORDINATE},
     {"symmetric", 10, ARMAS_MM_SYMMETRIC},
     {"hermitian", 10, ARMAS_MM_HERMITIAN},
-    {"general", 7, ARMAS_MM_GENERAL},
+    {"general", 8, ARMAS_MM_GENERAL},
     {"%%matrixmarket", 15, ARMAS_MM_HEADER},
     {0, 0, 0}
 };
@@ -74,7 +76,7 @@ static inline
 char *strlower(char *s)
 {
     for (char *cp = s; *cp; cp++)
-        *cp = tolower(*cp);
+        *cp = tolower((unsigned char)*cp);
     return s;
 }
 
@@ -91,7 +93,7 @@ int armasio_mmread_banner(FILE * f, int *typecode)
 
     if (!fgets(iob, sizeof(iob), f))
         return -1;
-    if (iob[0] != '%' && iob[1] != '%')
+    if (iob[0] != '%' || iob[1] != '%')
         return -1;
 
     if ((s = strchr(iob, '\n'))) {
@@ -143,6 +145,14 @@ int armasio_mmread_banner(FILE * f, int *typecode)
     return 0;
 }
 
+static inline
+int mm_isblank(const char *s)
+{
+    while (isspace((unsigned char)*s))
+        s++;
+    return *s == '\0';
+}
+
 /*
  * size row:
  * nrows ncols number-of-non-zeros|<empty>
@@ -150,33 +160,60 @@ int armasio_mmread_banner(FILE * f, int *typecode)
 static
 int armasio_mmread_size(FILE * f, int typecode, int *m, int *n, int *nnz)
 {
-    char *iob = (char *) 0;
+    char *iob = (char *)0;
     char *cp, *endptr;
-    int nread;
+    long v[3] = {0, 0, 0};
     size_t ioblen = 0;
+    int stat = -1;
+    int nval = (typecode & ARMAS_MM_COORDINATE) != 0 ? 3 : 2;
 
-    while ((nread = getline(&iob, &ioblen, f)) != -1) {
-        if (iob[0] != '%')
-            break;
-    }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
+    while (getline(&iob, &ioblen, f) != -1) {
+        if (iob[0] == '%' || mm_isblank(iob))
+            continue;
         cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz = strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
+        for (stat = 0; stat < nval; stat++, cp = endptr) {
+            errno = 0;
+            v[stat] = strtol(cp, &endptr, 10);
+            if (endptr == cp || (*endptr && !isspace((unsigned char)*endptr)))
+                break;
+            if (errno != 0 || v[stat] < 0 || v[stat] > INT_MAX)
+                break;
         }
-    } else {
-        *m = *n = *nnz = 0;
+        // all values present and nothing else on line
+        stat = stat == nval && mm_isblank(cp) ? 0 : -1;
+        break;
     }
     free(iob);
+    if (stat < 0 || (v[1] > 0 && v[0] > INT_MAX / v[1]))
+        return -1;
+    *m = (int)v[0];
+    *n = (int)v[1];
+    *nnz = (int)v[2];
     return 0;
 }
 
+/* read coordinate row; returns number of characters consumed or <0 if row is malformed */
+static
+int armasio_mmread_entry(const char *s, int *row, int *col, double *val)
+{
+    const char *cp = s;
+    char *endptr;
+    long v[2];
+
+    for (int k = 0; k < 2; k++, cp = endptr) {
+        errno = 0;
+        v[k] = strtol(cp, &endptr, 10);
+        if (endptr == cp || !isspace((unsigned char)*endptr))
+            return -1;
+        if (errno != 0 || v[k] < 0 || v[k] > INT_MAX)
+            return -1;
+    }
+    *row = (int)v[0];
+    *col = (int)v[1];
+    *val = strtod(cp, &endptr);
+    return endptr != cp ? (int)(endptr - s) : -1;
+}
+
 /**
  * @brief Load sparse matrix from matrix market file.
  *
@@ -188,15 +225,16 @@ int armasio_mmread_size(FILE * f, int typecode, int *m, int *n, int *nnz)
 armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
 {
     int tc;
-    int m, n, nnz;
-    char *iobuf, *bp, *endptr;
+    int m, n, nnz, r, c, nc;
+    char *iobuf;
     size_t ioblen;
     armas_sparse_t *A;
 
     if (armasio_mmread_banner(f, &tc) < 0) {
         return (armas_sparse_t *) 0;
     }
-    *typecode = tc;
+    if (typecode)
+        *typecode = tc;
     if ((tc & ARMAS_MM_MATRIX) == 0 ||
         (tc & ARMAS_MM_REAL) == 0 || (tc & ARMAS_MM_COORDINATE) == 0) {
         // must be real matrix in coordinate format
@@ -205,6 +243,9 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
     if (armasio_mmread_size(f, tc, &m, &n, &nnz) < 0) {
         return (armas_sparse_t *) 0;
     }
+    if ((tc & (ARMAS_MM_SYMMETRIC|ARMAS_MM_HERMITIAN)) != 0 && m != n) {
+        return (armas_sparse_t *) 0;
+    }
 
     A = armassp_new(m, n, nnz, ARMASSP_COO);
     if (!A)
@@ -212,27 +253,29 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
 
     ioblen = 0;
     iobuf = (char *) 0;
-    int nread, k = 0;
+    int k = 0;
     double v;
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nnz) {
-        bp = iobuf;
-        m = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
-        n = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
-        v = strtod(bp, &endptr);
-        armassp_append(A, m - 1, n - 1, v);
-#if 0
-        if ((tc & ARMAS_MM_SYMMETRIC) != 0 && m != n) {
-            armassp_append(A, n - 1, m - 1, v);
-        }
-#endif
+    while (k < nnz && getline(&iobuf, &ioblen, f) != -1) {
+        if (*iobuf == '%' || mm_isblank(iobuf))
+            continue;
+        nc = armasio_mmread_entry(iobuf, &r, &c, &v);
+        if (nc < 0 || !mm_isblank(&iobuf[nc]))
+            break;
+        // indexing starting from 1
+        if (r < 1 || r > m || c < 1 || c > n)
+            break;
+        if (armassp_append(A, r - 1, c - 1, v) < 0)
+            break;
         k++;
     }
     // getline allocates; we free it
     if (iobuf)
         free(iobuf);
 
+    if (k != nnz || ferror(f)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
     return A;
 }
 
@@ -266,7 +309,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int k = 0; k < A->nnz; k++) {
-            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i, A->elems.ep[k].j,
+            n += fprintf(f, "%d %d %.16e\n", A->elems.ep[k].i + 1, A->elems.ep[k].j + 1,
                          A->elems.ep[k].val);
         }
         break;
@@ -275,7 +318,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int i = 0; i < A->rows; i++) {
             for (int k = A->ptr[i]; k < A->ptr[i + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", i, A->ix[k], A->elems.v[k]);
+                n += fprintf(f, "%d %d %.16e\n", i + 1, A->ix[k] + 1, A->elems.v[k]);
             }
         }
         break;
@@ -284,7 +327,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int j = 0; j < A->cols; j++) {
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", A->ix[k], j, A->elems.v[k]);
+                n += fprintf(f, "%d %d %.16e\n", A->ix[k] + 1, j + 1, A->elems.v[k]);
             }
         }
         break;
@@ -292,7 +335,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n = 0;
         break;
     }
-    return n;
+    return ferror(f) ? -1 : n;
 }
 
 #if defined(armassp_pprintf)
-- 
2.43.0


From 8d8bca84250fc501a6783a80e2e9851bb67a4dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 079/113] fix: use smallest cache buffer when allocation of
 configured one fails

---
 src/base/cache.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 236f9ef..40ef1b0 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -477,6 +477,10 @@ void armas_cache_setup(cache_t *cache, armas_cbuf_t *cbuf, int three, size_t p)
 
 static __thread void *cbuf_ptr = (void *)0;
 
+// smallest supported cache buffer; used if memory allocation fails
+static __thread unsigned char cbuf_fallback[4096]
+    __attribute__((__aligned__(CACHELINE)));
+
 extern void armas_on_exit(void *);
 
 /**
@@ -538,15 +542,19 @@ int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
         }
     }
     if (cf && (cf->optflags & ARMAS_CBUF_LOCAL) != 0) {
-        return armas_cbuf_init(cbuf, env->cmem, env->l1mem) ? 0 : -1;
-    }
-
-    cb = armas_cbuf_create_thread_global();
-    if (cb) {
-        *cbuf = *cb;
-        return 0;
+        if (armas_cbuf_init(cbuf, env->cmem, env->l1mem))
+            return 0;
+    } else {
+        cb = armas_cbuf_create_thread_global();
+        if (cb) {
+            *cbuf = *cb;
+            return 0;
+        }
     }
-    return -1;
+    // no memory for configured buffer; do with smallest one. (Operations that use
+    // these kernels internally do not expect them to fail.)
+    armas_cbuf_make(cbuf, cbuf_fallback, sizeof(cbuf_fallback), env->l1mem);
+    return 0;
 }
 
 //! @}
-- 
2.43.0


From b432bf24ebac20eba43016e6111b8d826ea91741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 080/113] fix: workspace query and checks of Householder
 multiplication and tridiagonal build

---
 src/lapack/housem.c | 11 ++++++-----
 src/lapack/tribld.c |  6 ++++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index b9eb7e6..2ad745f 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -326,10 +326,10 @@ int armas_housemult_w(armas_dense_t * X,
         cf = armas_conf_default();
 
     if (!wb && !is_single(X, flags)) {
-        cf->error = ARMAS_EINVAL;
-        return -1;
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
-    if (!is_single(X, flags) && wb->bytes == 0) {
+    if (wb && wb->bytes == 0) {
         // compute workspace size
         int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         wb->bytes = nelem * sizeof(DTYPE);
@@ -350,7 +350,7 @@ int armas_housemult_w(armas_dense_t * X,
         return -1;
     }
 
-    size_t wpos = armas_wpos(wb);
+    size_t wpos = wb ? armas_wpos(wb) : 0;
     armas_dense_t w, *wptr;
     wptr = __nil;
     if (!is_single(X, flags)) {
@@ -369,7 +369,8 @@ int armas_housemult_w(armas_dense_t * X,
     } else {
         hmult_left(X, tau, Q, wptr, flags, cf);
     }
-    armas_wsetpos(wb, wpos);
+    if (wb)
+        armas_wsetpos(wb, wpos);
     return 0;
 }
 
diff --git a/src/lapack/tribld.c b/src/lapack/tribld.c
index e1dd45a..bea90e7 100644
--- a/src/lapack/tribld.c
+++ b/src/lapack/tribld.c
@@ -118,6 +118,12 @@ int armas_trdbuild_w(armas_dense_t * A,
         return -ARMAS_ESIZE;
     }
 
+    if (A->cols > 1 &&
+        (!wb || armas_wbytes(wb) < (A->cols - 1) * sizeof(DTYPE))) {
+        conf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
+    }
+
     if (K > A->rows - 1)
         K = A->rows - 1;
 
-- 
2.43.0


From ef0b084e790543c9311a2b6e9e220d1c27fb357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 081/113] fix: apply Householder reflector with workspace given
 as row vector

---
 src/lapack/house.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 1fe97bd..cd8e2c8 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -498,7 +498,7 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-    armas_make(&w1, armas_size(a1), 1, armas_size(a1), armas_data(w));
+    armas_subvector(&w1, w, 0, armas_size(a1));
     return armas_apply_householder2x1(tau, v, a1, A2, &w1, flags, cf);
 }
 
@@ -594,13 +594,12 @@ int armas_houseapply(armas_dense_t * A,
             armas_submatrix(&A2, A, 1, 0, A->rows - 1, A->cols);
             break;
         }
-        armas_make(
-            &w1, armas_size(&a1), 1, armas_size(&a1), armas_data(w));
+        armas_subvector(&w1, w, 0, armas_size(&a1));
         return armas_apply_householder2x1(tau, v, &a1, &A2, &w1, flags, cf);
     }
     // unscaled householder reflector here
     int n = (flags & ARMAS_RIGHT) != 0 ? A->rows : A->cols;
-    armas_make(&w1, n, 1, n, armas_data(w));
+    armas_subvector(&w1, w, 0, n);
     // tau is null pointer here
     return armas_apply_householder1x1(tau, v, A, &w1, flags, cf);
 }
-- 
2.43.0


From 1bb3ebe9f6da5d4fdbd2e005897b509bfc89fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 082/113] fix: extended precision symmetric rank updates write
 only the referenced triangle

---
 src/eblas/syr2_ext.c | 12 ++++++------
 src/eblas/syr_ext.c  | 12 +++++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index b49c832..b511ee9 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -53,10 +53,10 @@ int armas_ext_mvupdate2_sym_unsafe(
                 twoprod(&p1, &r, xk, yk);
                 // p + c = alpha*p
                 twoprod(&p1, &c1, alpha, p1);
-                c0 += alpha*r;
+                c1 += alpha*r;
                 // p0 + q0 = alpha*x[i]*y[j] + alpha*y[i]*x[j]
                 twosum(&p0, &q0, p0, p1);
-                q0 += c0;
+                q0 += c0 + c1;
 
                 // p1 + q1 = beta*A[i,j]
                 twoprod(&p1, &q1, beta, armas_get_unsafe(A, i, j));
@@ -68,7 +68,7 @@ int armas_ext_mvupdate2_sym_unsafe(
     case ARMAS_LOWER:
     default:
         for (j = 0; j < A->cols; ++j) {
-            for (i = 0; i < j+1; ++i) {
+            for (i = j; i < A->rows; ++i) {
                 xk = armas_get_at_unsafe(X, i);
                 yk = armas_get_at_unsafe(Y, j);
                 // p + r = X[i]*Y[j]
@@ -83,10 +83,10 @@ int armas_ext_mvupdate2_sym_unsafe(
                 twoprod(&p1, &r, xk, yk);
                 // p + c = alpha*p
                 twoprod(&p1, &c1, alpha, p1);
-                c0 += alpha*r;
+                c1 += alpha*r;
                 // p0 + q0 = alpha*x[i]*y[j] + alpha*y[i]*x[j]
                 twosum(&p0, &q0, p0, p1);
-                q0 += c0;
+                q0 += c0 + c1;
 
                 // p1 + q1 = beta*A[i,j]
                 twoprod(&p1, &q1, beta, armas_get_unsafe(A, i, j));
@@ -148,7 +148,7 @@ int armas_ext_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || ny != nx || A->cols != nx) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/eblas/syr_ext.c b/src/eblas/syr_ext.c
index 1042090..8605971 100644
--- a/src/eblas/syr_ext.c
+++ b/src/eblas/syr_ext.c
@@ -38,24 +38,26 @@ int armas_ext_mvupdate_trm_unsafe(
     int flags)
 {
     DTYPE p, r, xk;
-    armas_dense_t a0;
+    armas_dense_t a0, v0;
 
     switch (flags & (ARMAS_UPPER|ARMAS_LOWER)) {
     case ARMAS_UPPER:
-        for (int i = 0; i < A->rows; ++i) {
+        for (int i = 0; i < A->rows && i < A->cols; ++i) {
             armas_submatrix_unsafe(&a0, A, i, i, 1, A->cols-i);
+            armas_subvector_unsafe(&v0, Y, i, A->cols-i);
             xk = armas_get_at(X, i);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, Y);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &v0);
         }
         break;
     case ARMAS_LOWER:
     default:
-        for (int j = 0; j < A->cols; ++j) {
+        for (int j = 0; j < A->cols && j < A->rows; ++j) {
             armas_submatrix_unsafe(&a0, A, j, j, A->rows-j, 1);
+            armas_subvector_unsafe(&v0, X, j, A->rows-j);
             xk = armas_get_at(Y, j);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, X);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &v0);
         }
         break;
     }
-- 
2.43.0


From 88fe4d4c996b7b87f34001067a0baa88a11ed7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 083/113] fix: extended precision triangular solves: workspace
 size, uninitialised workspace, transposed right solve

---
 src/eblas/trsm_ext.c | 52 +++++++++++++++++++++++---------------------
 src/eblas/trsv_ext.c |  7 +++---
 2 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index f1c38b0..2f67535 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -154,7 +154,7 @@ void solve_ext_blk_lu_llt(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = (flags & ARMAS_UPPER) != 0 ? 1 : 0;
     int mflags = (flags & ARMAS_TRANS) != 0 ? ARMAS_TRANSA : 0;
-    int NB = dB->cols;
+    int NB = min(cache->MB, cache->NB);
 
     nI = A->cols < NB ? A->cols : NB;
     cI = A->cols < NB ? 0 : A->cols-NB;
@@ -185,7 +185,6 @@ void solve_ext_blk_lu_llt(
         armas_ext_panel_dB_unsafe(&B1, &dB1, -ONE, &A0, &B0, &dB0, mflags, cache);
         solve_ext_lu_llt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -294,7 +293,7 @@ void solve_ext_blk_lut_ll(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
     int mflags = flags & ARMAS_UPPER ? ARMAS_TRANS : 0;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
 
     nI = A->cols < NB ? A->cols : NB;
     armas_submatrix_unsafe(&A1, A, 0, 0, nI, nI);
@@ -325,7 +324,6 @@ void solve_ext_blk_lut_ll(
         armas_ext_panel_dB_unsafe(&B1, &dB1, -ONE, &A0, &B0, &dB0, mflags, cache);
         solve_ext_lut_ll(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -384,7 +382,7 @@ void solve_ext_ru_rlt(
 
             bk = armas_get_unsafe(Bc, j, i);
             twoprod(&s0, &u0, alpha, bk);
-            u0 += alpha * armas_get_unsafe(dB, i, j);
+            u0 += alpha * armas_get_unsafe(dB, j, i);
             armas_ext_adot_dx_unsafe(&s0, &u0, -ONE, &b0, &d0, &a0);
 
             if (!unit) {
@@ -431,7 +429,7 @@ void solve_ext_blk_ru_rlt(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
     int mflags = flags & ARMAS_UPPER ? 0 : ARMAS_TRANSB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
 
     nI = A->cols < NB ? A->cols : NB;
     armas_submatrix_unsafe(&A1, A, 0, 0, nI, nI);
@@ -462,7 +460,6 @@ void solve_ext_blk_ru_rlt(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_ru_rlt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(&B1, &dB1);
 }
 
 /*
@@ -570,8 +567,8 @@ void solve_ext_blk_rut_rl(
 
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
-    int mflags = flags & ARMAS_TRANS ? 0 : ARMAS_TRANSB;
-    int NB = cache->NB;
+    int mflags = flags & ARMAS_TRANS ? ARMAS_TRANSB : 0;
+    int NB = min(cache->MB, cache->NB);
 
     nI = A->cols < NB ? A->cols : NB;
     cI = nI < NB ? 0 : A->cols - NB;
@@ -603,7 +600,6 @@ void solve_ext_blk_rut_rl(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_rut_rl(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -636,10 +632,10 @@ void armas_ext_solve_trm_unb_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, dB->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, B->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0, cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0, cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -698,10 +694,10 @@ void armas_ext_solve_trm_blk_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, B->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, B->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0,  cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0,  cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -770,6 +766,7 @@ int armas_ext_solve_trm_w(
 {
     armas_dense_t dX;
     int ok;
+    size_t nrhs;
 
     if (armas_size(B) == 0 || armas_size(A) == 0)
         return 0;
@@ -780,10 +777,12 @@ int armas_ext_solve_trm_w(
     switch (flags & (ARMAS_LEFT|ARMAS_RIGHT)) {
     case ARMAS_RIGHT:
         ok = B->cols == A->rows && A->cols == A->rows;
+        nrhs = B->rows;
         break;
     case ARMAS_LEFT:
     default:
         ok = B->rows == A->cols && A->cols == A->rows;
+        nrhs = B->cols;
         break;
     }
     if (! ok) {
@@ -791,31 +790,34 @@ int armas_ext_solve_trm_w(
         return -ARMAS_ESIZE;
     }
     if (!wb) {
-        cf->error = ARMAS_EMEMORY;
-        return -ARMAS_EMEMORY;
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
 
     armas_cbuf_t cbuf = ARMAS_CBUF_EMPTY;
     if (armas_cbuf_select(&cbuf, cf) < 0) {
         cf->error = ARMAS_EMEMORY;
-        return -1;
+        return -ARMAS_EMEMORY;
     }
 
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
 
     if (wb->bytes == 0) {
-        wb->bytes = A->rows*min(A->cols, cache.NB)*sizeof(DTYPE);
+        wb->bytes = A->rows*min(nrhs, min(cache.MB, cache.NB))*sizeof(DTYPE);
         return 0;
     }
-    int ncol = wb->bytes/(A->rows*sizeof(DTYPE));
-    if (ncol < 4) {
-        cf->error = ARMAS_EMEMORY;
-        return -ARMAS_EMEMORY;
+    // columns (rows if solving from right) of B in panel
+    size_t ncol = armas_wbytes(wb)/(A->rows*sizeof(DTYPE));
+    if (ncol < 1) {
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
-    if (ncol > cache.NB)
-        ncol = cache.NB;
-    armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
+    ncol = min(ncol, min(nrhs, min(cache.MB, cache.NB)));
+    if (flags & ARMAS_RIGHT)
+        armas_make(&dX, ncol, A->cols, ncol, (DTYPE *)armas_wptr(wb));
+    else
+        armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
     armas_ext_solve_trm_blk_unsafe(B, &dX, alpha, A, flags, &cache);
     return 0;
 }
diff --git a/src/eblas/trsv_ext.c b/src/eblas/trsv_ext.c
index eaea513..f141987 100644
--- a/src/eblas/trsv_ext.c
+++ b/src/eblas/trsv_ext.c
@@ -329,11 +329,12 @@ int armas_ext_mvsolve_trm_w(
         wb->bytes = sizeof(DTYPE) * N;
         return 0;
     }
-    if (armas_wbytes(wb) < sizeof(DTYPE)*N) {
-        cf->error = ARMAS_EMEMORY;
-        return -ARMAS_EMEMORY;
+    if (!wb || armas_wbytes(wb) < sizeof(DTYPE)*N) {
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
     armas_make(&dX, A->cols, 1, A->cols, (DTYPE *)armas_wptr(wb));
+    armas_scale_unsafe(&dX, ZERO);
     armas_ext_mvsolve_trm_unsafe(x, &dX, alpha, A, flags);
     return 0;
 }
-- 
2.43.0


From cf28b09dc5930401a5000708c09d7b198db9a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 084/113] fix: extended precision triangular and symmetric
 products with MB smaller than NB

---
 src/eblas/symm_ext.c |  7 ++++---
 src/eblas/trmm_ext.c | 20 +++++++++++---------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/eblas/symm_ext.c b/src/eblas/symm_ext.c
index c430346..182aec4 100644
--- a/src/eblas/symm_ext.c
+++ b/src/eblas/symm_ext.c
@@ -48,17 +48,18 @@ void mult_ext_symm_diag(
      * lower/upper part
      */
     if (flags & ARMAS_RIGHT) {
-        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Acpy);
+        // C block is MB-x-NB; A is on right
+        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Bcpy);
         if (flags & ARMAS_LOWER) {
             CPTRIL_UFILL(&Acpy, A, A->rows, A->cols, unit);
         } else {
             CPTRIU_LFILL(&Acpy, A, A->rows, A->cols, unit);
         }
         if ((flags & ARMAS_TRANSB) != 0) {
-            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Acpy);
             CPBLK(&Bcpy, B, B->rows, B->cols, flags);
         } else {
-            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Acpy);
             CPBLK_TRANS(&Bcpy, B, B->rows, B->cols, flags);
         }
         armas_ext_mult_inner(C, dC, alpha, &Bcpy, &Acpy, cache->rb);
diff --git a/src/eblas/trmm_ext.c b/src/eblas/trmm_ext.c
index 4712bb8..2b5df3a 100644
--- a/src/eblas/trmm_ext.c
+++ b/src/eblas/trmm_ext.c
@@ -77,7 +77,7 @@ void trmm_ext_blk_upper(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
 
     for (i = 0; i < A->rows; i += NB) {
         nI = A->rows - i < NB ? A->rows - i : NB;
@@ -150,7 +150,7 @@ void trmm_ext_blk_u_trans(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
 
     for (i = A->cols; i > 0; i -= NB) {
         nI = i < NB ? i : NB;
@@ -224,7 +224,7 @@ void trmm_ext_blk_lower(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
 
     for (i = A->cols; i > 0; i -= NB) {
         nI = i < NB ? i : NB;
@@ -298,7 +298,7 @@ void trmm_ext_blk_l_trans(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -373,7 +373,7 @@ void trmm_ext_blk_r_upper(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = A->cols; i > 0; i -= NB) {
@@ -448,7 +448,7 @@ void trmm_ext_blk_r_lower(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -522,7 +522,7 @@ void trmm_ext_blk_ru_trans(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -596,7 +596,7 @@ void trmm_ext_blk_rl_trans(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = A->cols; i > 0; i -= NB) {
@@ -783,8 +783,10 @@ int armas_ext_mult_trm(
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
 
-    if (cf->optflags & ARMAS_ONAIVE) {
+    // (workspace of unblocked version has room for NB rows)
+    if ((cf->optflags & ARMAS_ONAIVE) && A->cols <= cache.NB) {
         trmm_ext_unb_unsafe(B, alpha, A, flags, &cache);
+        armas_cbuf_release(&cbuf);
         return 0;
     }
     armas_ext_mult_trm_unsafe(B, alpha, A, flags, &cache);
-- 
2.43.0


From b01f513666410462407cc6d753c1211229df6dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 085/113] fix: blocked Bunch-Kauffman factorization with
 blocking factor one does not hang

---
 src/lapack/ldlbk.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lapack/ldlbk.c b/src/lapack/ldlbk.c
index 35e5f70..22a41ca 100644
--- a/src/lapack/ldlbk.c
+++ b/src/lapack/ldlbk.c
@@ -142,6 +142,9 @@ int armas_bkfactor_w(armas_dense_t * A, armas_pivot_t * P,
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
+    // block must have room for a 2x2 pivot
+    if (lb < 2)
+        lb = 0;
     // adjust blocking factor for workspace;
     wsz /= sizeof(DTYPE);
     if (lb > 0 && A->cols > lb) {
-- 
2.43.0


From 952a6ff5b22d361464b424aaef64791694657fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 086/113] fix: build of 1x1 tridiagonal reduction matrix
 without workspace

---
 src/lapack/tribld.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lapack/tribld.c b/src/lapack/tribld.c
index bea90e7..755b0af 100644
--- a/src/lapack/tribld.c
+++ b/src/lapack/tribld.c
@@ -118,8 +118,11 @@ int armas_trdbuild_w(armas_dense_t * A,
         return -ARMAS_ESIZE;
     }
 
-    if (A->cols > 1 &&
-        (!wb || armas_wbytes(wb) < (A->cols - 1) * sizeof(DTYPE))) {
+    if (A->cols == 1) {
+        armas_set(A, 0, 0, ONE);
+        return 0;
+    }
+    if (!wb || armas_wbytes(wb) < (A->cols - 1) * sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
-- 
2.43.0


From 5107687d7ae6134c3fbd50719d0c800fa9f1f17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 087/113] fix: armas_alloc leaks matrix header when element
 allocation fails

---
 src/include/matrix.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/matrix.h b/src/include/matrix.h
index 8f723fb..418b4bc 100644
--- a/src/include/matrix.h
+++ b/src/include/matrix.h
@@ -203,7 +203,11 @@ armas_dense_t *armas_alloc(int r, int c)
     }
     m = (armas_dense_t *)malloc(sizeof(armas_dense_t));
     if (!m) return m;
-    return armas_init(m, r, c);
+    if (!armas_init(m, r, c)) {
+        free(m);
+        return (armas_dense_t *)0;
+    }
+    return m;
 }
 
 //! @brief Release matrix and its allocated space
-- 
2.43.0


From a1a6231f15722cef2d40e461be851fcc3febc9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 088/113] fix: Q build functions check sizes of matrix and
 scalar vector

---
 src/lapack/lqbld.c | 9 +++++++++
 src/lapack/qlbld.c | 9 +++++++++
 src/lapack/qrbld.c | 9 +++++++++
 src/lapack/rqbld.c | 6 +++++-
 4 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index 2c90068..a59fb6f 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -283,6 +283,15 @@ int armas_lqbuild_w(armas_dense_t * A,
         return -ARMAS_EINVAL;
     }
 
+    if (A->rows > A->cols || K < 0 || K > A->rows) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+    if (armas_size(tau) != A->rows || (A->rows > 0 && tau->cols != 1)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->rows * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/qlbld.c b/src/lapack/qlbld.c
index 9966cf8..e12dc3c 100644
--- a/src/lapack/qlbld.c
+++ b/src/lapack/qlbld.c
@@ -277,6 +277,15 @@ int armas_qlbuild_w(armas_dense_t * A,
         return 0;
     }
 
+    if (A->rows < A->cols || K < 0 || K > A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+    if (armas_size(tau) != A->cols || (A->cols > 0 && tau->cols != 1)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/qrbld.c b/src/lapack/qrbld.c
index ee7ebc2..22a47c4 100644
--- a/src/lapack/qrbld.c
+++ b/src/lapack/qrbld.c
@@ -301,6 +301,15 @@ int armas_qrbuild_w(armas_dense_t * A,
         return -ARMAS_EINVAL;
     }
 
+    if (A->rows < A->cols || K < 0 || K > A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+    if (armas_size(tau) != A->cols || (A->cols > 0 && tau->cols != 1)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 280d91f..b0f03f3 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -265,7 +265,11 @@ int armas_rqbuild_w(armas_dense_t * A,
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-    if (armas_size(tau) != A->rows) {
+    if (A->rows > A->cols || K < 0 || K > A->rows) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+    if (armas_size(tau) != A->rows || (A->rows > 0 && tau->cols != 1)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 7c4be1c5fca7c323d46c9569d497cf40e42b9c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 089/113] fix: Q multiplication and QR/LQ solvers check shape
 of factorization and scalars

---
 src/lapack/lqmult.c  | 3 ++-
 src/lapack/lqsolve.c | 3 ++-
 src/lapack/qlmult.c  | 3 ++-
 src/lapack/qrmult.c  | 3 ++-
 src/lapack/qrsolve.c | 3 ++-
 src/lapack/rqmult.c  | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lapack/lqmult.c b/src/lapack/lqmult.c
index 3cb25a4..e380044 100644
--- a/src/lapack/lqmult.c
+++ b/src/lapack/lqmult.c
@@ -487,7 +487,8 @@ int armas_lqmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->cols || armas_size(tau) != A->rows) {
+    if (P != A->cols || A->rows > A->cols || armas_size(tau) != A->rows
+        || (A->rows > 0 && tau->cols != 1)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index 8fca073..3a9d829 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -131,7 +131,8 @@ int armas_lqsolve_w(armas_dense_t * B,
         return armas_lqmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
     }
 
-    if (B->rows != A->cols) {
+    if (B->rows != A->cols || A->rows > A->cols || armas_size(tau) != A->rows
+        || (A->rows > 0 && tau->cols != 1)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qlmult.c b/src/lapack/qlmult.c
index 8839412..cb8c408 100644
--- a/src/lapack/qlmult.c
+++ b/src/lapack/qlmult.c
@@ -447,7 +447,8 @@ int armas_qlmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->rows || armas_size(tau) != A->cols) {
+    if (P != A->rows || A->rows < A->cols || armas_size(tau) != A->cols
+        || (A->cols > 0 && tau->cols != 1)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrmult.c b/src/lapack/qrmult.c
index 2fea3f7..4d7d854 100644
--- a/src/lapack/qrmult.c
+++ b/src/lapack/qrmult.c
@@ -487,7 +487,8 @@ int armas_qrmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->rows || armas_size(tau) != A->cols) {
+    if (P != A->rows || A->rows < A->cols || armas_size(tau) != A->cols
+        || (A->cols > 0 && tau->cols != 1)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrsolve.c b/src/lapack/qrsolve.c
index bde09b1..b8327dc 100644
--- a/src/lapack/qrsolve.c
+++ b/src/lapack/qrsolve.c
@@ -120,7 +120,8 @@ int armas_qrsolve_w(armas_dense_t * B,
         return armas_qrmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
     }
 
-    if (B->rows != A->rows) {
+    if (B->rows != A->rows || A->rows < A->cols || armas_size(tau) != A->cols
+        || (A->cols > 0 && tau->cols != 1)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/rqmult.c b/src/lapack/rqmult.c
index f7d8656..0f1d74c 100644
--- a/src/lapack/rqmult.c
+++ b/src/lapack/rqmult.c
@@ -479,7 +479,8 @@ int armas_rqmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->cols || armas_size(tau) != A->rows) {
+    if (P != A->cols || A->rows > A->cols || armas_size(tau) != A->rows
+        || (A->rows > 0 && tau->cols != 1)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
-- 
2.43.0


From aab02b7ff5f300f93c4292f0e6bfcb3129638f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 090/113] fix: QR family factorizations and reflectors check
 scalar vector and null operands

---
 src/lapack/lq.c  | 11 +++++++++--
 src/lapack/ql.c  | 11 +++++++++--
 src/lapack/qr.c  | 11 +++++++++--
 src/lapack/qrt.c |  4 ++++
 src/lapack/rq.c  | 11 +++++++++--
 5 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 799d303..c58fd17 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -314,7 +314,13 @@ int armas_lqreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->rows || T->rows < A->rows) {
+    if (!T || !A || !tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (A->rows > A->cols || armas_size(tau) != A->rows
+        || (A->rows > 0 && tau->cols != 1)
+        || T->cols < A->rows || T->rows < A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
@@ -424,7 +430,8 @@ int armas_lqfactor_w(armas_dense_t * A,
         return 0;
     }
 
-    if (!armas_isvector(tau) || A->rows > armas_size(tau)) {
+    if (!armas_isvector(tau) || A->rows > armas_size(tau)
+        || (A->rows > 1 && tau->cols != 1)) {
         conf->error = ARMAS_EINVAL;
         return -1;
     }
diff --git a/src/lapack/ql.c b/src/lapack/ql.c
index 7df2ecf..1b8109c 100644
--- a/src/lapack/ql.c
+++ b/src/lapack/ql.c
@@ -357,7 +357,13 @@ int armas_qlreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->cols || T->rows < A->cols) {
+    if (!T || !A || !tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (A->rows < A->cols || armas_size(tau) != A->cols
+        || (A->cols > 0 && tau->cols != 1)
+        || T->cols < A->cols || T->rows < A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
@@ -473,7 +479,8 @@ int armas_qlfactor_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) < A->cols) {
+    if (!armas_isvector(tau) || armas_size(tau) < A->cols
+        || (A->cols > 1 && tau->cols != 1)) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/qr.c b/src/lapack/qr.c
index f5d5e67..52e5ce7 100644
--- a/src/lapack/qr.c
+++ b/src/lapack/qr.c
@@ -340,7 +340,13 @@ int armas_qrreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->cols || T->rows < A->cols) {
+    if (!T || !A || !tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (A->rows < A->cols || armas_size(tau) != A->cols
+        || (A->cols > 0 && tau->cols != 1)
+        || T->cols < A->cols || T->rows < A->cols) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
@@ -460,7 +466,8 @@ int armas_qrfactor_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) < A->cols) {
+    if (!armas_isvector(tau) || armas_size(tau) < A->cols
+        || (A->cols > 1 && tau->cols != 1)) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index cc10f9c..4f56e54 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -251,6 +251,10 @@ int armas_qrtfactor_w(armas_dense_t * A, armas_dense_t * T,
         return 0;
     }
     // must have: M >= N
+    if (!T) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (A->rows < A->cols || T->cols < A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
diff --git a/src/lapack/rq.c b/src/lapack/rq.c
index 8661dba..7338e30 100644
--- a/src/lapack/rq.c
+++ b/src/lapack/rq.c
@@ -352,7 +352,13 @@ int armas_rqreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->rows || T->rows < A->rows) {
+    if (!T || !A || !tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (A->rows > A->cols || armas_size(tau) != A->rows
+        || (A->rows > 0 && tau->cols != 1)
+        || T->cols < A->rows || T->rows < A->rows) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
@@ -461,7 +467,8 @@ int armas_rqfactor_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) != A->rows) {
+    if (!armas_isvector(tau) || armas_size(tau) != A->rows
+        || (A->rows > 1 && tau->cols != 1)) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-- 
2.43.0


From eaba9d114dc6c79bd16a1f378629c89d37ae0c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 091/113] fix: reductions and multipliers check operand sizes
 before accessing them

---
 src/lapack/bibld.c   | 13 +++++++++++++
 src/lapack/bired.c   | 12 ++++++++++++
 src/lapack/biredm.c  | 15 +++++++++++++++
 src/lapack/hess.c    |  3 ++-
 src/lapack/hessm.c   | 22 +++++++++++++++++++---
 src/lapack/tribld.c  |  2 +-
 src/lapack/trired.c  |  3 ++-
 src/lapack/triredm.c |  3 ++-
 8 files changed, 66 insertions(+), 7 deletions(-)

diff --git a/src/lapack/bibld.c b/src/lapack/bibld.c
index aa4fe6f..1c26164 100644
--- a/src/lapack/bibld.c
+++ b/src/lapack/bibld.c
@@ -123,6 +123,19 @@ int armas_bdbuild_w(armas_dense_t * A,
     if (armas_size(A) == 0)
         return 0;
 
+    if (!tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    int tall = A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER));
+    int nq = tall ? A->cols : A->rows - 1;
+    int np = tall ? A->cols - 1 : A->rows;
+    int ntau = (flags & ARMAS_WANTP) != 0 ? np : nq;
+    if (armas_size(tau) < ntau || (armas_size(tau) > 0 && tau->cols != 1)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     if (A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER))) {
         switch (flags & (ARMAS_WANTQ | ARMAS_WANTP)) {
         case ARMAS_WANTQ:
diff --git a/src/lapack/bired.c b/src/lapack/bired.c
index 83bfbed..7241310 100644
--- a/src/lapack/bired.c
+++ b/src/lapack/bired.c
@@ -945,6 +945,18 @@ int armas_bdreduce_w(armas_dense_t * A,
         return 0;
     }
 
+    if (!tauq || !taup) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    // number of reflectors from left and from right
+    int nq = A->rows >= A->cols ? A->cols : A->rows - 1;
+    int np = A->rows >= A->cols ? A->cols - 1 : A->rows;
+    if (armas_size(tauq) < nq || (armas_size(tauq) > 0 && tauq->cols != 1)
+        || armas_size(taup) < np || (armas_size(taup) > 0 && taup->cols != 1)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     lb = env->lb;
     wsmin = (A->cols + A->rows) * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/biredm.c b/src/lapack/biredm.c
index 9726df1..f999932 100644
--- a/src/lapack/biredm.c
+++ b/src/lapack/biredm.c
@@ -155,9 +155,24 @@ int armas_bdmult_w(armas_dense_t * C,
         return 0;
     }
     // default to multiplication from left
+    if (!A || !tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (!(flags & (ARMAS_LEFT | ARMAS_RIGHT)))
         flags |= ARMAS_LEFT;
 
+    int tall = A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER));
+    int P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
+    int nq = tall ? A->cols : A->rows - 1;
+    int np = tall ? A->cols - 1 : A->rows;
+    int ntau = (flags & ARMAS_MULTP) != 0 ? np : nq;
+    if (P != ((flags & ARMAS_MULTP) != 0 ? A->cols : A->rows)
+        || armas_size(tau) < ntau || (armas_size(tau) > 0 && tau->cols != 1)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     // NOTE: sizes are checked in QR/LQ functions.
     if (flags & ARMAS_MULTP) {
         flags = (flags & ARMAS_TRANS) ? flags ^ ARMAS_TRANS : flags | ARMAS_TRANS;
diff --git a/src/lapack/hess.c b/src/lapack/hess.c
index 7074e8d..b39c975 100644
--- a/src/lapack/hess.c
+++ b/src/lapack/hess.c
@@ -520,7 +520,8 @@ int armas_hessreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) != A->rows - 1) {
+    if (!armas_isvector(tau) || armas_size(tau) != A->rows - 1
+        || (A->rows > 2 && tau->cols != 1)) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/hessm.c b/src/lapack/hessm.c
index 57b936f..4aa1540 100644
--- a/src/lapack/hessm.c
+++ b/src/lapack/hessm.c
@@ -119,6 +119,25 @@ int armas_hessmult_w(armas_dense_t * C,
         return -1;
     }
 
+    if (wb && wb->bytes == 0) {
+        armas_dense_t Cq;
+        if (flags & ARMAS_RIGHT) {
+            armas_submatrix(&Cq, C, 0, 1, C->rows, C->cols - 1);
+        } else {
+            armas_submatrix(&Cq, C, 1, 0, C->rows - 1, C->cols);
+        }
+        return armas_qrmult_w(&Cq, __nil, __nil, flags, wb, conf);
+    }
+    if (!A || !tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (A->rows != A->cols || A->rows != ((flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows)
+        || armas_size(tau) < A->rows - 1 || (A->rows > 1 && tau->cols != 1)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     armas_submatrix(&Qh, A, 1, 0, A->rows - 1, A->cols - 1);
     armas_submatrix(&tauh, tau, 0, 0, A->rows - 1, 1);
     if (flags & ARMAS_RIGHT) {
@@ -127,9 +146,6 @@ int armas_hessmult_w(armas_dense_t * C,
         armas_submatrix(&Ch, C, 1, 0, C->rows - 1, C->cols);
     }
 
-    if (wb && wb->bytes == 0) {
-        return armas_qrmult_w(&Ch, __nil, __nil, flags, wb, conf);
-    }
     return armas_qrmult_w(&Ch, &Qh, &tauh, flags, wb, conf);
 }
 #else
diff --git a/src/lapack/tribld.c b/src/lapack/tribld.c
index 755b0af..75fccd9 100644
--- a/src/lapack/tribld.c
+++ b/src/lapack/tribld.c
@@ -108,7 +108,7 @@ int armas_trdbuild_w(armas_dense_t * A,
     if (armas_size(A) == 0)
         return 0;
 
-    if (!tau || armas_size(tau) != A->cols) {
+    if (!tau || armas_size(tau) != A->cols || tau->cols != 1) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/trired.c b/src/lapack/trired.c
index d9fa815..b4ab6ab 100644
--- a/src/lapack/trired.c
+++ b/src/lapack/trired.c
@@ -658,7 +658,8 @@ int armas_trdreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tauq) && armas_size(tauq) != A->cols) {
+    if (!armas_isvector(tauq) || armas_size(tauq) != A->cols
+        || (A->cols > 1 && tauq->cols != 1)) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/triredm.c b/src/lapack/triredm.c
index c7bc69a..7ab5a65 100644
--- a/src/lapack/triredm.c
+++ b/src/lapack/triredm.c
@@ -108,7 +108,8 @@ int armas_trdmult_w(armas_dense_t * C,
         return err;
     }
 
-    if (!A || !tau || armas_size(tau) != A->cols) {
+    if (!A || !tau || armas_size(tau) != A->cols
+        || (A->cols > 0 && tau->cols != 1)) {
         conf->error = ARMAS_EINVAL;
         return -1;
     }
-- 
2.43.0


From 94dd09fa961dfefea408877ab42c75d3e964b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 092/113] fix: LU, Cholesky and LDL functions check null
 operands and pivot vector size

---
 src/lapack/chol.c    |  4 ++++
 src/lapack/cholpv.c  |  3 ++-
 src/lapack/cholupd.c | 12 ++++++++++++
 src/lapack/invldl.c  |  3 ++-
 src/lapack/invtrm.c  |  4 ++++
 src/lapack/ldlbk.c   | 10 +++++++++-
 src/lapack/ldlpv.c   |  7 ++++++-
 src/lapack/lu.c      | 15 ++++++++++++++-
 8 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/lapack/chol.c b/src/lapack/chol.c
index 3aa5547..a2cfe41 100644
--- a/src/lapack/chol.c
+++ b/src/lapack/chol.c
@@ -431,6 +431,10 @@ int armas_cholsolve(armas_dense_t * B,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!B || !A) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (P != ARMAS_NOPIVOT) {
         return armas_cholsolve_pv(B, (armas_dense_t *) A,
                               (armas_pivot_t *) P, flags, cf);
diff --git a/src/lapack/cholpv.c b/src/lapack/cholpv.c
index 7a6605a..ad5a4c6 100644
--- a/src/lapack/cholpv.c
+++ b/src/lapack/cholpv.c
@@ -608,7 +608,8 @@ int armas_cholsolve_pv(armas_dense_t * B, armas_dense_t * A,
     if (armas_size(B) == 0 || armas_size(A) == 0)
         return 0;
 
-    if (A->rows != A->cols || A->cols != B->rows) {
+    if (A->rows != A->cols || A->cols != B->rows
+        || armas_pivot_size(P) != A->rows) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/cholupd.c b/src/lapack/cholupd.c
index 6ee7fa7..3883eac 100644
--- a/src/lapack/cholupd.c
+++ b/src/lapack/cholupd.c
@@ -158,8 +158,20 @@ int armas_cholupdate(armas_dense_t * A, armas_dense_t * X, int flags,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!A || !X) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (armas_size(A) == 0 || armas_size(X) == 0)
         return 0;
+    if (!armas_isvector(X)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    if (A->rows != A->cols || armas_size(X) != A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     // private functions expect row vector
     if (X->cols == 1) {
diff --git a/src/lapack/invldl.c b/src/lapack/invldl.c
index 9134c41..8712cd7 100644
--- a/src/lapack/invldl.c
+++ b/src/lapack/invldl.c
@@ -324,7 +324,8 @@ int armas_ldlinverse_w(armas_dense_t * A, const armas_pivot_t * P,
         return 0;
     }
 
-    if (A->rows != A->cols) {
+    if (A->rows != A->cols
+        || (P != ARMAS_NOPIVOT && armas_pivot_size(P) != A->rows)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
diff --git a/src/lapack/invtrm.c b/src/lapack/invtrm.c
index 5763031..e83490e 100644
--- a/src/lapack/invtrm.c
+++ b/src/lapack/invtrm.c
@@ -227,6 +227,10 @@ int armas_inverse_trm(armas_dense_t * A, int flags, armas_conf_t * conf)
     if (!conf)
         conf = armas_conf_default();
 
+    if (!A) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (A->rows != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -1;
diff --git a/src/lapack/ldlbk.c b/src/lapack/ldlbk.c
index 22a41ca..5718d98 100644
--- a/src/lapack/ldlbk.c
+++ b/src/lapack/ldlbk.c
@@ -131,6 +131,10 @@ int armas_bkfactor_w(armas_dense_t * A, armas_pivot_t * P,
         return 0;
     }
 
+    if (!P) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (A->rows != A->cols || A->cols != armas_pivot_size(P)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
@@ -253,7 +257,11 @@ int armas_bksolve_w(armas_dense_t * B, const armas_dense_t * A,
         return 0;
     }
 
-    if (A->cols != B->rows) {
+    if (!P) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (A->rows != A->cols || armas_pivot_size(P) != A->rows || A->cols != B->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/ldlpv.c b/src/lapack/ldlpv.c
index 7ec5c31..0cadfa2 100644
--- a/src/lapack/ldlpv.c
+++ b/src/lapack/ldlpv.c
@@ -562,7 +562,8 @@ int armas_ldlfactor_w(armas_dense_t * A,
         return 0;
     }
 
-    if (A->rows != A->cols) {
+    if (A->rows != A->cols
+        || (P != ARMAS_NOPIVOT && armas_pivot_size(P) != A->rows)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
@@ -629,6 +630,10 @@ int armas_ldlsolve(armas_dense_t * B,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!B || !A) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (armas_size(B) == 0 || armas_size(A) == 0)
         return 0;
 
diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 3102252..16bae5c 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -305,6 +305,14 @@ int armas_lufactor(armas_dense_t * A, armas_pivot_t * P,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!A) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (P && armas_pivot_size(P) < (A->rows < A->cols ? A->rows : A->cols)) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     armas_env_t *env = armas_getenv();
     if (env->lb == 0 || A->cols <= env->lb || A->rows <= env->lb) {
         if (P) {
@@ -356,7 +364,12 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    ok = B->rows == A->cols && A->rows == A->cols;
+    if (!B || !A) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    ok = B->rows == A->cols && A->rows == A->cols
+        && (!P || armas_pivot_size(P) == A->rows);
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
-- 
2.43.0


From be986de42f51b9472b806890b5391972e69b62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 093/113] fix: SVD, eigenvalue and secular functions check
 vector operands

---
 src/lapack/dqds.c   |  4 ++++
 src/lapack/evd.c    |  7 ++++++-
 src/lapack/svd.c    |  4 ++++
 src/lapack/trdsec.c | 14 ++++++++++++++
 4 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index dfda710..c52b092 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -1119,6 +1119,10 @@ int armas_dqds_w(armas_dense_t * D, armas_dense_t * E, armas_wbuf_t * wb,
         conf->error = ARMAS_EINVAL;
         return -1;
     }
+    if (!armas_isvector(D) || (N > 1 && !armas_isvector(E))) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     if (armas_size(E) != N - 1) {
         conf->error = ARMAS_ESIZE;
         return -1;
diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 7bf8629..3d3eefe 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -77,6 +77,10 @@ int armas_eigen_sym(armas_dense_t * D,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!A) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (armas_size(A) == 0)
         return 0;
 
@@ -149,7 +153,8 @@ int armas_eigen_sym_w(armas_dense_t * D,
         return 0;
     }
 
-    if (A->rows != A->cols || armas_size(D) != A->rows) {
+    if (A->rows != A->cols || armas_size(D) != A->rows
+        || (A->rows > 0 && !armas_isvector(D))) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 4467751..8a4f6fc 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -597,6 +597,10 @@ int armas_svd_w(armas_dense_t * S,
         return 0;
     }
 
+    if (!armas_isvector(S)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     if (tall && armas_size(S) < A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 6678936..48af739 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -645,6 +645,11 @@ int armas_trdsec_solve(armas_dense_t * y, armas_dense_t * d,
         conf = armas_conf_default();
 
     // sizes need to match
+    if (!armas_isvector(y) || !armas_isvector(d)
+        || !armas_isvector(z) || !armas_isvector(delta)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     if (armas_size(d) != armas_size(y)
         || armas_size(d) != armas_size(delta)
         || armas_size(d) != armas_size(z)) {
@@ -695,6 +700,15 @@ int armas_trdsec_solve_vec(armas_dense_t * y, armas_dense_t * v,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!Qd) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (!armas_isvector(y) || !armas_isvector(v)
+        || !armas_isvector(d) || !armas_isvector(z)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     if (armas_size(v) != armas_size(z)
         || armas_size(v) != armas_size(d)
         || armas_size(y) != armas_size(d)
-- 
2.43.0


From 8e1c50765c608869a7b00f26e3894ce51b01194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 094/113] fix: householder application and multiplication check
 operand sizes

---
 src/lapack/house.c  | 24 +++++++++++++++++++++++-
 src/lapack/housem.c | 14 +++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index cd8e2c8..6464868 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -494,6 +494,20 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
     armas_dense_t w1;
     if (!cf)
         cf = armas_conf_default();
+    if (!a1 || !A2 || !tau || !v || !w) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (!armas_isvector(a1) || !armas_isvector(v) || !armas_isvector(w)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    if ((flags & ARMAS_RIGHT) != 0
+        ? armas_size(a1) != A2->rows || armas_size(v) != A2->cols
+        : armas_size(a1) != A2->cols || armas_size(v) != A2->rows) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     if (armas_size(w) < armas_size(a1)) {
         cf->error = ARMAS_ESIZE;
         return -1;
@@ -537,6 +551,14 @@ int armas_houseapply(armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!A || !v) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (!armas_isvector(v)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     int scaled = tau != __nil ? 1 : 0;
 
     if (armas_isvector(A)) {
@@ -577,7 +599,7 @@ int armas_houseapply(armas_dense_t * A,
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-    if (!w || armas_size(w) < (flags & ARMAS_RIGHT ? A->rows : A->cols)) {
+    if (!w || !armas_isvector(w) || armas_size(w) < (flags & ARMAS_RIGHT ? A->rows : A->cols)) {
         cf->error = ARMAS_EWORK;
         return -1;
     }
diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 2ad745f..9214a23 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -325,6 +325,10 @@ int armas_housemult_w(armas_dense_t * X,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!X) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (!wb && !is_single(X, flags)) {
         cf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
@@ -335,10 +339,14 @@ int armas_housemult_w(armas_dense_t * X,
         wb->bytes = nelem * sizeof(DTYPE);
         return 0;
     }
+    if (!Q) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     // check parameter sizes;
     if (flags & ARMAS_UNIT) {
         // this is unit scaled reflector; tau is needed
-        if (armas_size(tau) != Q->cols) {
+        if (armas_size(tau) != Q->cols || (Q->cols > 0 && tau->cols != 1)) {
             cf->error = ARMAS_ESIZE;
             return -1;
         }
@@ -386,6 +394,10 @@ int armas_housemult(armas_dense_t * X,
 {
     if (!cf)
         cf = armas_conf_default();
+    if (!X) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (is_single(X, flags)) {
         return armas_housemult_w(X, tau, Q, flags, (armas_wbuf_t *) 0, cf);
     }
-- 
2.43.0


From 2f5209114f42212c591cc8b0edb93f26cf0624aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 095/113] fix: mvupdate2_sym checks vector size against matrix

---
 src/blas/syr2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/syr2.c b/src/blas/syr2.c
index e8a86d5..4afa437 100644
--- a/src/blas/syr2.c
+++ b/src/blas/syr2.c
@@ -151,7 +151,7 @@ int armas_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || ny != nx || nx != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 0b25e2caee88c455718dc1d01cf82ff919b2d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 096/113] fix: negative cache sizes in environment are ignored

---
 src/base/env.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/env.c b/src/base/env.c
index c362b0e..10c2157 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -118,7 +118,10 @@ void read_environment()
         size_t val;
         for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
             endptr = (char *)0;
-            val = strtoul(tok, &endptr, 0);
+            while (isspace((unsigned char)*tok))
+                tok++;
+            // negative values are ignored like non-positive ones
+            val = *tok == '-' ? 0 : strtoul(tok, &endptr, 0);
             if (endptr) {
                 switch (toupper(*endptr)) {
                 case 'K':
-- 
2.43.0


From 7bd238ad2308a4b25d4f1083df17470e8d199dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 097/113] fix: CPU specification with zero step does not hang,
 masks of 64 bits

---
 src/base/accel.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index f78ad08..b61d844 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -184,8 +184,8 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
             }
 
             // only processer number less than nproc
-            for (i = 0; i < 8 * sizeof(val) && start + i < nproc; i++) {
-                if ((bits & (1 << i)) != 0) {
+            for (i = 0; i < 8 * sizeof(bits) && start + i < nproc; i++) {
+                if ((bits & (1UL << i)) != 0) {
                     CPU_SET(start + i, &env->cpus);
                 }
             }
@@ -196,6 +196,8 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
                 ;
                 *s1 = '\0';
                 step = strtol(s1 + 1, NULL, 10);
+                if (step <= 0)
+                    step = 1;
             }
             *s0 = '\0';
             start = strtol(tok, NULL, 10);
-- 
2.43.0


From 6fcdc749e17a502c75d8c83946b58dc36f85f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 098/113] fix: CPU specification takes effect in worker
 scheduler

---
 src/workers/workers.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index e6e543d..d069b02 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -287,6 +287,7 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
     sc->workers = (struct armas_ac_worker *)&buf[sizeof(struct armas_ac_sched_workers)];
     sc->nworker = env->max_cores;
     sc->options = env->options;
+    sc->cpus = env->cpus;
     last_cpu = -1;
 
     for (int i = 0; i < sc->nworker; i++) {
-- 
2.43.0


From caca86420d33c2841839990b36b40494b7023dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 099/113] fix: documented order of blocking parameters is the
 one in use

---
 docs/environment.md | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/environment.md b/docs/environment.md
index 45c7e11..b4b2cf1 100644
--- a/docs/environment.md
+++ b/docs/environment.md
@@ -3,10 +3,10 @@
 
 Following environment variables can be used to configure aspects of execution
 
-* ARMAS_CONFIG = mb,kb,nb,lb,b1min,b2min,fixed
+* ARMAS_CONFIG = mb,nb,kb,lb,b1min,b2min,fixed
 
     Defines the blocking configuration of the library functions. First three values
-    (*mb*, *kb*, *nb*) define the matrix kernel intermediate block size. These values are
+    (*mb*, *nb*, *kb*) define the matrix kernel intermediate block size. These values are
     relative values and final sizes are computed based on *memsize* value defined
     in *ARMAS_CACHE* variable or the memory block size of per call intermediate memory.
 
@@ -15,7 +15,7 @@ Following environment variables can be used to configure aspects of execution
     The values of *b1min* and *b2min* the blocking size for BLAS level1 and BLAS level2
     recursive implementations.
 
-    The *fixed* is boolean indicating that (mb,kb,nb) triplet values are absolute
+    The *fixed* is boolean indicating that (mb,nb,kb) triplet values are absolute
     values. It is responsibility of the caller to ensure that provided intermediate
     memory if large enough.
 
-- 
2.43.0


From ca9223eb6e92d5e54556a48ebfa09fae6f96272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 100/113] fix: BLAS compatible entries hidden by misspelled
 guards and names

---
 src/compat/gemv.c                  | 4 ++--
 src/compat/ger.c                   | 2 +-
 src/compat/syr2.c                  | 2 +-
 src/compat/trmm.c                  | 2 +-
 src/compat/trmv.c                  | 2 +-
 src/compat/trsm.c                  | 4 ++--
 src/include/float32/names_compat.h | 2 +-
 src/include/float64/names_compat.h | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index c2b6dbb..d3ccdef 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -9,11 +9,11 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(gemvf) || defined(cblas_gemv)
+#if defined(blas_gemvf) || defined(cblas_gemv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_gemv)
+#if defined(armas_mvmult)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/ger.c b/src/compat/ger.c
index a68f2ad..84c0799 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -13,7 +13,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(ENABLE_COMPAT) && defined(armas_mvupdate)
+#if defined(armas_mvupdate)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 643ff7d..4b06f25 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(syr2f) || defined(cblas_syr2)
+#if defined(blas_syr2f) || defined(cblas_syr2)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 0c176de..1d24047 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmmf) || defined(cblas_trmm)
+#if defined(blas_trmmf) || defined(cblas_trmm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 11eaa66..418c8fc 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmvf) || defined(cblas_trmv)
+#if defined(blas_trmvf) || defined(cblas_trmv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 6f2ed4d..ed0b453 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trsmf) || defined(cblas_trsm)
+#if defined(blas_trsmf) || defined(cblas_trsm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
@@ -23,7 +23,7 @@
 #include <ctype.h>
 #include "matrix.h"
 
-#if defined(trsmf)
+#if defined(blas_trsmf)
 void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
                 int *n, DTYPE * alpha, DTYPE * A, int *lda, DTYPE * B, int *ldb)
 {
diff --git a/src/include/float32/names_compat.h b/src/include/float32/names_compat.h
index 7747fcc..8c800d5 100644
--- a/src/include/float32/names_compat.h
+++ b/src/include/float32/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  sgemm_
 #define blas_symmf  ssymm_
-#define blas_syr2kf ssyrk2_
+#define blas_syr2kf ssyr2k_
 #define blas_syrkf  ssyrk_
 #define blas_trmmf  strmm_
 #define blas_trsmf  strsm_
diff --git a/src/include/float64/names_compat.h b/src/include/float64/names_compat.h
index 8e3c537..f78d635 100644
--- a/src/include/float64/names_compat.h
+++ b/src/include/float64/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  dgemm_
 #define blas_symmf  dsymm_
-#define blas_syr2kf dsyrk2_
+#define blas_syr2kf dsyr2k_
 #define blas_syrkf  dsyrk_
 #define blas_trmmf  dtrmm_
 #define blas_trsmf  dtrsm_
-- 
2.43.0


From 83fdecea934b70d0ad70735e12fbcbc5aed6ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 101/113] fix: storage order, transposes and leading dimensions
 of BLAS compatible matrix operations

---
 src/compat/gemm.c  | 62 ++++++++++++++++++++++------------------------
 src/compat/gemv.c  |  2 +-
 src/compat/symm.c  |  4 +--
 src/compat/syr2k.c | 10 +++++---
 src/compat/syrk.c  |  6 ++++-
 src/compat/trmm.c  | 10 ++++----
 src/compat/trmv.c  |  2 +-
 src/compat/trsm.c  | 10 ++++----
 src/compat/trsv.c  |  2 +-
 9 files changed, 57 insertions(+), 51 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 1940484..ed60c76 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,14 +33,24 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
-    armas_make(&a, *m, *k, *lda, A);
-    armas_make(&b, *k, *n, *ldb, B);
 
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) == 'T' || toupper(*transa) == 'C')
         flags |= ARMAS_TRANSA;
-    if (toupper(*transb) == 'T')
+    if (toupper(*transb) == 'T' || toupper(*transb) == 'C')
         flags |= ARMAS_TRANSB;
 
+    if (flags & ARMAS_TRANSA)
+        armas_make(&a, *k, *m, *lda, A);
+    else
+        armas_make(&a, *m, *k, *lda, A);
+    if (flags & ARMAS_TRANSB)
+        armas_make(&b, *n, *k, *ldb, B);
+    else
+        armas_make(&b, *k, *n, *ldb, B);
+    if (*k == 0) {
+        armas_mscale(&c, *beta, 0, conf);
+        return;
+    }
     armas_mult(*beta, &c, *alpha, &a, &b, flags, conf);
 }
 #endif
@@ -54,44 +64,32 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
     armas_dense_t Ca, Aa, Ba;
     int flags = 0;
 
+    // Elements of row major matrix in column major order are its transpose;
+    // compute C^T = op(B)^T*op(A)^T
+    int ta = transa == CblasNoTrans ? 0 : 1;
+    int tb = transb == CblasNoTrans ? 0 : 1;
     switch (order) {
     case CblasColMajor:
-        if (transa == CblasTrans) {
-            flags |= ARMAS_TRANSA;
-            // error: K > lda
-            armas_make(&Aa, K, M, lda, A);
-        } else {
-            // error: M > lda
-            armas_make(&Aa, M, K, lda, A);
-        }
-        if (transb == CblasTrans) {
-            flags |= ARMAS_TRANSB;
-            armas_make(&Ba, N, K, ldb, B);
-        } else {
-            armas_make(&Ba, K, N, ldb, B);
-        }
+        flags |= ta ? ARMAS_TRANSA : 0;
+        flags |= tb ? ARMAS_TRANSB : 0;
+        armas_make(&Aa, ta ? K : M, ta ? M : K, lda, A);
+        armas_make(&Ba, tb ? N : K, tb ? K : N, ldb, B);
         armas_make(&Ca, M, N, ldc, C);
         break;
     case CblasRowMajor:
-        if (transa == CblasNoTrans) {
-            flags |= ARMAS_TRANSA;
-            // error: M > lda
-            armas_make(&Aa, M, K, lda, A);
-        } else {
-            // error: K > lda
-            armas_make(&Aa, K, M, lda, A);
-        }
-        if (transb == CblasNoTrans) {
-            flags |= ARMAS_TRANSB;
-            armas_make(&Ba, K, N, ldb, B);
-        } else {
-            armas_make(&Ba, N, K, ldb, B);
-        }
+        flags |= tb ? ARMAS_TRANSA : 0;
+        flags |= ta ? ARMAS_TRANSB : 0;
+        armas_make(&Aa, tb ? K : N, tb ? N : K, ldb, B);
+        armas_make(&Ba, ta ? M : K, ta ? K : M, lda, A);
         armas_make(&Ca, N, M, ldc, C);
         break;
     default:
         return;
     }
+    if (K == 0) {
+        armas_mscale(&Ca, beta, 0, &conf);
+        return;
+    }
     armas_mult(beta, &Ca, alpha, &Aa, &Ba, flags, &conf);
 }
 #endif
diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index d3ccdef..e6b4d0e 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -32,7 +32,7 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     armas_dense_t y, a, x;
     int ylen, xlen, flags = 0;
 
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) == 'T' || toupper(*trans) == 'C')
         flags |= ARMAS_TRANS;
 
     ylen = flags & ARMAS_TRANS ? *n : *m;
diff --git a/src/compat/symm.c b/src/compat/symm.c
index 11df4f5..df7cf1c 100644
--- a/src/compat/symm.c
+++ b/src/compat/symm.c
@@ -79,10 +79,10 @@ void cblas_symm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
     default:
         if (side == CblasRight) {
             flags |= ARMAS_RIGHT;
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             flags |= ARMAS_LEFT;
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         armas_make(&Ba, M, N, ldb, B);
         armas_make(&Ca, M, N, ldc, C);
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 598e351..ce44d72 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -33,16 +33,20 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) == 'T' || toupper(*trans) == 'C')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
     if (flags & ARMAS_TRANS) {
         armas_make(&a, *k, *n, *lda, A);
-        armas_make(&b, *k, *n, *lda, B);
+        armas_make(&b, *k, *n, *ldb, B);
     } else {
         armas_make(&a, *n, *k, *lda, A);
-        armas_make(&b, *n, *k, *lda, B);
+        armas_make(&b, *n, *k, *ldb, B);
+    }
+    if (*k == 0) {
+        armas_mscale(&c, *beta, flags & (ARMAS_LOWER | ARMAS_UPPER), conf);
+        return;
     }
     armas_update2_sym(*beta, &c, *alpha, &a, &b, flags, conf);
 }
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index d13235b..826ef15 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -32,7 +32,7 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) == 'T' || toupper(*trans) == 'C')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
@@ -41,6 +41,10 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     } else {
         armas_make(&a, *n, *k, *lda, A);
     }
+    if (*k == 0) {
+        armas_mscale(&c, *beta, flags & (ARMAS_LOWER | ARMAS_UPPER), conf);
+        return;
+    }
     armas_update_sym(*beta, &c, *alpha, &a, flags, conf);
 }
 #endif
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 1d24047..32bd256 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -45,7 +45,7 @@ void blas_trmmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) == 'T' || toupper(*transa) == 'C')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -69,7 +69,7 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -86,16 +86,16 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 418c8fc..b0625bf 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -40,7 +40,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) == 'T' || toupper(*trans) == 'C')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index ed0b453..660d2f8 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -45,7 +45,7 @@ void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) == 'T' || toupper(*transa) == 'C')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -69,7 +69,7 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -86,16 +86,16 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 96907f9..8a225b8 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -40,7 +40,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) == 'T' || toupper(*trans) == 'C')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
-- 
2.43.0


From 9ed85723d9655212105ad4d09b9adf3f6c95deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 102/113] fix: argument order of dscal, index base of idamax
 and results of drotg

---
 src/compat/iamax.c |  3 ++-
 src/compat/rot.c   | 16 ++++++++++++++++
 src/compat/scal.c  |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/compat/iamax.c b/src/compat/iamax.c
index fd407a6..2787500 100644
--- a/src/compat/iamax.c
+++ b/src/compat/iamax.c
@@ -34,7 +34,8 @@ int blas_iamaxf(int *n, DTYPE * X, int *incx)
     } else {
         armas_make(&x, 1, *n, *incx, X);
     }
-    return armas_iamax(&x, conf);
+    // Fortran indexes start from one
+    return armas_iamax(&x, conf) + 1;
 }
 #endif
 
diff --git a/src/compat/rot.c b/src/compat/rot.c
index 41aea13..2540f05 100644
--- a/src/compat/rot.c
+++ b/src/compat/rot.c
@@ -73,7 +73,23 @@ void blas_rotf(int *n, DTYPE * X, int *incx, DTYPE * Y, int *incy, DTYPE * c,
 void blas_rotgf(DTYPE * sa, DTYPE * sb, DTYPE * c, DTYPE * s)
 {
     DTYPE r;
+    DTYPE z;
     armas_gvcompute(c, s, &r, *sa, *sb);
+    // sign of r is sign of the larger argument
+    if (ABS(*sa) > ABS(*sb) ? *c < ZERO : *s < ZERO) {
+        *c = -*c;
+        *s = -*s;
+        r = -r;
+    }
+    // sa returns r and sb value from which c, s can be recovered
+    if (ABS(*sa) > ABS(*sb))
+        z = *s;
+    else
+        z = *c != ZERO ? ONE / *c : ONE;
+    if (*sa == ZERO && *sb == ZERO)
+        z = ZERO;
+    *sa = r;
+    *sb = z;
 }
 #endif
 
diff --git a/src/compat/scal.c b/src/compat/scal.c
index 68813e4..950a44f 100644
--- a/src/compat/scal.c
+++ b/src/compat/scal.c
@@ -24,7 +24,7 @@
 #include "matrix.h"
 
 #if defined(blas_scalf)
-void blas_scalf(int *n, DTYPE * X, int *incx, DTYPE * alpha)
+void blas_scalf(int *n, DTYPE * alpha, DTYPE * X, int *incx)
 {
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
-- 
2.43.0


From 90920b331f0f9f68cc48a22fdb1d024d6b275fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 103/113] fix: negative increments of BLAS compatible
 matrix-vector operations

---
 src/compat/gemv.c | 17 +++++++++++++++++
 src/compat/ger.c  | 10 ++++++++++
 src/compat/symv.c | 15 +++++++++++++++
 src/compat/syr.c  | 10 ++++++++++
 src/compat/syr2.c | 13 +++++++++++++
 src/compat/trmv.c | 17 +++++++++++++++++
 src/compat/trsv.c | 16 ++++++++++++++++
 7 files changed, 98 insertions(+)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index e6b4d0e..c3c3066 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -37,6 +37,23 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
 
     ylen = flags & ARMAS_TRANS ? *n : *m;
     xlen = flags & ARMAS_TRANS ? *m : *n;
+    if (*incx < 0 || *incy < 0) {
+        // first element of vector with negative increment is the last one in memory
+        DTYPE *x0 = *incx < 0 ? X - (xlen - 1) * *incx : X;
+        DTYPE *y0 = *incy < 0 ? Y - (ylen - 1) * *incy : Y;
+        if (xlen == 0)
+            return;
+        for (int i = 0; i < ylen; i++) {
+            DTYPE t = ZERO;
+            for (int j = 0; j < xlen; j++) {
+                t += x0[j * *incx]
+                    * (flags & ARMAS_TRANS ? A[j + i * *lda] : A[i + j * *lda]);
+            }
+            t *= *alpha;
+            y0[i * *incy] = *beta == ZERO ? t : *beta * y0[i * *incy] + t;
+        }
+        return;
+    }
     armas_make(&a, *m, *n, *lda, A);
     if (*incy == 1) {
         // column vector
diff --git a/src/compat/ger.c b/src/compat/ger.c
index 84c0799..089a407 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -30,6 +30,16 @@ void blas_gerf(int *m, int *n, DTYPE * alpha, DTYPE * X,
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t y, a, x;
 
+    if (*incx < 0 || *incy < 0) {
+        // first element of vector with negative increment is the last one in memory
+        DTYPE *x0 = *incx < 0 ? X - (*m - 1) * *incx : X;
+        DTYPE *y0 = *incy < 0 ? Y - (*n - 1) * *incy : Y;
+        for (int j = 0; j < *n; j++) {
+            for (int i = 0; i < *m; i++)
+                A[i + j * *lda] += *alpha * x0[i * *incx] * y0[j * *incy];
+        }
+        return;
+    }
     armas_make(&a, *m, *n, *lda, A);
     if (*incy == 1) {
         // column vector
diff --git a/src/compat/symv.c b/src/compat/symv.c
index c5e1649..2f98699 100644
--- a/src/compat/symv.c
+++ b/src/compat/symv.c
@@ -42,6 +42,21 @@ void blas_symvf(char *uplo, int *n, DTYPE * alpha, DTYPE * A,
         break;
     }
 
+    if (*incx < 0 || *incy < 0) {
+        // first element of vector with negative increment is the last one in memory
+        DTYPE *x0 = *incx < 0 ? X - (*n - 1) * *incx : X;
+        DTYPE *y0 = *incy < 0 ? Y - (*n - 1) * *incy : Y;
+        for (int i = 0; i < *n; i++) {
+            DTYPE t = ZERO;
+            for (int j = 0; j < *n; j++) {
+                int stored = flags & ARMAS_LOWER ? i >= j : i <= j;
+                t += x0[j * *incx] * (stored ? A[i + j * *lda] : A[j + i * *lda]);
+            }
+            t *= *alpha;
+            y0[i * *incy] = *beta == ZERO ? t : *beta * y0[i * *incy] + t;
+        }
+        return;
+    }
     armas_make(&a, *n, *n, *lda, A);
     if (*incy == 1) {
         // column vector
diff --git a/src/compat/syr.c b/src/compat/syr.c
index 0d9dd7f..a3610f2 100644
--- a/src/compat/syr.c
+++ b/src/compat/syr.c
@@ -33,6 +33,16 @@ void blas_syrf(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
 
+    if (*incx < 0) {
+        // first element of vector with negative increment is the last one in memory
+        DTYPE *x0 = X - (*n - 1) * *incx;
+        for (int j = 0; j < *n; j++) {
+            int end = flags & ARMAS_LOWER ? *n : j + 1;
+            for (int i = flags & ARMAS_LOWER ? j : 0; i < end; i++)
+                A[i + j * *lda] += *alpha * x0[i * *incx] * x0[j * *incx];
+        }
+        return;
+    }
     armas_make(&a, *n, *n, *lda, A);
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 4b06f25..c26c919 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -33,6 +33,19 @@ void blas_syr2f(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
 
+    if (*incx < 0 || *incy < 0) {
+        // first element of vector with negative increment is the last one in memory
+        DTYPE *x0 = *incx < 0 ? X - (*n - 1) * *incx : X;
+        DTYPE *y0 = *incy < 0 ? Y - (*n - 1) * *incy : Y;
+        for (int j = 0; j < *n; j++) {
+            int end = flags & ARMAS_LOWER ? *n : j + 1;
+            for (int i = flags & ARMAS_LOWER ? j : 0; i < end; i++) {
+                A[i + j * *lda] += *alpha * (x0[i * *incx] * y0[j * *incy]
+                                             + y0[i * *incy] * x0[j * *incx]);
+            }
+        }
+        return;
+    }
     armas_make(&a, *n, *n, *lda, A);
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index b0625bf..8a87ead 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -45,6 +45,23 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
 
+    if (*incx < 0) {
+        // first element of vector with negative increment is the last one in memory
+        DTYPE *x0 = X - (*n - 1) * *incx;
+        int lower = (flags & ARMAS_LOWER ? 1 : 0) != (flags & ARMAS_TRANS ? 1 : 0);
+        for (int k = 0; k < *n; k++) {
+            // elements not needed anymore are overwritten first
+            int i = lower ? *n - 1 - k : k;
+            DTYPE t = flags & ARMAS_UNIT ? x0[i * *incx] : A[i + i * *lda] * x0[i * *incx];
+            int end = lower ? i : *n;
+            for (int j = lower ? 0 : i + 1; j < end; j++) {
+                t += x0[j * *incx]
+                    * (flags & ARMAS_TRANS ? A[j + i * *lda] : A[i + j * *lda]);
+            }
+            x0[i * *incx] = t;
+        }
+        return;
+    }
     armas_make(&a, *n, *n, *lda, A);
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 8a225b8..2b0a690 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -45,6 +45,22 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
 
+    if (*incx < 0) {
+        // first element of vector with negative increment is the last one in memory
+        DTYPE *x0 = X - (*n - 1) * *incx;
+        int lower = (flags & ARMAS_LOWER ? 1 : 0) != (flags & ARMAS_TRANS ? 1 : 0);
+        for (int k = 0; k < *n; k++) {
+            int i = lower ? k : *n - 1 - k;
+            DTYPE t = x0[i * *incx];
+            int end = lower ? i : *n;
+            for (int j = lower ? 0 : i + 1; j < end; j++) {
+                t -= x0[j * *incx]
+                    * (flags & ARMAS_TRANS ? A[j + i * *lda] : A[i + j * *lda]);
+            }
+            x0[i * *incx] = flags & ARMAS_UNIT ? t : t / A[i + i * *lda];
+        }
+        return;
+    }
     armas_make(&a, *n, *n, *lda, A);
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
-- 
2.43.0


From 812d9d25dfd8a067edd83349c36b326b11ef804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:56 +0000
Subject: [PATCH 104/113] fix: extended dot product with initial value smaller
 than the product

---
 src/eblas/dot_ext.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eblas/dot_ext.c b/src/eblas/dot_ext.c
index ca430b7..eb248dd 100644
--- a/src/eblas/dot_ext.c
+++ b/src/eblas/dot_ext.c
@@ -99,7 +99,8 @@ void armas_ext_adot_unsafe(
     }
 
     twoprod(&h0, &p0, s0, alpha);
-    fastsum(&s0, &z0, *h, h0);
+    // initial value may be smaller than the product
+    twosum(&s0, &z0, *h, h0);
     c0 = *l + p0 + alpha*c0 + z0;
     // protect against  h < l
     fastsum(h, l, s0, c0);
-- 
2.43.0


From b20b16455966ca15dd144139f8849da7c13d634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:56 +0000
Subject: [PATCH 105/113] fix: low order parts in extended symmetric
 matrix-vector product

---
 src/eblas/symv_ext.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eblas/symv_ext.c b/src/eblas/symv_ext.c
index a8eac3d..8f21ab3 100644
--- a/src/eblas/symv_ext.c
+++ b/src/eblas/symv_ext.c
@@ -79,12 +79,14 @@ int armas_ext_mvmult_sym_unsafe(
                 twosum(&y0, &c0, y0, x0);
                 s0 += c0 + p0;
             }
-            twoprod(&y0, &p0, y0+s0, alpha);
+            twoprod(&y0, &p0, y0, alpha);
+            p0 += s0 * alpha;
             // here: y0 + p0 = alpha*sum(A_i,j*x_j)
             twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
             // here: x0 + s0 = beta*y[i]
             p0 += s0;
             twosum(&y0, &s0, x0, y0);
+            p0 += s0;
 
             Y->elems[(i+0)*yinc] = y0 + p0;
         }
@@ -108,12 +110,14 @@ int armas_ext_mvmult_sym_unsafe(
             twosum(&y0, &c0, y0, x0);
             s0 += c0 + p0;
         }
-        twoprod(&y0, &p0, y0+s0, alpha);
+        twoprod(&y0, &p0, y0, alpha);
+        p0 += s0 * alpha;
         // here: y_i + p_i = alpha*sum(A_i,j*x_j)
         twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
         // here: x_i + s_i = beta*y_i
         p0 += s0;
         twosum(&y0, &s0, x0, y0);
+        p0 += s0;
 
         Y->elems[(i+0)*yinc] = y0 + p0;
     }
-- 
2.43.0


From 2466e6d34c48370701154050ba9ffc4e968e82d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:22 +0000
Subject: [PATCH 106/113] fix: refuse matrices with more elements than an index
 can address

---
 src/base/matrix.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index b413853..614b58b 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -10,6 +10,7 @@
  * Matrix basic operators
  */
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdint.h>
@@ -62,8 +63,16 @@ armas_dense_t *armas_init(armas_dense_t *m, int r, int c)
         m->__nbytes = 0;
         return m;
     }
+    // elements are indexed with integers
+    if (r > INT_MAX / c) {
+        m->rows = m->cols = m->step = 0;
+        m->elems = (DTYPE *)0;
+        m->__data = (void *)0;
+        m->__nbytes = 0;
+        return (armas_dense_t *)0;
+    }
     // set first to adjusted element count
-    m->__nbytes = ALIGNSIZE(r*c, DTYPE);
+    m->__nbytes = ALIGNSIZE((size_t)r*c, DTYPE);
     m->__data = calloc(m->__nbytes, sizeof(DTYPE));
     if ( !m->__data ) {
         m->__nbytes = 0;
-- 
2.43.0


From 3b44734a368a8cfb4fc7f8b41f4491f8511769e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 107/113] fix: bdbuild checks the workspace before it moves the
 embedded factor

---
 src/lapack/bibld.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lapack/bibld.c b/src/lapack/bibld.c
index 1c26164..cdc327d 100644
--- a/src/lapack/bibld.c
+++ b/src/lapack/bibld.c
@@ -135,6 +135,11 @@ int armas_bdbuild_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    // embedded factor is moved in place before it is built
+    if (!wb || armas_wbytes(wb) < ntau * sizeof(DTYPE)) {
+        conf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
+    }
 
     if (A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER))) {
         switch (flags & (ARMAS_WANTQ | ARMAS_WANTP)) {
-- 
2.43.0


From 30c8457b21d03367524c3c82171e164ee8f5f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 108/113] fix: selected eigenvalues check the result vector
 before the reduction

---
 src/lapack/evd.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 3d3eefe..711cf01 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -286,7 +286,7 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
     armas_dense_t sD, sE, tau;
     size_t wsz, wpos;
     DTYPE *buf;
-    int ioff, N, err;
+    int ioff, N, nval, err;
 
     if (!conf)
         conf = armas_conf_default();
@@ -308,6 +308,23 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         return -ARMAS_ESIZE;
     }
 
+    if (armas_size(D) > 0 && !armas_isvector(D)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    // number of requested values; not known in advance for a value range
+    nval = N;
+    if (params && params->ileft != -1 && params->iright != -1) {
+        nval = 0;
+        if (params->ileft != 0 || params->iright != 0)
+            nval = (params->iright < N ? params->iright : N)
+                - (params->ileft > 0 ? params->ileft : 0);
+    }
+    if (armas_size(D) < nval) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     if (!wb || (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From c64d276536b83120fb167a97fd2cb95a8a293d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 109/113] fix: bisection checks its operands

---
 src/lapack/trdbis.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 6229a6c..5f0080b 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -238,8 +238,17 @@ int armas_trdbisect(armas_dense_t * Y,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!D || !E || !Y) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     if (armas_size(D) == 0)
         return 0;
+    if (!armas_isvector(D) || (armas_size(E) > 0 && !armas_isvector(E))
+        || (armas_size(Y) > 0 && !armas_isvector(Y))) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     if (armas_size(E) != armas_size(D) - 1) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
-- 
2.43.0


From 85b0e8444f08af5f4e0d74709f685891f3f62506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 110/113] fix: elementary reflector generation checks its
 operands

---
 src/lapack/house.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 6464868..af30666 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -298,6 +298,14 @@ int armas_house(armas_dense_t * a11, armas_dense_t * x,
 {
     if (!cf)
         cf = armas_conf_default();
+    if (!x || armas_size(a11) == 0 || armas_size(tau) == 0) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (armas_size(x) > 0 && !armas_isvector(x)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     // scaled householder reflector (standard lapack version)
     if ((flags & ARMAS_UNIT) != 0)
         return internal_householder(a11, x, tau, flags, cf);
-- 
2.43.0


From 9cc4f7aa23eb36fa89c667641e71124b2cf324ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 111/113] fix: hyperbolic Householder functions check operands
 and workspace orientation

---
 src/lapack/hhouse.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/lapack/hhouse.c b/src/lapack/hhouse.c
index 03d4a8b..bd49098 100644
--- a/src/lapack/hhouse.c
+++ b/src/lapack/hhouse.c
@@ -124,6 +124,14 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!x || armas_size(a11) == 0 || armas_size(tau) == 0) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (armas_size(x) > 0 && !armas_isvector(x)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     safmin = SAFEMIN / EPS;
 
     normx = armas_nrm2(x, cf);
@@ -251,11 +259,30 @@ int armas_hhouse_apply(armas_dense_t * tau, armas_dense_t * v,
 
     if (!cf)
         cf = armas_conf_default();
+    if (!a1 || !A2 || !v || armas_size(tau) == 0) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (armas_size(a1) == 0)
+        return 0;
+    if (!armas_isvector(a1) || (armas_size(v) > 0 && !armas_isvector(v))) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    if (armas_size(a1) != (flags & ARMAS_LEFT ? A2->cols : A2->rows)
+        || armas_size(v) != (flags & ARMAS_LEFT ? A2->rows : A2->cols)) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     if (armas_size(w) < armas_size(a1)) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    armas_make(&w1, armas_size(a1), 1, armas_size(a1), armas_data(w));
+    if (!armas_isvector(w)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    armas_subvector(&w1, w, 0, armas_size(a1));
 
     tval = armas_get(tau, 0, 0);
     if (tval == 0.0) {
-- 
2.43.0


From 08e94e6a584bca9a6319863c0ed355a99a22b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 112/113] fix: butterfly multiplication checks its operands

---
 src/lapack/rbtgm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 8a4d707..11a6bdc 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -359,6 +359,10 @@ int armas_mult_rbt(armas_dense_t * A, armas_dense_t * R, int flags,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!A || !R) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     switch (flags & (ARMAS_LEFT | ARMAS_RIGHT)) {
     case ARMAS_RIGHT:
         ok = A->cols == R->rows;
-- 
2.43.0


From f416f86a25454c6d31bf337cd0b588a94689c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 113/113] fix: butterfly update checks its operands

---
 src/lapack/rbtgu.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index e6f6ec7..cae9dce 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -202,6 +202,10 @@ int armas_update2_rbt(armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!A || !U || !V) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     // extended size to multiple of 2^d
     twod = 1 << U->cols;
     Nd = (A->cols + twod - 1) & ~(twod - 1);
-- 
2.43.0


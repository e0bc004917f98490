From 2a5b444c254e67a8473660c9397f6091e4469c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 01/20] fix: mzd_slice_rescale_row addressed row r of a one-row
 temporary

---
 src/conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.h b/src/conversion.h
index 81068bc..bda003b 100644
--- a/src/conversion.h
+++ b/src/conversion.h
@@ -287,7 +287,7 @@ static inline void mzd_slice_rescale_row(mzd_slice_t *A, rci_t r, rci_t c, word
   mzd_slice_t *A_w = mzd_slice_init_window(A, r, 0, r+1, A->ncols);
   mzed_t *A_we = mzed_cling(NULL, A_w);
 
-  mzed_rescale_row(A_we, r, c, x);
+  mzed_rescale_row(A_we, 0, c, x);
 
   mzed_slice(A_w, A_we);
   mzed_free(A_we);
-- 
2.43.0


From cc3745620dabda4914b67edf2d1e15859d504182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 02/20] fix: _mzd_poly_adapt_depth wrote past the coefficient
 array when growing

---
 src/mzd_poly.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 4736c0d..54887d2 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -131,6 +131,11 @@ static inline mzd_poly_t *_mzd_poly_adapt_depth(mzd_poly_t *A, const deg_t new_d
       A->x[i] = NULL;
     }
   } else {
+    mzd_t **x = (mzd_t**)m4ri_mm_malloc(sizeof(mzd_t*)*new_depth);
+    for(int i=0; i<A->depth; i++)
+      x[i] = A->x[i];
+    m4ri_mm_free(A->x);
+    A->x = x;
     for(int i=A->depth; i<new_depth; i++) {
       A->x[i] = mzd_init(A->nrows,A->ncols);
     }
-- 
2.43.0


From 43d7c2d2d0fe4f785573846afac9afdf61770f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 03/20] fix: gf2e_t16_init read past the multiplication table
 for degrees that do not fill the slot

---
 src/gf2e.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gf2e.h b/src/gf2e.h
index a6a8542..65fee49 100644
--- a/src/gf2e.h
+++ b/src/gf2e.h
@@ -167,7 +167,7 @@ static inline word *gf2e_t16_init(const gf2e *ff, const word a) {
   word *mul = (word*)m4ri_mm_calloc(1<<16, sizeof(word));
 
   const deg_t w = gf2e_degree_to_w(ff);
-  const word mask_w = (1<<w)-1;
+  const word mask_w = (1<<ff->degree)-1; /* ff->_mul has only 2^degree rows */
 
   /**
    * @todo: this is a bit of overkill, we could do better
-- 
2.43.0


From 8bba8cc30b4daac753e9ff3e594db4047df85995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 04/20] fix: _mzed_mul added to the target instead of
 overwriting it for dimensions >= 512

---
 src/mzed.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mzed.c b/src/mzed.c
index 093b9ee..d9ebd07 100644
--- a/src/mzed.c
+++ b/src/mzed.c
@@ -100,8 +100,10 @@ mzed_t *mzed_addmul(mzed_t *C, const mzed_t *A, const mzed_t *B) {
 }
 
 mzed_t *_mzed_mul(mzed_t *C, const mzed_t *A, const mzed_t *B) {
-  if (A->nrows >= 512 && A->ncols >= 512 && B->ncols >= 512)
+  if (A->nrows >= 512 && A->ncols >= 512 && B->ncols >= 512) {
+    mzed_set_ui(C, 0);
     return _mzed_addmul_karatsuba(C, A, B);
+  }
 
   const rci_t cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_mul_strassen(C, A, B, cutoff);
-- 
2.43.0


From 41487151c086a21cafe822f2a1893adb155b0edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 05/20] fix: Strassen multiplication with cutoff 0 recursed
 into empty windows instead of using the heuristic

---
 src/strassen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strassen.c b/src/strassen.c
index c36520b..31815ab 100644
--- a/src/strassen.c
+++ b/src/strassen.c
@@ -32,11 +32,15 @@
 
 mzed_t *mzed_mul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, TRUE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_mul_strassen(C, A, B, cutoff);
 }
 
 mzed_t *mzed_addmul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, FALSE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_addmul_strassen(C, A, B, cutoff);
 }
 
-- 
2.43.0


From 8845ef7774b5c208379fb33da17fa722adfc29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 06/20] fix: table multiplication into a window crashed when
 the window is not aligned like the tables

---
 src/newton_john.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/newton_john.c b/src/newton_john.c
index 606a2bc..b5ede3f 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -93,7 +93,14 @@ static inline void mzed_combine8(mzed_t *C, rci_t rc,
                                  mzed_t *T4, rci_t r4, mzed_t *T5, rci_t r5, mzed_t *T6, rci_t r6, mzed_t *T7, rci_t r7) {
   const word *t[8] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3], 
                       T4->x->rows[r4], T5->x->rows[r5], T6->x->rows[r6], T7->x->rows[r7]};
-  _mzd_combine_8(C->x->rows[rc], t, C->x->width);
+  word *c = C->x->rows[rc];
+  if (__M4RI_ALIGNMENT(c,16) != __M4RI_ALIGNMENT(t[0],16)) {
+    /* _mzd_combine_8 requires equal alignment, which windows do not guarantee */
+    for (wi_t i=0; i<C->x->width; i++)
+      c[i] ^= t[0][i] ^ t[1][i] ^ t[2][i] ^ t[3][i] ^ t[4][i] ^ t[5][i] ^ t[6][i] ^ t[7][i];
+    return;
+  }
+  _mzd_combine_8(c, t, C->x->width);
 }
 
 
-- 
2.43.0


From 46e840cc726fe082452d623e1f8f73f8f55dd9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 07/20] fix: blm_free dereferenced NULL for bilinear maps
 without compiled programs

---
 src/blm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 1cff88b..3a1a006 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -614,8 +614,10 @@ void blm_free(blm_t *f) {
   mzd_free(f->H);
   if (f->f != f->g)
     djb_free(f->g);
-  djb_free(f->f);
-  djb_free(f->h);
+  if (f->f)
+    djb_free(f->f);
+  if (f->h)
+    djb_free(f->h);
 
   m4ri_mm_free(f);
 }
-- 
2.43.0


From 439a745c51359e2bfee8ff0724092bda90bb2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 08/20] fix: _crt_modred_mat wrote to negative columns for
 (x-infinity)^d with d > length and leaked its temporaries

---
 src/blm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blm.c b/src/blm.c
index 3a1a006..9010134 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -344,7 +344,7 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
 
   /* (x-infinity)^d */
   if (poly == 0) {
-    for(deg_t i=0; i<d; i++) 
+    for(deg_t i=0; i<d && i<length; i++) 
       mzd_write_bit(A, i, length-i-1, 1);
     return A;
   }
@@ -375,6 +375,8 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
     for(deg_t j=0; j<= ii; j++) 
       mzd_write_bit(A, j, i, (f->rows[0][j/m4ri_radix]>>(j%m4ri_radix)) & 0x1);
   }
+  mzd_free(f);
+  mzd_free(t);
   return A;
 }
 
-- 
2.43.0


From 9d368168044456a02aada9fad1cbd0c6258ca452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 09/20] fix: crt_init returned an empty scheme when none was
 cheaper than schoolbook multiplication

---
 src/blm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 9010134..198c388 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -104,7 +104,7 @@ void _mzd_ptr_apply_blm_djb(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
 
 int *crt_init(const deg_t f_len, const deg_t g_len) {
   int *p_best = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
-  int  c_best = f_len * g_len;
+  int  c_best = 0;
 
   int *p = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
 
@@ -140,7 +140,7 @@ int *crt_init(const deg_t f_len, const deg_t g_len) {
     for(deg_t d=1; d<M4RIE_CRT_LEN; d++)
       c += costs[d] * p[d];
 
-    if (c < c_best) {
+    if (c_best == 0 || c < c_best) {
       for(deg_t d=0; d<M4RIE_CRT_LEN; d++)
         p_best[d] = p[d];
       c_best = c;
-- 
2.43.0


From e25616b81ed19439669946541e821f044be085de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 10/20] fix: _blm_finish_polymult did not terminate or read
 past G when operand lengths differ or products are dependent

---
 src/blm.c | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/blm.c b/src/blm.c
index 198c388..126425a 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -380,9 +380,51 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
   return A;
 }
 
+/**
+ * Remove multiplications which are linear combinations of the others.
+ *
+ * There are at most F->ncols * G->ncols independent products, and a modulus of degree larger than
+ * the length of an operand contributes less than costs[d] of them.
+ */
+
+static void _blm_drop_dependent(blm_t *f) {
+  const rci_t m = f->F->nrows;
+  const rci_t n = f->F->ncols * f->G->ncols;
+
+  mzd_t *F_T = mzd_transpose(NULL, f->F);
+  mzd_t *G_T = mzd_transpose(NULL, f->G);
+  mzd_t *C = mzd_init(n, m);
+  for(rci_t i=0; i<n; i++)
+    for(wi_t j=0; j<C->width; j++)
+      C->rows[i][j] = F_T->rows[i / f->G->ncols][j] & G_T->rows[i % f->G->ncols][j];
+  mzd_free(F_T);
+  mzd_free(G_T);
+
+  mzp_t *P = mzp_init(n);
+  mzp_t *Q = mzp_init(m);
+  const rci_t rank = mzd_ple(C, P, Q, 0);
+  if (rank < m) {
+    mzd_t *F = mzd_init(rank, f->F->ncols);
+    mzd_t *G = mzd_init(rank, f->G->ncols);
+    for(rci_t i=0; i<rank; i++) {
+      mzd_copy_row(F, i, f->F, Q->values[i]);
+      mzd_copy_row(G, i, f->G, Q->values[i]);
+    }
+    mzd_free(f->F);
+    mzd_free(f->G);
+    f->F = F;
+    f->G = G;
+  }
+  mzp_free(P);
+  mzp_free(Q);
+  mzd_free(C);
+}
+
 blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   assert( (f != NULL) & (f->F != NULL) & (f->G != NULL) );
 
+  _blm_drop_dependent(f);
+
   const rci_t m = f->F->nrows;
   const rci_t c_nrows = f->F->ncols + f->G->ncols - 1;
 
@@ -418,7 +460,7 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
       v++;
       if (v == (word)f->F->ncols)
         v = 0;
-      w = v;
+      w = (f->F->ncols == f->G->ncols) ? v : 0;
     }
     r++;
     if (r == C->nrows) {
-- 
2.43.0


From 0dd6e0301bd1e5e4be46ab391423043ad49a8d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 11/20] fix: _mzd_poly_addmul_blm overwrote the target instead
 of adding, _mzd_poly_addmul_crt returned NULL for a fresh target

---
 src/mzd_poly.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 54887d2..c43e2dc 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -215,10 +215,13 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
   assert(f!=NULL);
   assert(f->F->ncols == A->depth && f->G->ncols == B->depth);
 
+  mzd_poly_t *T = mzd_poly_init(A->depth+B->depth-1, A->nrows, B->ncols);
+  _mzd_ptr_apply_blm(T->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
   if (C == NULL)
-    C = mzd_poly_init(A->depth+B->depth-1, A->nrows, B->ncols);
+    return T;
 
-  _mzd_ptr_apply_blm(C->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+  _mzd_ptr_add(C->x, (const mzd_t**)C->x, (const mzd_t**)T->x, A->depth+B->depth-1);
+  mzd_poly_free(T);
   return C;
 }
 
@@ -230,7 +233,7 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
 static inline mzd_poly_t *_mzd_poly_addmul_crt(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   int *p = crt_init(A->depth, B->depth);
   blm_t *f = blm_init_crt(NULL, A->depth, B->depth, p, 1);
-  _mzd_poly_addmul_blm(C, A, B, f);
+  C = _mzd_poly_addmul_blm(C, A, B, f);
   blm_free(f);
   m4ri_mm_free(p);
   return C;
-- 
2.43.0


From 23621e753d3ac702e643ce5b94a5d602530595e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 12/20] fix: _mzd_ptr_apply_blm added to X (matrix form) or
 left rows of X untouched (program form) instead of writing X

---
 src/blm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/blm.c b/src/blm.c
index 126425a..9f305ac 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -12,6 +12,9 @@ void _mzd_ptr_apply_blm_mzd(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
   mzd_t *t1 = mzd_init(A[0]->nrows, A[0]->ncols);
   mzd_t *t2 = mzd_init(B[0]->nrows, B[0]->ncols);
 
+  for(rci_t i=0; i < f->H->nrows; i++)
+    mzd_set_ui(X[i], 0);
+
   for(rci_t i=0; i < f->F->nrows; i++) {
     mzd_set_ui(t1, 0);
     for(rci_t j=0; j < f->F->ncols; j++) {
@@ -89,6 +92,9 @@ void _mzd_ptr_apply_blm_djb(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
 
   
 
+  /* rows of H which are zero are never written by the program */
+  for(rci_t i=0; i<f->H->nrows; i++)
+    mzd_set_ui(X[i], 0);
   djb_apply_mzd_ptr(f->h, X, (const mzd_t**)t0);
 
   for(rci_t i=0; i<f->F->nrows; i++) {
-- 
2.43.0


From c0095c7145858a010dbc66c04cbca5b96c8558ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 13/20] fix: _mzd_poly_addmul_ext1 crashed for products of
 length 1 and 2 and for C == NULL

---
 src/mzd_poly.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 0cd0815..4781a79 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -11,6 +11,10 @@ static inline mzd_slice_t * mzd_slice_addmul_mzd(mzd_slice_t *C, const word a, c
 
 mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   const int d = A->depth + B->depth-1;
+  if (C == NULL)
+    C = mzd_poly_init(d, A->nrows, B->ncols);
+  if (d < 3) /* there is no extension to evaluate in */
+    return _mzd_poly_addmul_naive(C, A, B);
   const int log2d = (int)ceil(log2( (double)d ));
   assert(log2d <= 16);
 
-- 
2.43.0


From 8e1ad81896be06125a2766113fd668b604325b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 14/20] fix: _mzd_poly_addmul_ext1 used the result of calloc
 unchecked

---
 src/mzd_poly.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 4781a79..3405c29 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -22,7 +22,7 @@ mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
 
   mzd_slice_t  *a = mzd_slice_init(ff, A->nrows, A->ncols);
   mzd_slice_t  *b = mzd_slice_init(ff, B->nrows, B->ncols);
-  mzd_slice_t **c = (mzd_slice_t**)calloc(sizeof(mzd_slice_t*),d);
+  mzd_slice_t **c = (mzd_slice_t**)m4ri_mm_calloc(d, sizeof(mzd_slice_t*));
 
   mzed_t *Phi = mzed_init(ff, d, d);
   mzed_t *Rho = mzed_init(ff, d, d);
@@ -74,7 +74,7 @@ mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   for(int i=0; i<d; i++) {
     mzd_slice_free(c[i]);
   }
-  free(c);
+  m4ri_mm_free(c);
 
   mzed_free(Phi);
   mzed_free(Rho);
-- 
2.43.0


From 8ddd2600a45d1aaa1c0dd49700ca55d78d416d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 15/20] fix: mzed_process_rows2..6 crashed on windows which are
 not aligned like the tables

---
 src/newton_john.h | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/newton_john.h b/src/newton_john.h
index b1e41e3..2d0dc37 100644
--- a/src/newton_john.h
+++ b/src/newton_john.h
@@ -228,6 +228,31 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
   mzd_process_rows(M->x, startrow, endrow, startcol*M->w, M->w, T->T->x, T->L);
 }
 
+/**
+ * \brief Row updates with several tables when rows of M and of the tables are aligned differently.
+ *
+ * mzd_process_rows2() to mzd_process_rows6() require equal alignment, which windows do not guarantee.
+ */
+
+static inline int _mzed_process_rows_unaligned(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
+                                               const njt_mzed_t **T, const int n) {
+  if (startrow >= endrow || __M4RI_ALIGNMENT(M->x->rows[startrow], 16) == __M4RI_ALIGNMENT(T[0]->T->x->rows[0], 16))
+    return 0;
+
+  const wi_t block = (startcol*M->w)/m4ri_radix;
+  for (rci_t r=startrow; r<endrow; r++) {
+    rci_t x[6];
+    for (int i=0; i<n; i++)
+      x[i] = T[i]->L[mzed_read_elem(M, r, startcol+i)];
+    for (int i=0; i<n; i++) {
+      const word *t = T[i]->T->x->rows[x[i]];
+      for (wi_t j=block; j<M->x->width; j++)
+        M->x->rows[r][j] ^= t[j];
+    }
+  }
+  return 1;
+}
+
 /**
  * \brief Same as mzed_process_rows but works with two Newton-John tables
  * in parallel.
@@ -244,6 +269,9 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
 
 static inline void mzed_process_rows2(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol, 
                                       const njt_mzed_t *T0, const njt_mzed_t *T1) {
+  const njt_mzed_t *T[] = {T0, T1};
+  if (_mzed_process_rows_unaligned(M, startrow, endrow, startcol, T, 2))
+    return;
   mzd_process_rows2(M->x, startrow, endrow, startcol*M->w, 2*M->w, T0->T->x, T0->L, T1->T->x, T1->L);
 }
 
@@ -264,6 +292,9 @@ static inline void mzed_process_rows2(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows3(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2) {
+  const njt_mzed_t *T[] = {T0, T1, T2};
+  if (_mzed_process_rows_unaligned(M, startrow, endrow, startcol, T, 3))
+    return;
   mzd_process_rows3(M->x, startrow, endrow, startcol*M->w, 3*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L);
 }
 
@@ -285,6 +316,9 @@ static inline void mzed_process_rows3(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3) {
+  const njt_mzed_t *T[] = {T0, T1, T2, T3};
+  if (_mzed_process_rows_unaligned(M, startrow, endrow, startcol, T, 4))
+    return;
   mzd_process_rows4(M->x, startrow, endrow, startcol*M->w, 4*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L);
 }
 
@@ -307,6 +341,9 @@ static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3, const njt_mzed_t *T4) {
+  const njt_mzed_t *T[] = {T0, T1, T2, T3, T4};
+  if (_mzed_process_rows_unaligned(M, startrow, endrow, startcol, T, 5))
+    return;
   mzd_process_rows5(M->x, startrow, endrow, startcol*M->w, 5*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L);
 }
 
@@ -332,6 +369,9 @@ static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci
 static inline void mzed_process_rows6(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2,
                                       const njt_mzed_t *T3, const njt_mzed_t *T4, const njt_mzed_t *T5) {
+  const njt_mzed_t *T[] = {T0, T1, T2, T3, T4, T5};
+  if (_mzed_process_rows_unaligned(M, startrow, endrow, startcol, T, 6))
+    return;
   mzd_process_rows6(M->x, startrow, endrow, startcol*M->w, 6*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L, T5->T->x, T5->L);
 }
 
-- 
2.43.0


From 1cf229455b33b764332941b9f3c224755450d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 16/20] fix: mzd_slice_apply_p_right/_trans destroyed columns
 for permutations shorter than the number of columns

---
 src/permutation.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/permutation.h b/src/permutation.h
index f42b3c3..6fc3c72 100644
--- a/src/permutation.h
+++ b/src/permutation.h
@@ -133,6 +133,11 @@ static inline void mzd_slice_apply_p_left_trans(mzd_slice_t *A, mzp_t const *P)
  */
 
 static inline void mzd_slice_apply_p_right(mzd_slice_t *A, mzp_t const *P) {
+  if (P->length < A->ncols) { /* mzd_apply_p_right() expects one entry per column */
+    for(rci_t i=P->length-1; i>=0; i--)
+      mzd_slice_col_swap(A, i, P->values[i]);
+    return;
+  }
   for(int i=0; i<A->depth; i++) {
     mzd_apply_p_right(A->x[i], P);
   }
@@ -148,6 +153,11 @@ static inline void mzd_slice_apply_p_right(mzd_slice_t *A, mzp_t const *P) {
  */
 
 static inline void mzd_slice_apply_p_right_trans(mzd_slice_t *A, mzp_t const *P) {
+  if (P->length < A->ncols) { /* mzd_apply_p_right_trans() expects one entry per column */
+    for(rci_t i=0; i<P->length; i++)
+      mzd_slice_col_swap(A, i, P->values[i]);
+    return;
+  }
   for(int i=0; i<A->depth; i++) {
     mzd_apply_p_right_trans(A->x[i], P);
   }
-- 
2.43.0


From 4056727fe14f4e4560f5f8164c95196048a46254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 17/20] fix: mzed_process_rows5 and mzed_process_rows6 read
 past one word of entries for degrees above 8

---
 src/newton_john.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/newton_john.h b/src/newton_john.h
index 2d0dc37..14d2550 100644
--- a/src/newton_john.h
+++ b/src/newton_john.h
@@ -229,14 +229,17 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
 }
 
 /**
- * \brief Row updates with several tables when rows of M and of the tables are aligned differently.
+ * \brief Row updates with several tables when mzd_process_rows2() to mzd_process_rows6() cannot be used.
  *
- * mzd_process_rows2() to mzd_process_rows6() require equal alignment, which windows do not guarantee.
+ * These require equal alignment of the rows of M and of the tables, which windows do not guarantee,
+ * and read the entries for all tables as one word, which five or six entries of 16 bits exceed.
  */
 
 static inline int _mzed_process_rows_unaligned(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                                const njt_mzed_t **T, const int n) {
-  if (startrow >= endrow || __M4RI_ALIGNMENT(M->x->rows[startrow], 16) == __M4RI_ALIGNMENT(T[0]->T->x->rows[0], 16))
+  if (startrow >= endrow ||
+      ((int)(n*M->w) <= m4ri_radix &&
+       __M4RI_ALIGNMENT(M->x->rows[startrow], 16) == __M4RI_ALIGNMENT(T[0]->T->x->rows[0], 16)))
     return 0;
 
   const wi_t block = (startcol*M->w)/m4ri_radix;
-- 
2.43.0


From 31690654a0e3fbb33646c7a2c17aec07af36fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 18/20] fix: mzed_mul_scalar did not check the target for large
 matrices

---
 src/mzed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mzed.c b/src/mzed.c
index d9ebd07..77b6532 100644
--- a/src/mzed.c
+++ b/src/mzed.c
@@ -146,6 +146,8 @@ mzed_t *mzed_mul_scalar(mzed_t *C, const word a, const mzed_t *B) {
    */
   if(C == NULL)
     C = mzed_init(B->finite_field, B->nrows, B->ncols);
+  else if (C->finite_field != B->finite_field || C->nrows != B->nrows || C->ncols != B->ncols)
+    m4ri_die("mzed_mul_scalar: rows, columns and fields must match.\n");
 
   const gf2e *ff = B->finite_field;
 
-- 
2.43.0


From cd0684fe644cd6e815df0a8ab5b8e0e3c889a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 19/20] fix: _blm_finish_polymult leaked a matrix per bilinear
 map

---
 src/blm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blm.c b/src/blm.c
index 9f305ac..3fefa42 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -518,6 +518,7 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   }
   mzd_free(a);
   mzd_free(b);
+  mzd_free(DT);
   mzd_free(pivots);
 
   if (ff == NULL) {
-- 
2.43.0


From 9e0c66c2026b9b139b028cc8d2876031d49a96c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 20/20] fix: compute the sizes of large matrices without int
 overflow

nrows*ncols*w in mzed_echelonize, nrows*ncols in mzed_mul_scalar and
6*2^k*ncols in mzed_echelonize_newton_john overflowed an int (undefined
behaviour) for matrices of 2^31 bits, 2^31 elements and 2.8 million
columns or more.
---
 src/echelonform.c | 2 +-
 src/mzed.c        | 2 +-
 src/newton_john.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/echelonform.c b/src/echelonform.c
index e941dc8..3315eb2 100644
--- a/src/echelonform.c
+++ b/src/echelonform.c
@@ -26,7 +26,7 @@
 rci_t mzed_echelonize(mzed_t *A, int full) {
   if (A->finite_field->degree > A->nrows) {
     return mzed_echelonize_naive(A, full);
-  } else if ((A->nrows * A->ncols * A->w <= 2*__M4RIE_PLE_CUTOFF)) {
+  } else if (((int64_t)A->nrows * A->ncols * A->w <= 2*__M4RIE_PLE_CUTOFF)) {
     return mzed_echelonize_newton_john(A, full);
   } else {
     return mzed_echelonize_ple(A, full);
diff --git a/src/mzed.c b/src/mzed.c
index 77b6532..360cc4c 100644
--- a/src/mzed.c
+++ b/src/mzed.c
@@ -155,7 +155,7 @@ mzed_t *mzed_mul_scalar(mzed_t *C, const word a, const mzed_t *B) {
    * 0) If a direct approach would need less lookups we use that.
    */
 
-  if(ff->degree > 8 || B->nrows*B->ncols < 1<<17) {
+  if(ff->degree > 8 || (int64_t)B->nrows*B->ncols < 1<<17) {
     mzed_copy(C, B);
     for(rci_t i=0; i<B->nrows; i++)
       mzed_rescale_row(C, i, 0, a);
diff --git a/src/newton_john.c b/src/newton_john.c
index b5ede3f..30159a2 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -250,7 +250,7 @@ rci_t mzed_echelonize_newton_john(mzed_t *A, int full) {
   rci_t kk = (rci_t)m4ri_opt_k(A->x->nrows, A->x->ncols, 0);
   if (kk>=7)
     kk = 7;
-  if ( (6*(1<<kk)*A->ncols / 8.0) > __M4RI_CPU_L2_CACHE / 2.0 )
+  if ( (6.0*(1<<kk)*A->ncols / 8.0) > __M4RI_CPU_L2_CACHE / 2.0 )
     kk -= 1;
   kk = (6*kk)/k;
 
-- 
2.43.0


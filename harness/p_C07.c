/* C07: structural operations. */
#include "mc.h"
#include <m4rie/mzd_poly.h>

static void wr(const Fld *F, mzed_t *m, int i, int j, E x) { /* raw write, no library accessor */
  (void)F; int b = j * F->w; word *p = &m->x->rows[i][b / 64]; word mask = ((1ull << F->w) - 1) << (b % 64);
  *p = (*p & ~mask) | (word)x << (b % 64);
}
static Mat *concat(const Mat *A, const Mat *B) {
  Mat *C = mat_new(A->r, A->c + B->c);
  for (int i = 0; i < A->r; i++) { for (int j = 0; j < A->c; j++) AT(C, i, j) = AT(A, i, j); for (int j = 0; j < B->c; j++) AT(C, i, A->c + j) = AT(B, i, j); }
  return C;
}
static Mat *stack(const Mat *A, const Mat *B) {
  Mat *C = mat_new(A->r + B->r, A->c);
  memcpy(C->v, A->v, sizeof(E) * A->r * A->c); memcpy(C->v + (size_t)A->r * A->c, B->v, sizeof(E) * B->r * B->c);
  return C;
}
/* target kinds: 0 = NULL, 1.. = dirty matrix in placement t-1 */
#define PTGT(F, T, r, c) PM *T = tk ? pm_new(F, mat_pat(F, r, c, 2), tk - 1) : NULL
#define STGT(F, T, r, c) SM *T = tk ? sm_new(F, mat_pat(F, r, c, 2), tk - 1) : NULL

/* m4ri's own mzd_stack / mzd_concat / mzd_submatrix copy whole last words when a
 * window is involved (known_findings.txt): elements must still be exact and
 * nothing but the rest of that last word may be touched. */
static void pchk(int win, PM *t, const Mat *X, const char *what, const char *key) { uint64_t h = mc_loose_hits; mc_loose = win; pm_check(t, X, what); mc_loose = 0; if (mc_loose_hits != h) mc_note(key, 1); }
static void schk(int win, SM *t, const Mat *X, const char *what, const char *key) { uint64_t h = mc_loose_hits; mc_loose = win; sm_check(t, X, what); mc_loose = 0; if (mc_loose_hits != h) mc_note(key, 1); }
/* m4ri's mzd_first_zero_row forgets to mask the only word of a one-word window */
static void fzr(PM *p, int want) {
  int f = mzed_first_zero_row(p->m); if (f == want) return;
  if (p->m != p->par && p->c < p->F->epw) {
    int i = p->r; while (i > 0 && !p->par->x->rows[p->ro + i - 1][p->co / p->F->epw]) i--;
    if (f == i) { mc_note("known:m4ri-first-zero-row-window", 1); return; }
  }
  mc_fail("mzed_first_zero_row returned %d, must be %d", f, want);
}
static void packed(const Fld *F, int r, int c, int place) {
  Mat *A = mat_pat(F, r, c, 4), *B = mat_pat(F, r, c, 7), *Z = mat_pat(F, r, c, 0);
  PM *a = pm_new(F, A, place);
  for (int tk = 0; tk <= NPLACE; tk++) {
    mc_sub("target kind %d", tk);
    { PTGT(F, t, r, c); mzed_t *x = mzed_copy(t ? t->m : NULL, a->m); CHECK(!t || x == t->m, "mzed_copy returned another object");
      if (!t) t = pm_wrap(F, x, r, c); pm_check(t, A, "mzed_copy"); pm_free(t); mc_trans(1); }
    for (int c2 = 1; c2 <= F->epw + 1; c2 += F->epw > 8 ? F->epw / 4 : 1) {
      Mat *D = mat_pat(F, r, c2, 10), *X = concat(A, D); PM *d = pm_new(F, D, (place + c2) % NPLACE);
      PTGT(F, t, r, c + c2); mzed_t *x = mzed_concat(t ? t->m : NULL, a->m, d->m); CHECK(!t || x == t->m, "mzed_concat returned another object");
      if (!t) t = pm_wrap(F, x, r, c + c2); pchk(tk > 1 || place, t, X, "mzed_concat", "known:m4ri-concat-lastword"); pm_check(d, D, "mzed_concat operand B"); pm_free(t); pm_free(d); mc_trans(1);
    }
    for (int r2 = 1; r2 <= 3; r2++) {
      Mat *D = mat_pat(F, r2, c, 10), *X = stack(A, D); PM *d = pm_new(F, D, (place + r2) % NPLACE);
      PTGT(F, t, r + r2, c); mzed_t *x = mzed_stack(t ? t->m : NULL, a->m, d->m); CHECK(!t || x == t->m, "mzed_stack returned another object");
      if (!t) t = pm_wrap(F, x, r + r2, c); pchk(tk > 1 || place || (place + r2) % NPLACE, t, X, "mzed_stack", "known:m4ri-stack-lastword"); pm_check(d, D, "mzed_stack operand B"); pm_free(t); pm_free(d); mc_trans(1);
    }
    pm_check(a, A, "source operand");
  }
  /* every sub-rectangle */
  int cs = c > 40 ? c / 20 : 1;
  for (int lr = 0; lr < r; lr++) for (int hr = lr + 1; hr <= r; hr++) for (int lc = 0; lc < c; lc += (lc > 2 && lc + 3 < c && (lc % F->epw) > 1 && (lc % F->epw) < F->epw - 2 ? cs : 1)) for (int hc = lc + 1; hc <= c; hc += (hc > lc + 2 && hc + 2 < c && hc % F->epw > 1 && hc % F->epw < F->epw - 2 ? cs : 1)) {
    int tk = (lr + hr + lc + hc) % (NPLACE + 1); Mat *X = mat_sub(A, lr, lc, hr, hc);
    mc_sub("rows %d..%d columns %d..%d target kind %d", lr, hr, lc, hc, tk);
    PTGT(F, t, hr - lr, hc - lc);
    mzed_t *x = mzed_submatrix(t ? t->m : NULL, a->m, lr, lc, hr, hc); CHECK(!t || x == t->m, "mzed_submatrix returned another object");
    if (!t) t = pm_wrap(F, x, hr - lr, hc - lc); pchk(tk > 1, t, X, "mzed_submatrix", "known:m4ri-submatrix-lastword"); pm_free(t); mc_trans(1);
  }
  pm_check(a, A, "source of mzed_submatrix");
  /* windows: reads and writes go through */
  for (int lr = 0; lr < r; lr++) for (int lc = 0; lc < c; lc += F->epw) for (int hr = lr + 1; hr <= r; hr += 1 + (hr > lr + 1)) for (int hc = lc + 1; hc <= c; hc += c > 20 && hc > lc + 1 && hc < c - 2 ? 5 : 1) {
    mc_sub("window rows %d..%d columns %d..%d", lr, hr, lc, hc);
    mzed_t *w = mzed_init_window(a->m, lr, lc, hr, hc);
    CHECK(w->nrows == hr - lr && w->ncols == hc - lc && w->finite_field == F->ff && w->w == F->w, "window header");
    for (int i = 0; i < hr - lr; i++) for (int j = 0; j < hc - lc; j += (hc - lc > 9 ? 3 : 1)) CHECK(mzed_read_elem(w, i, j) == AT(A, lr + i, lc + j), "window element (%d,%d)", i, j);
    int i = hr - lr - 1, j = hc - lc - 1; E v = mc_hash(lr, lc, hr, hc) & (F->q - 1);
    mzed_write_elem(w, i, j, v); AT(A, lr + i, lc + j) = v; pm_check(a, A, "parent after a write through a window"); mc_trans(1);
    if ((lr + hr + hc) % 7 == 0) {
      mzed_set_ui(w, v);
      for (int y = 0; y < hr - lr; y++) for (int z = 0; z < hc - lc; z++) AT(A, lr + y, lc + z) = y == z ? v : 0;
      pm_check(a, A, "parent after mzed_set_ui on a window");
      for (int y = 0; y < hr - lr; y++) for (int z = 0; z < hc - lc; z++) { E u = mc_hash(y, z, hr, lc) & (F->q - 1); wr(F, w, y, z, u); AT(A, lr + y, lc + z) = u; }
      pm_check(a, A, "parent"); mc_trans(1);
    }
    mzed_free_window(w);
  }
  E v[64]; int nv = fld_vals(F, v);
  for (int i = 0; i < nv; i++) { mc_sub("set to %x", v[i]); mzed_set_ui(a->m, v[i]); Mat *X = mat_new(r, c); for (int j = 0; j < r && j < c; j++) AT(X, j, j) = v[i]; pm_check(a, X, "mzed_set_ui"); mc_trans(1);
    CHECK(!!mzed_is_zero(a->m) == (v[i] == 0), "mzed_is_zero after mzed_set_ui(0x%x)", v[i]); }
  pm_free(a);
  /* zero test, equality and first zero row, with a single non-zero bit everywhere */
  PM *z = pm_new(F, Z, place), *y = pm_new(F, Z, (place + 1) % NPLACE);
  CHECK(mzed_is_zero(z->m), "zero matrix is not zero"); CHECK(mzed_cmp(z->m, y->m) == 0, "equal zero matrices differ"); fzr(z, 0);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int b = 0; b < F->k; b += (F->k > 8 && j > 2 && j < c - 2) ? 5 : 1) {
    mc_sub("single bit %d at (%d,%d)", b, i, j); wr(F, z->m, i, j, 1u << b);
    CHECK(!mzed_is_zero(z->m), "non-zero matrix reported zero");
    CHECK(mzed_cmp(z->m, y->m) != 0 && mzed_cmp(y->m, z->m) != 0, "different matrices reported equal");
    fzr(z, i + 1);
    wr(F, y->m, i, j, 1u << b); CHECK(mzed_cmp(z->m, y->m) == 0, "equal matrices reported different");
    wr(F, y->m, i, j, 0); wr(F, z->m, i, j, 0); mc_trans(4);
  }
  pm_check(z, Z, "after comparisons"); pm_check(y, Z, "after comparisons"); pm_free(z); pm_free(y);
  PM *p = pm_new(F, B, place), *q = pm_new(F, B, (place + 2) % NPLACE);
  int s1[2] = {0, 0};
  CHECK(mzed_cmp(p->m, q->m) == 0, "equal matrices reported different");
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j += 1 + (c > 30)) {
    wr(F, q->m, i, j, AT(B, i, j) ^ 1); int x = mzed_cmp(p->m, q->m), yv = mzed_cmp(q->m, p->m);
    CHECK(x != 0 && yv != 0 && (x > 0) == (yv < 0), "mzed_cmp is not antisymmetric at (%d,%d): %d %d", i, j, x, yv); s1[x > 0]++;
    wr(F, q->m, i, j, AT(B, i, j)); mc_trans(2);
  }
  pm_free(p); pm_free(q);
}
static void swr(mzd_slice_t *m, int k, int i, int j, E x) { for (int e = 0; e < k; e++) { word *p = &m->x[e]->rows[i][j / 64]; *p = (*p & ~(1ull << (j % 64))) | (word)(x >> e & 1) << (j % 64); } }
static void sliced(const Fld *F, int r, int c, int place) {
  Mat *A = mat_pat(F, r, c, 4), *Z = mat_pat(F, r, c, 0); SM *a = sm_new(F, A, place);
  for (int tk = 0; tk <= NPLACE; tk++) {
    mc_sub("target kind %d", tk);
    { STGT(F, t, r, c); mzd_slice_t *x = mzd_slice_copy(t ? t->m : NULL, a->m); CHECK(!t || x == t->m, "mzd_slice_copy returned another object");
      if (!t) t = sm_wrap(F, x, r, c); sm_check(t, A, "mzd_slice_copy"); sm_free(t); mc_trans(1); }
    int cc[] = {1, 2, 31, 63, 64, 65};
    for (int q = 0; q < 6; q++) { int c2 = cc[q]; Mat *D = mat_pat(F, r, c2, 10), *X = concat(A, D); SM *d = sm_new(F, D, (place + q) % NPLACE);
      STGT(F, t, r, c + c2); mzd_slice_t *x = mzd_slice_concat(t ? t->m : NULL, a->m, d->m); CHECK(!t || x == t->m, "mzd_slice_concat returned another object");
      if (!t) t = sm_wrap(F, x, r, c + c2); schk(tk > 1 || place, t, X, "mzd_slice_concat", "known:m4ri-concat-lastword"); sm_check(d, D, "mzd_slice_concat operand B"); sm_free(t); sm_free(d); mc_trans(1); }
    for (int r2 = 1; r2 <= 3; r2++) { Mat *D = mat_pat(F, r2, c, 10), *X = stack(A, D); SM *d = sm_new(F, D, (place + r2) % NPLACE);
      STGT(F, t, r + r2, c); mzd_slice_t *x = mzd_slice_stack(t ? t->m : NULL, a->m, d->m); CHECK(!t || x == t->m, "mzd_slice_stack returned another object");
      if (!t) t = sm_wrap(F, x, r + r2, c); schk(tk > 1 || place || (place + r2) % NPLACE, t, X, "mzd_slice_stack", "known:m4ri-stack-lastword"); sm_check(d, D, "mzd_slice_stack operand B"); sm_free(t); sm_free(d); mc_trans(1); }
    sm_check(a, A, "source operand");
  }
  int step = c > 20 ? 9 : 1;
  for (int lr = 0; lr < r; lr++) for (int hr = lr + 1; hr <= r; hr++) for (int lc = 0; lc < c; lc += (lc > 2 && lc % 64 > 1 && lc % 64 < 54) ? step : 1) for (int hc = lc + 1; hc <= c; hc += (hc > lc + 1 && hc % 64 > 1 && hc % 64 < 54 && hc < c - 10) ? step : 1) {
    if (c > 20 && (lr + hr + lc + hc) % 3) continue;
    int tk = (lr + hr * 2 + lc + hc) % (NPLACE + 1); Mat *X = mat_sub(A, lr, lc, hr, hc);
    mc_sub("rows %d..%d columns %d..%d target kind %d", lr, hr, lc, hc, tk);
    STGT(F, t, hr - lr, hc - lc); mzd_slice_t *x = mzd_slice_submatrix(t ? t->m : NULL, a->m, lr, lc, hr, hc); CHECK(!t || x == t->m, "mzd_slice_submatrix returned another object");
    if (!t) t = sm_wrap(F, x, hr - lr, hc - lc); schk(tk > 1, t, X, "mzd_slice_submatrix", "known:m4ri-submatrix-lastword"); sm_free(t); mc_trans(1);
  }
  sm_check(a, A, "source of mzd_slice_submatrix");
  for (int lr = 0; lr < r; lr++) for (int lc = 0; lc < c; lc += 64) for (int hr = lr + 1; hr <= r; hr++) for (int hc = lc + 1; hc <= c; hc += c > 20 && hc < c - 2 ? 11 : 1) {
    mc_sub("window rows %d..%d columns %d..%d", lr, hr, lc, hc);
    mzd_slice_t *w = mzd_slice_init_window(a->m, lr, lc, hr, hc);
    CHECK(w->nrows == hr - lr && w->ncols == hc - lc && w->finite_field == F->ff && (int)w->depth == F->k, "window header");
    for (int i = 0; i < hr - lr; i++) for (int j = 0; j < hc - lc; j += (hc - lc > 9 ? 5 : 1)) CHECK(mzd_slice_read_elem(w, i, j) == AT(A, lr + i, lc + j), "window element (%d,%d)", i, j);
    int i = hr - lr - 1, j = hc - lc - 1; E v = mc_hash(lr, lc, hr, hc) & (F->q - 1);
    mzd_slice_write_elem(w, i, j, v); AT(A, lr + i, lc + j) = v; sm_check(a, A, "parent after a write through a window"); mc_trans(1);
    if ((lr + hr + hc) % 5 == 0) {
      mzd_slice_set_ui(w, v); for (int y = 0; y < hr - lr; y++) for (int z = 0; z < hc - lc; z++) AT(A, lr + y, lc + z) = y == z ? v : 0;
      sm_check(a, A, "parent after mzd_slice_set_ui on a window");
      for (int y = 0; y < hr - lr; y++) for (int z = 0; z < hc - lc; z++) { E u = mc_hash(y, z, hr, lc) & (F->q - 1); swr(w, F->k, y, z, u); AT(A, lr + y, lc + z) = u; }
      sm_check(a, A, "parent"); mc_trans(1);
    }
    mzd_slice_free_window(w);
  }
  E v[64]; int nv = fld_vals(F, v);
  for (int i = 0; i < nv; i++) { mc_sub("set to %x", v[i]); mzd_slice_set_ui(a->m, v[i]); Mat *X = mat_new(r, c); for (int j = 0; j < r && j < c; j++) AT(X, j, j) = v[i]; sm_check(a, X, "mzd_slice_set_ui"); mc_trans(1);
    CHECK(!!mzd_slice_is_zero(a->m) == (v[i] == 0), "mzd_slice_is_zero after mzd_slice_set_ui(0x%x)", v[i]); }
  sm_free(a);
  SM *z = sm_new(F, Z, place), *y = sm_new(F, Z, (place + 1) % NPLACE);
  CHECK(mzd_slice_is_zero(z->m), "zero matrix is not zero"); CHECK(mzd_slice_cmp(z->m, y->m) == 0, "equal zero matrices differ");
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j += (c > 20 && j % 64 > 1 && j % 64 < 60 && j < c - 4) ? 4 : 1) for (int b = 0; b < F->k; b++) {
    mc_sub("single bit %d at (%d,%d)", b, i, j); swr(z->m, F->k, i, j, 1u << b);
    CHECK(!mzd_slice_is_zero(z->m), "non-zero sliced matrix reported zero"); CHECK(mzd_slice_cmp(z->m, y->m) != 0 && mzd_slice_cmp(y->m, z->m) != 0, "different sliced matrices reported equal");
    swr(y->m, F->k, i, j, 1u << b); CHECK(mzd_slice_cmp(z->m, y->m) == 0, "equal sliced matrices reported different");
    swr(y->m, F->k, i, j, 0); swr(z->m, F->k, i, j, 0); mc_trans(3);
  }
  sm_check(z, Z, "after comparisons"); sm_check(y, Z, "after comparisons"); sm_free(z); sm_free(y);
  /* two coefficients differing at once must not cancel */
  Mat *B = mat_pat(F, r, c, 7); SM *p = sm_new(F, B, place), *q = sm_new(F, B, (place + 2) % NPLACE); CHECK(mzd_slice_cmp(p->m, q->m) == 0, "equal sliced matrices reported different");
  for (int i = 0; i < r; i++) for (int b = 1; b < F->q; b = b * 2 + (i & 1)) { int j = (i * 5 + b) % c; swr(q->m, F->k, i, j, AT(B, i, j) ^ b); CHECK(mzd_slice_cmp(p->m, q->m) != 0, "different sliced matrices reported equal (%d,%d) xor %x", i, j, b); swr(q->m, F->k, i, j, AT(B, i, j)); mc_trans(1); }
  sm_free(p); sm_free(q);
}

/* structured contents, targets holding one coefficient only, operands used twice, nested windows, many rows and words */
static void plarge(const Fld *F, int r, int c, int place, int pat) {
  Mat *A = mat_pat(F, r, c, pat), *D = mat_pat(F, r, 1 + c / 2, NPAT + (pat + 5) % (NSTRUCT - NPAT)), *S = mat_pat(F, 1 + r / 2, c, NPAT + (pat + 7) % (NSTRUCT - NPAT)); PM *a = pm_new(F, A, place), *d = pm_new(F, D, (place + 1) % NPLACE), *s = pm_new(F, S, (place + 2) % NPLACE), *t;
  int ri[24], ci[24], nr = edges(r, 64, ri), nc = edges(c, F->epw, ci);
  for (int q = 0; q < 4; q++) { long n = (long)r * c * F->k; int bit = P_BIT + (int)(q == 0 ? 0 : q == 1 ? n - 1 : (n / 3 * q + place) % n); mc_sub("pattern %d, target bit %d", pat, bit); int pl = (place + q) % NPLACE;
    t = pm_new(F, mat_pat(F, r, c, bit), pl); CHECK(mzed_copy(t->m, a->m) == t->m, "copy returned another object"); pm_check(t, A, "copy"); CHECK(mzed_copy(t->m, t->m) == t->m, "copy of itself"); pm_check(t, A, "copy onto itself"); pm_free(t);
    Mat *X = concat(A, D); t = pm_new(F, mat_pat(F, X->r, X->c, bit), pl); mzed_concat(t->m, a->m, d->m); pchk(pl || place, t, X, "concat", "known:m4ri-concat-lastword"); pm_free(t);
    X = concat(A, A); t = pm_new(F, mat_pat(F, X->r, X->c, bit), pl); mzed_concat(t->m, a->m, a->m); pchk(pl || place, t, X, "concat with itself", "known:m4ri-concat-lastword"); pm_free(t);
    X = stack(A, S); t = pm_new(F, mat_pat(F, X->r, X->c, bit), pl); mzed_stack(t->m, a->m, s->m); pchk(pl || place || (place + 2) % NPLACE, t, X, "stack", "known:m4ri-stack-lastword"); pm_free(t);
    X = stack(A, A); t = pm_new(F, mat_pat(F, X->r, X->c, bit), pl); mzed_stack(t->m, a->m, a->m); pchk(pl || place, t, X, "stack with itself", "known:m4ri-stack-lastword"); pm_free(t);
    mc_trans(6); }
  for (int x = 0; x < nr; x += 1 + nr / 5) for (int y = 0; y < nc; y++) for (int w = 0; w < nc; w += 1 + (y & 1)) { int lr = ri[x], hr = 1 + ri[(x * 3 + y + w) % nr], lc = ci[y], hc = ci[w] + 1; if (hr <= lr) hr = r; if (hc <= lc) continue; int tk0 = (x + y + w) % (NPLACE + 1); for (int tk = 0; tk <= tk0; tk += tk0 ? tk0 : 1) { mc_sub("rows %d..%d columns %d..%d target %d", lr, hr, lc, hc, tk);
    Mat *X = mat_sub(A, lr, lc, hr, hc); t = tk ? pm_new(F, mat_pat(F, X->r, X->c, P_BIT + (y * 31 + w) % (X->c * F->k)), tk - 1) : NULL; mzed_t *z = mzed_submatrix(t ? t->m : NULL, a->m, lr, lc, hr, hc); if (!t) t = pm_wrap(F, z, X->r, X->c); pchk(tk > 1, t, X, "submatrix", "known:m4ri-submatrix-lastword"); pm_free(t); mc_trans(1); } }
  for (int x = 0; x < nr; x += 1 + nr / 5) for (int y = 0; y < nc; y++) for (int w = 0; w < nc; w += 1 + (y & 1)) { int lr = ri[x], hr = 1 + ri[(x * 3 + y + w) % nr], lc = ci[y], hc = ci[w] + 1; if (hr <= lr) hr = r; if (hc <= lc) continue; mc_sub("window rows %d..%d columns %d..%d", lr, hr, lc, hc); mzed_t *z;
    if (lc % F->epw == 0) { z = mzed_init_window(a->m, lr, lc, hr, hc); int l2 = (hc - lc) / F->epw / 2 * F->epw, r2 = (hr - lr) / 2; mzed_t *v = mzed_init_window(z, r2, l2, hr - lr, hc - lc); CHECK(v->nrows == hr - lr - r2 && v->ncols == hc - lc - l2, "nested window is %dx%d", (int)v->nrows, (int)v->ncols);
      for (int i = 0; i < v->nrows; i += 1 + v->nrows / 3) for (int j = 0; j < v->ncols; j += 1 + v->ncols / 5) { CHECK(mzed_read_elem(v, i, j) == AT(A, lr + r2 + i, lc + l2 + j), "element (%d,%d) of a nested window", i, j); E e = mc_hash(i, j, y, w) & (F->q - 1); mzed_write_elem(v, i, j, e); AT(A, lr + r2 + i, lc + l2 + j) = e; }
      pm_check(a, A, "writes through a nested window"); t = pm_wrap(F, mzed_copy(NULL, v), v->nrows, v->ncols); pm_check(t, mat_sub(A, lr + r2, lc + l2, hr, hc), "copy of a nested window"); pm_free(t); mzed_free_window(v); mzed_free_window(z); mc_trans(4); } }
  pm_check(a, A, "operand"); pm_check(d, D, "operand"); pm_check(s, S, "operand"); pm_free(d); pm_free(s);
  /* one coefficient decides: zero test, comparison, first zero row */
  Mat *Z = mat_new(r, c); PM *z = pm_new(F, Z, (place + 3) % NPLACE); t = pm_new(F, A, (place + 1) % NPLACE);
  for (int x = 0; x < nr; x++) for (int y = 0; y < nc; y++) for (int b = 0; b < F->k; b += 1 + F->k / 3) { int i = ri[x], j = ci[y]; mc_sub("coefficient %d of (%d,%d)", b, i, j); wr(F, z->m, i, j, 1u << b); CHECK(!mzed_is_zero(z->m), "non-zero matrix reported zero"); fzr(z, i + 1);
    wr(F, z->m, i, j, 0); CHECK(mzed_is_zero(z->m), "zero matrix reported non-zero"); wr(F, t->m, i, j, AT(A, i, j) ^ (1u << b)); int u = mzed_cmp(t->m, a->m), v = mzed_cmp(a->m, t->m); CHECK(u && v && (u > 0) == (v < 0), "cmp of different matrices: %d, %d", u, v); wr(F, t->m, i, j, AT(A, i, j)); CHECK(!mzed_cmp(t->m, a->m), "equal matrices differ"); mc_trans(5); }
  for (int q = 0; q < 5; q++) { E v[] = {F->q - 1, 0, 1, 2, F->q >> 1}; Mat *X = mat_new(r, c); for (int i = 0; i < r && i < c; i++) AT(X, i, i) = v[q]; PM *y = pm_new(F, mat_pat(F, r, c, q % 2 ? pat : P_BIT + (int)((long)r * c * F->k * q / 5)), (place + q) % NPLACE); mc_sub("set to 0x%x", v[q]); mzed_set_ui(y->m, v[q]); pm_check(y, X, "set_ui"); pm_free(y); mc_trans(1); }
  pm_check(t, A, "compared matrix"); pm_check(a, A, "compared matrix"); pm_check(z, Z, "tested matrix"); pm_free(t); pm_free(a); pm_free(z);
}
/* structured contents, targets holding one coefficient only, operands used twice, nested windows, many rows and words */
static void slarge(const Fld *F, int r, int c, int place, int pat) {
  Mat *A = mat_pat(F, r, c, pat), *D = mat_pat(F, r, 1 + c / 2, NPAT + (pat + 5) % (NSTRUCT - NPAT)), *S = mat_pat(F, 1 + r / 2, c, NPAT + (pat + 7) % (NSTRUCT - NPAT)); SM *a = sm_new(F, A, place), *d = sm_new(F, D, (place + 1) % NPLACE), *s = sm_new(F, S, (place + 2) % NPLACE), *t;
  int ri[24], ci[24], nr = edges(r, 64, ri), nc = edges(c, 64, ci);
  for (int q = 0; q < 4; q++) { long n = (long)r * c * F->k; int bit = P_BIT + (int)(q == 0 ? 0 : q == 1 ? n - 1 : (n / 3 * q + place) % n); mc_sub("pattern %d, target bit %d", pat, bit); int pl = (place + q) % NPLACE;
    t = sm_new(F, mat_pat(F, r, c, bit), pl); CHECK(mzd_slice_copy(t->m, a->m) == t->m, "copy returned another object"); sm_check(t, A, "copy"); CHECK(mzd_slice_copy(t->m, t->m) == t->m, "copy of itself"); sm_check(t, A, "copy onto itself"); sm_free(t);
    Mat *X = concat(A, D); t = sm_new(F, mat_pat(F, X->r, X->c, bit), pl); mzd_slice_concat(t->m, a->m, d->m); schk(pl || place, t, X, "concat", "known:m4ri-concat-lastword"); sm_free(t);
    X = concat(A, A); t = sm_new(F, mat_pat(F, X->r, X->c, bit), pl); mzd_slice_concat(t->m, a->m, a->m); schk(pl || place, t, X, "concat with itself", "known:m4ri-concat-lastword"); sm_free(t);
    X = stack(A, S); t = sm_new(F, mat_pat(F, X->r, X->c, bit), pl); mzd_slice_stack(t->m, a->m, s->m); schk(pl || place || (place + 2) % NPLACE, t, X, "stack", "known:m4ri-stack-lastword"); sm_free(t);
    X = stack(A, A); t = sm_new(F, mat_pat(F, X->r, X->c, bit), pl); mzd_slice_stack(t->m, a->m, a->m); schk(pl || place, t, X, "stack with itself", "known:m4ri-stack-lastword"); sm_free(t);
    mc_trans(6); }
  for (int x = 0; x < nr; x += 1 + nr / 5) for (int y = 0; y < nc; y++) for (int w = 0; w < nc; w += 1 + (y & 1)) { int lr = ri[x], hr = 1 + ri[(x * 3 + y + w) % nr], lc = ci[y], hc = ci[w] + 1; if (hr <= lr) hr = r; if (hc <= lc) continue; int tk0 = (x + y + w) % (NPLACE + 1); for (int tk = 0; tk <= tk0; tk += tk0 ? tk0 : 1) { mc_sub("rows %d..%d columns %d..%d target %d", lr, hr, lc, hc, tk);
    Mat *X = mat_sub(A, lr, lc, hr, hc); t = tk ? sm_new(F, mat_pat(F, X->r, X->c, P_BIT + (y * 31 + w) % (X->c * F->k)), tk - 1) : NULL; mzd_slice_t *z = mzd_slice_submatrix(t ? t->m : NULL, a->m, lr, lc, hr, hc); if (!t) t = sm_wrap(F, z, X->r, X->c); schk(tk > 1, t, X, "submatrix", "known:m4ri-submatrix-lastword"); sm_free(t); mc_trans(1); } }
  for (int x = 0; x < nr; x += 1 + nr / 5) for (int y = 0; y < nc; y++) for (int w = 0; w < nc; w += 1 + (y & 1)) { int lr = ri[x], hr = 1 + ri[(x * 3 + y + w) % nr], lc = ci[y], hc = ci[w] + 1; if (hr <= lr) hr = r; if (hc <= lc) continue; mc_sub("window rows %d..%d columns %d..%d", lr, hr, lc, hc); mzd_slice_t *z;
    if (lc % 64 == 0) { z = mzd_slice_init_window(a->m, lr, lc, hr, hc); int l2 = (hc - lc) / 64 / 2 * 64, r2 = (hr - lr) / 2; mzd_slice_t *v = mzd_slice_init_window(z, r2, l2, hr - lr, hc - lc); CHECK(v->nrows == hr - lr - r2 && v->ncols == hc - lc - l2, "nested window is %dx%d", (int)v->nrows, (int)v->ncols);
      for (int i = 0; i < v->nrows; i += 1 + v->nrows / 3) for (int j = 0; j < v->ncols; j += 1 + v->ncols / 5) { CHECK(mzd_slice_read_elem(v, i, j) == AT(A, lr + r2 + i, lc + l2 + j), "element (%d,%d) of a nested window", i, j); E e = mc_hash(i, j, y, w) & (F->q - 1); mzd_slice_write_elem(v, i, j, e); AT(A, lr + r2 + i, lc + l2 + j) = e; }
      sm_check(a, A, "writes through a nested window"); t = sm_wrap(F, mzd_slice_copy(NULL, v), v->nrows, v->ncols); sm_check(t, mat_sub(A, lr + r2, lc + l2, hr, hc), "copy of a nested window"); sm_free(t); mzd_slice_free_window(v); mzd_slice_free_window(z); mc_trans(4); } }
  sm_check(a, A, "operand"); sm_check(d, D, "operand"); sm_check(s, S, "operand"); sm_free(d); sm_free(s);
  /* one coefficient decides: zero test, comparison, first zero row */
  Mat *Z = mat_new(r, c); SM *z = sm_new(F, Z, (place + 3) % NPLACE); t = sm_new(F, A, (place + 1) % NPLACE);
  for (int x = 0; x < nr; x++) for (int y = 0; y < nc; y++) for (int b = 0; b < F->k; b += 1 + F->k / 3) { int i = ri[x], j = ci[y]; mc_sub("coefficient %d of (%d,%d)", b, i, j); swr(z->m, F->k, i, j, 1u << b); CHECK(!mzd_slice_is_zero(z->m), "non-zero matrix reported zero"); 
    swr(z->m, F->k, i, j, 0); CHECK(mzd_slice_is_zero(z->m), "zero matrix reported non-zero"); swr(t->m, F->k, i, j, AT(A, i, j) ^ (1u << b)); int u = mzd_slice_cmp(t->m, a->m), v = mzd_slice_cmp(a->m, t->m); CHECK(u && v, "cmp of different matrices: %d, %d", u, v); swr(t->m, F->k, i, j, AT(A, i, j)); CHECK(!mzd_slice_cmp(t->m, a->m), "equal matrices differ"); mc_trans(5); }
  for (int q = 0; q < 5; q++) { E v[] = {F->q - 1, 0, 1, 2, F->q >> 1}; Mat *X = mat_new(r, c); for (int i = 0; i < r && i < c; i++) AT(X, i, i) = v[q]; SM *y = sm_new(F, mat_pat(F, r, c, q % 2 ? pat : P_BIT + (int)((long)r * c * F->k * q / 5)), (place + q) % NPLACE); mc_sub("set to 0x%x", v[q]); mzd_slice_set_ui(y->m, v[q]); sm_check(y, X, "set_ui"); sm_free(y); mc_trans(1); }
  sm_check(t, A, "compared matrix"); sm_check(a, A, "compared matrix"); sm_check(z, Z, "tested matrix"); sm_free(t); sm_free(a); sm_free(z);
}
/* polynomials: coefficient matrices */
static void poly(int depth, int r, int c) {
  mzd_poly_t *A = mzd_poly_init(depth - 1, r, c), *B = mzd_poly_init(depth - 1, r, c);
  CHECK((int)A->depth == depth && A->nrows == r && A->ncols == c, "mzd_poly_init(%d): depth %d", depth - 1, (int)A->depth);
  for (int e = 0; e < depth; e++) CHECK(A->x[e]->nrows == r && A->x[e]->ncols == c && mzd_is_zero(A->x[e]), "fresh coefficient %d", e);
  CHECK(mzd_poly_cmp(A, B) == 0, "fresh polynomials differ");
  for (int e = 0; e < depth; e++) for (int i = 0; i < r; i++) for (int j = 0; j < c; j += c > 9 ? 7 : 1) {
    mc_sub("coefficient %d (%d,%d)", e, i, j); mzd_write_bit(A->x[e], i, j, 1);
    CHECK(mzd_poly_cmp(A, B) != 0 && mzd_poly_cmp(B, A) != 0, "different polynomials reported equal");
    mzd_write_bit(B->x[e], i, j, 1); CHECK(mzd_poly_cmp(A, B) == 0, "equal polynomials reported different"); mc_trans(2);
    if ((e + i + j) % 2) { mzd_write_bit(A->x[e], i, j, 0); mzd_write_bit(B->x[e], i, j, 0); }
  }
  /* change of depth keeps the common coefficients */
  for (int nd = 1; nd <= 16; nd++) {
    int od = A->depth; uint8_t *keep = ar_alloc((size_t)od * r * c);
    for (int e = 0; e < od; e++) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int b = mc_hash(e, i, j, nd) & 1; mzd_write_bit(A->x[e], i, j, b); keep[((size_t)e * r + i) * c + j] = b; }
    int to = nd % 2 ? 1 + (nd * 5) % 16 : nd; mc_sub("depth %d to %d", od, to);
    _mzd_poly_adapt_depth(A, to); CHECK((int)A->depth == to, "depth is %d", (int)A->depth); mc_trans(1);
    for (int e = 0; e < to; e++) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) CHECK(mzd_read_bit(A->x[e], i, j) == (e < od ? keep[((size_t)e * r + i) * c + j] : 0), "coefficient %d (%d,%d) after depth change", e, i, j);
    mc_states(1);
  }
  mzd_poly_free(A); mzd_poly_free(B);
}
static void sdepth(const Fld *F, int r, int c) {
  Mat *A = mat_pat(F, r, c, 4); SM *a = sm_new(F, A, OWN);
  for (int nd = F->k; nd <= 16; nd++) {
    mc_sub("depth %d", nd); _mzd_slice_adapt_depth(a->m, nd); CHECK((int)a->m->depth == nd, "depth %d", (int)a->m->depth);
    for (int e = 0; e < nd; e++) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) CHECK(mzd_read_bit(a->m->x[e], i, j) == (e < F->k ? AT(A, i, j) >> e & 1 : 0), "slice %d (%d,%d)", e, i, j);
    _mzd_slice_adapt_depth(a->m, F->k); sm_check(a, A, "_mzd_slice_adapt_depth"); mc_trans(2); mc_states(1);
  }
  sm_free(a);
}
PROPERTY(C07) {
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0); int cs[64], n = cols_small(F, cs, TIER(1, 2, 4));
    for (int ci = 0; ci < n; ci++) for (int place = 0; place < NPLACE; place++) {
      if (mc_tier == 0 && (ci + place + k) % 3) continue;
      for (int r = 1; r <= TIER(3, 4, 7); r += TIER(2, 1, 1)) if (CASE("k=%d packed %dx%d %s", k, r, cs[ci], place_name[place])) packed(F, r, cs[ci], place);
    }
    int sc[] = {1, 2, 3, 9, 17, 63, 64, 65, 128, 129, 192, 193}; int ns = TIER(7, 10, 12);
    for (int ci = 0; ci < ns; ci++) for (int place = 0; place < NPLACE; place++) {
      if (mc_tier == 0 && (ci + place + k) % 3) continue;
      for (int r = 1; r <= TIER(3, 3, 6); r += 1 + (mc_tier < 2)) if (CASE("k=%d sliced %dx%d %s", k, r, sc[ci], place_name[place])) sliced(F, r, sc[ci], place);
    }
    static const int gr[][2] = {{3, 3}, {5, 5}, {8, 8}, {13, 13}, {16, 16}, {24, 24}, {64, 64}, {8, 65}, {64, 1}, {64, 129}, {2, 65}, {6, 128}, {65, 64}, {32, 33}};
    for (int a = 0; a < 14; a++) for (int sl = 0; sl < 2; sl++) if ((mc_tier || (a + k) % 3 == 0) && CASE("k=%d grid %dx%d (%s)", k, gr[a][0], gr[a][1], sl ? "sliced" : "packed")) (sl ? slarge : plarge)(F, gr[a][0], gr[a][1], (a + k) % NPLACE, (a + k) % 2 ? 4 : 7);
    for (int pat = NPAT; pat < NSTRUCT; pat++) for (int sl = 0; sl < 2; sl++) if ((mc_tier || (pat + k) % 2 == 0) && CASE("k=%d structured contents %d (%s)", k, pat, sl ? "sliced" : "packed")) { if (sl) { slarge(F, 5, 66, pat % NPLACE, pat); slarge(F, 3, 129, pat % NPLACE, pat); } else { plarge(F, 5, 2 * F->epw + 1, pat % NPLACE, pat); plarge(F, 3, 4 * F->epw + F->epw / 2, pat % NPLACE, pat); } }
    /* longer than 2^16 in one direction */
    for (int b = 0; b < 2; b++) for (int sl = 0; sl < 2; sl++) if (LONG(k) && CASE("k=%d long %s (%s)", k, b ? "2x70000" : "70000x2", sl ? "sliced" : "packed")) (sl ? slarge : plarge)(F, b ? 2 : 70000, b ? 70000 : 2, (k / 2 + b) % 2, 4 + k % 6);
    static const int big[][2] = {{3, 1100}, {130, 70}, {1030, 5}, {70, 260}};
    for (int b = 0; b < 4; b++) for (int q = 0; q < TIER(1, 4, 12); q++) for (int sl = 0; sl < 2; sl++) if ((mc_tier || (b + k + sl) % 2) && CASE("k=%d large %dx%d variant %d (%s)", k, big[b][0], big[b][1], q, sl ? "sliced" : "packed")) (sl ? slarge : plarge)(F, big[b][0], big[b][1], (q + k + b) % NPLACE, NPAT + (k + 5 * b + q) % (NSTRUCT - NPAT));
    if (CASE("k=%d slice depth changes", k)) { sdepth(F, 3, 5); sdepth(F, 2, 65); }
  }
  static const int ld[] = {17, 31, 32, 33, 63, 64, 65, 66, 70, 71, 72, 100, 127, 128, 129, 200, 255, 256, 257};
  for (int x = 0; x < 19; x++) if ((mc_tier || x % 4 == 1) && CASE("polynomial depth %d", ld[x])) { poly(ld[x], 1, 1); poly(ld[x], 2, 3); poly(ld[x], 1, 65); }
  static const int ps[][2] = {{70, 3}, {130, 65}, {3, 200}, {64, 64}, {257, 1}};
  for (int x = 0; x < 5; x++) if ((mc_tier || x == 0) && CASE("polynomials of %dx%d", ps[x][0], ps[x][1])) { poly(1, ps[x][0], ps[x][1]); poly(4, ps[x][0], ps[x][1]); }
  for (int d = 1; d <= 16; d++) if (CASE("polynomial depth %d", d)) { poly(d, 1, 1); poly(d, 3, 5); poly(d, 2, 64); poly(d, 3, 65); }
}

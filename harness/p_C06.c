/* C06: sliced row and column operations. */
#include "mc.h"

static void rescale(const Fld *F, int c, int place, int pat, int nvmax) {
  E v[64]; int nv = fld_vals(F, v), st = nv > nvmax ? (nv + nvmax - 1) / nvmax : 1;
  Mat *M = mat_pat(F, 3, c, pat); SM *p = sm_new(F, M, place);
  for (int s = 0; s < c; s++) {
    if (c > 66 && s > 3 && s % 64 > 1 && s % 64 < 62 && s < c - 3 && s % 7) continue;
    for (int t = s % st; t < nv; t += st) {
      int r = (t + s) % 3; E x = v[t];
      mc_sub("scale row %d by 0x%x from column %d", r, x, s);
      mzd_slice_rescale_row(p->m, r, s, x); mc_trans(1);
      for (int j = s; j < c; j++) AT(M, r, j) = fe_mul(F, x, AT(M, r, j));
      sm_check(p, M, "mzd_slice_rescale_row");
      if (x == 0) for (int j = s; j < c; j++) { E y = mc_hash(r, j, 8, s) & (F->q - 1); mzd_slice_write_elem(p->m, r, j, y); AT(M, r, j) = y; }
    }
  }
  sm_free(p);
}
static void whole_rows(const Fld *F, int c, int place, int pat) {
  Mat *M = mat_pat(F, 4, c, pat); SM *p = sm_new(F, M, place);
  Mat *N = mat_pat(F, 3, c, 7); SM *o = sm_new(F, N, (place + 1) % NPLACE);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
    mc_sub("rows %d %d", i, j);
    mzd_slice_row_swap(p->m, i, j); mat_rowswap(M, i, j); sm_check(p, M, "mzd_slice_row_swap");
    if (i == j) { /* in a window libm4ri also clears the bits right of the last column (known_findings.txt) */
      SM *t = sm_new(F, M, place); Mat *Z = mat_dup(M); uint64_t h = mc_loose_hits; mzd_slice_row_add(t->m, i, i); for (int x = 0; x < c; x++) AT(Z, i, x) = 0;
      mc_loose = place > 0; sm_check(t, Z, "mzd_slice_row_add (same row)"); mc_loose = 0; if (mc_loose_hits != h) mc_note("known:m4ri-row-add-same-row", 1); sm_free(t); }
    else { mzd_slice_row_add(p->m, i, j); for (int x = 0; x < c; x++) AT(M, j, x) ^= AT(M, i, x); sm_check(p, M, "mzd_slice_row_add"); }
    { mzd_slice_copy_row(p->m, i, p->m, j); for (int x = 0; x < c; x++) AT(M, i, x) = AT(M, j, x); sm_check(p, M, "mzd_slice_copy_row (same matrix)"); }
    if (j < 3) { mzd_slice_copy_row(p->m, i, o->m, j); for (int x = 0; x < c; x++) AT(M, i, x) = AT(N, j, x); sm_check(p, M, "mzd_slice_copy_row (other matrix)"); }
    mc_trans(4);
  }
  sm_check(o, N, "source matrix"); sm_free(o);
  Mat *W = mat_pat(F, 2, c + 3, 4); SM *w = sm_new(F, W, place);
  mzd_slice_copy_row(w->m, 1, p->m, 2); for (int x = 0; x < c; x++) AT(W, 1, x) = AT(M, 2, x);
  sm_check(w, W, "mzd_slice_copy_row into a wider matrix"); mc_trans(1);
  sm_check(p, M, "source of mzd_slice_copy_row"); sm_free(w); sm_free(p);
}
static void cols(const Fld *F, int r, int c, int place, int pat) {
  Mat *M = mat_pat(F, r, c, pat); SM *p = sm_new(F, M, place);
  for (int a = 0; a < c; a++) for (int b = 0; b < c; b++) {
    if (c > 12) { int ea = a % 64 <= 1 || a % 64 >= 62 || a >= c - 1, eb = b % 64 <= 1 || b % 64 >= 62 || b >= c - 1; if (!(ea && eb) && (a * 13 + b * 5) % 97) continue; }
    mc_sub("columns %d %d", a, b);
    mzd_slice_col_swap(p->m, a, b); mat_colswap(M, a, b); sm_check(p, M, "mzd_slice_col_swap"); mc_trans(1);
    int lo = (a + b) % r, hi = lo + 1 + a % (r - lo);
    mc_sub("columns %d %d in rows %d..%d", a, b, lo, hi - 1);
    mzd_slice_col_swap_in_rows(p->m, a, b, lo, hi);
    for (int i = lo; i < hi; i++) { E t = AT(M, i, a); AT(M, i, a) = AT(M, i, b); AT(M, i, b) = t; }
    sm_check(p, M, "mzd_slice_col_swap_in_rows"); mc_trans(1);
  }
  sm_free(p);
}
/* the same operations at the edges of matrices of many rows and many words, on structured contents */
static void large(const Fld *F, int r, int c, int place, int pat) {
  Mat *M = mat_pat(F, r, c, pat); SM *p = sm_new(F, M, place); Mat *N = mat_pat(F, r, c, NPAT + (pat + 3) % (NSTRUCT - NPAT)); SM *o = sm_new(F, N, (place + 1) % NPLACE);
  int ri[24], ci[24], nr = edges(r, 64, ri), nc = edges(c, 64, ci); E v[] = {F->q - 1, 0, 1, 2, F->q >> 1, 0x6aa5 & (F->q - 1)};
  for (int b = 0; b < nc; b++) { int s = ci[b]; for (int t = 0; t < nr; t += 1 + nr / 2) { int ar = ri[(t + b) % nr], br = ri[(t + b + 1 + b % 2) % nr]; E x = v[(t + b) % 6]; if (ar == br) br = (ar + 1) % r;
    mc_sub("rows %d, %d, scalar 0x%x, start column %d", ar, br, x, s);
    if (x) { mzd_slice_rescale_row(p->m, ar, s, x); for (int j = s; j < c; j++) AT(M, ar, j) = fe_mul(F, x, AT(M, ar, j)); sm_check(p, M, "mzd_slice_rescale_row"); }
    mzd_slice_row_swap(p->m, ar, br); mat_rowswap(M, ar, br); sm_check(p, M, "mzd_slice_row_swap"); if (ar != br) { mzd_slice_row_add(p->m, ar, br); for (int j = 0; j < c; j++) AT(M, br, j) ^= AT(M, ar, j); sm_check(p, M, "mzd_slice_row_add"); }
    mzd_slice_copy_row(p->m, ar, o->m, br); for (int j = 0; j < c; j++) AT(M, ar, j) = AT(N, br, j); sm_check(p, M, "mzd_slice_copy_row"); mc_trans(4); }
    for (int d = 0; d < nc; d += TIER(2, 1, 1)) { int a = s, e = ci[d], lo = ri[(b + d) % nr], hi = ri[(b * 3 + d) % nr]; if (lo > hi) { int y = lo; lo = hi; hi = y; } hi++; mc_sub("columns %d, %d, rows %d to %d", a, e, lo, hi);
      mzd_slice_col_swap(p->m, a, e); mat_colswap(M, a, e); sm_check(p, M, "mzd_slice_col_swap"); mzd_slice_col_swap_in_rows(p->m, a, e, lo, hi); for (int i = lo; i < hi; i++) { E y = AT(M, i, a); AT(M, i, a) = AT(M, i, e); AT(M, i, e) = y; }
      sm_check(p, M, "mzd_slice_col_swap_in_rows"); mc_trans(2); } }
  sm_check(o, N, "source matrix"); sm_free(o); sm_free(p);
}
PROPERTY(C06) {
  int cs_all[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 257, 320};
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0), *G = field(k, -1);
    for (int ci = 0; ci < TIER(23, 29, 29); ci++) for (int place = 0; place < NPLACE; place++) {
      int c = cs_all[ci];
      if (mc_tier == 0 && (ci + place) % 3) continue;
      if (CASE("k=%d %d columns %s: scale a row", k, c, place_name[place])) { rescale(F, c, place, 4, TIER(2, 7, 40)); if (G != F) rescale(G, c, place, 2, TIER(1, 3, 20)); }
      if (CASE("k=%d %d columns %s: whole rows", k, c, place_name[place])) { whole_rows(F, c, place, 4); whole_rows(F, c, place, 2); }
      if (CASE("k=%d %d columns %s: column swaps", k, c, place_name[place])) { cols(F, 4, c, place, 4); cols(F, 1, c, place, 7); if (mc_tier) cols(F, 9, c, place, 4); }
    }
    static const int gr[][2] = {{3, 3}, {5, 5}, {8, 8}, {13, 13}, {16, 16}, {24, 24}, {64, 64}, {8, 65}, {64, 1}, {64, 129}, {2, 65}, {6, 128}, {65, 64}, {32, 33}};
    for (int a = 0; a < 14; a++) if ((mc_tier || (a + k) % 3 == 0) && CASE("k=%d grid %dx%d", k, gr[a][0], gr[a][1])) large(a % 2 ? F : G, gr[a][0], gr[a][1], (a + k) % NPLACE, (a + k) % 2 ? 4 : 7);
    for (int pat = NPAT; pat < NSTRUCT; pat++) if ((mc_tier || (pat + k) % 3 == 0) && CASE("k=%d small structured contents %d", k, pat)) { large(F, 5, 66, pat % NPLACE, pat); large(G, 3, 2, (pat + 1) % NPLACE, pat); large(G, 7, 129, (pat + 2) % NPLACE, pat); }
    /* longer than 2^16 in one direction */
    for (int b = 0; b < 2; b++) if (LONG(k) && CASE("k=%d long %s", k, b ? "2x70000" : "70000x2")) large(b ? F : G, b ? 2 : 70000, b ? 70000 : 2, (k + b) % 2, 4 + k % 6);
    static const int big[][2] = {{3, 1100}, {130, 70}, {1030, 5}, {70, 260}};
    for (int b = 0; b < 4; b++) for (int q = 0; q < TIER(1, 4, 12); q++) if ((mc_tier || (b + k) % 2) && CASE("k=%d large %dx%d variant %d", k, big[b][0], big[b][1], q)) large(q % 2 ? G : F, big[b][0], big[b][1], (q + k + b) % NPLACE, NPAT + (k + 5 * b + q) % (NSTRUCT - NPAT));
  }
}

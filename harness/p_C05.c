/* C05: packed row and column operations. */
#include "mc.h"

static int shapes(const Fld *F, int *cs) {
  int n = 0, e = F->epw, all = TIER(0, 2, 3) * e; if (mc_tier && F->w == 16) all = TIER(0, 9, 18) * e; if (mc_tier && F->w == 8) all = TIER(0, 4, 8) * e;
  for (int c = 1; c <= all; c++) cs[n++] = c;
  for (int w = mc_tier ? all / e + 1 : 1; w <= TIER(3, 7, 18); w++) { cs[n++] = w * e - 1; cs[n++] = w * e; cs[n++] = w * e + 1; }
  return n;
}
/* one state, all scalars, from one start column */
static void rows_from(const Fld *F, int c, int s, int place, int pat, int nvmax) {
  E v[64]; int nv = fld_vals(F, v);
  int st = nv > nvmax ? (nv + nvmax - 1) / nvmax : 1;
  Mat *M = mat_pat(F, 3, c, pat); PM *p = pm_new(F, M, place);
  Mat *N = mat_pat(F, 4, c, 7); PM *o = pm_new(F, N, (place + (c & 1)) % NPLACE);
  Mat *H = mat_pat(F, 1, c, 10); PM *h = pm_new(F, H, (place + 1 + (c & 1)) % NPLACE); /* one row only, as source and as target */
  for (int t = (s + c) % st; t < nv; t += st) {
    E x = v[t]; int ar = t % 3, br = (t + 1 + (s & 1)) % 3; if (ar == br) br = (br + 1) % 3;
    mc_sub("scale row %d by 0x%x from column %d", ar, x, s);
    mzed_rescale_row(p->m, ar, s, x); for (int j = s; j < c; j++) AT(M, ar, j) = fe_mul(F, x, AT(M, ar, j));
    pm_check(p, M, "mzed_rescale_row");
    if (x == 0) { for (int j = 0; j < c; j++) { E y = AT(N, 3, j); mzed_write_elem(p->m, ar, j, y); AT(M, ar, j) = y; } }
    mc_sub("add 0x%x times row %d to row %d from column %d (same matrix)", x, br, ar, s);
    mzed_add_multiple_of_row(p->m, ar, p->m, br, x, s); for (int j = s; j < c; j++) AT(M, ar, j) ^= fe_mul(F, x, AT(M, br, j));
    pm_check(p, M, "mzed_add_multiple_of_row (same matrix)");
    mc_sub("add 0x%x times row %d to itself from column %d", x, ar, s);
    mzed_add_multiple_of_row(p->m, ar, p->m, ar, x, s); for (int j = s; j < c; j++) AT(M, ar, j) ^= fe_mul(F, x, AT(M, ar, j));
    pm_check(p, M, "mzed_add_multiple_of_row (same row)");
    if (x == 1) for (int j = s; j < c; j++) { E y = AT(N, 1, j); mzed_write_elem(p->m, ar, j, y); AT(M, ar, j) = y; }
    mc_sub("add 0x%x times row 2 of another matrix to row %d from column %d", x, ar, s);
    mzed_add_multiple_of_row(p->m, ar, o->m, 2, x, s); for (int j = s; j < c; j++) AT(M, ar, j) ^= fe_mul(F, x, AT(N, 2, j));
    pm_check(p, M, "mzed_add_multiple_of_row (other matrix)");
    mc_sub("add 0x%x times the row of a one-row matrix to row %d from column %d, and back", x, ar, s);
    mzed_add_multiple_of_row(p->m, ar, h->m, 0, x, s); for (int j = s; j < c; j++) AT(M, ar, j) ^= fe_mul(F, x, AT(H, 0, j));
    pm_check(p, M, "mzed_add_multiple_of_row (one-row source)");
    mzed_add_multiple_of_row(h->m, 0, p->m, br, x, s); for (int j = s; j < c; j++) AT(H, 0, j) ^= fe_mul(F, x, AT(M, br, j));
    if (x) { mzed_rescale_row(h->m, 0, s, x); for (int j = s; j < c; j++) AT(H, 0, j) = fe_mul(F, x, AT(H, 0, j)); }
    mzed_add_row(h->m, 0, p->m, ar, s); for (int j = s; j < c; j++) AT(H, 0, j) ^= AT(M, ar, j);
    pm_check(h, H, "row operations on a one-row matrix"); 
    mc_trans(8);
  }
  pm_check(h, H, "one-row matrix"); pm_free(h);
  for (int ar = 0; ar < 3; ar++) {
    int br = (ar + 1) % 3;
    mc_sub("add row %d to row %d from column %d", br, ar, s);
    mzed_add_row(p->m, ar, p->m, br, s); for (int j = s; j < c; j++) AT(M, ar, j) ^= AT(M, br, j);
    pm_check(p, M, "mzed_add_row (same matrix)");
    mzed_add_row(p->m, ar, o->m, ar + 1, s); for (int j = s; j < c; j++) AT(M, ar, j) ^= AT(N, ar + 1, j);
    pm_check(p, M, "mzed_add_row (other matrix)");
    mzed_add_row(p->m, ar, p->m, ar, s); for (int j = s; j < c; j++) AT(M, ar, j) = 0;
    pm_check(p, M, "mzed_add_row (same row)");
    for (int j = s; j < c; j++) { E y = AT(N, 3, j); mzed_write_elem(p->m, ar, j, y); AT(M, ar, j) = y; }
    mc_trans(3);
  }
  pm_check(o, N, "source matrix of row additions");
  pm_free(p); pm_free(o);
}
static void whole_rows(const Fld *F, int c, int place, int pat) {
  Mat *M = mat_pat(F, 4, c, pat); PM *p = pm_new(F, M, place);
  Mat *N = mat_pat(F, 3, c, 7); PM *o = pm_new(F, N, (place + 1) % NPLACE);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
    mc_sub("rows %d %d", i, j);
    mzed_row_swap(p->m, i, j); mat_rowswap(M, i, j); pm_check(p, M, "mzed_row_swap");
    if (i == j) { /* in a window libm4ri also clears the bits right of the last column (known_findings.txt) */
      PM *t = pm_new(F, M, place); Mat *Z = mat_dup(M); uint64_t h = mc_loose_hits; mzed_row_add(t->m, i, i); for (int x = 0; x < c; x++) AT(Z, i, x) = 0;
      mc_loose = place > 0; pm_check(t, Z, "mzed_row_add (same row)"); mc_loose = 0; if (mc_loose_hits != h) mc_note("known:m4ri-row-add-same-row", 1); pm_free(t); }
    else { mzed_row_add(p->m, i, j); for (int x = 0; x < c; x++) AT(M, j, x) ^= AT(M, i, x); pm_check(p, M, "mzed_row_add"); }
    { mzed_copy_row(p->m, i, p->m, j); for (int x = 0; x < c; x++) AT(M, i, x) = AT(M, j, x); pm_check(p, M, "mzed_copy_row (same matrix)"); }
    if (j < 3) { mzed_copy_row(p->m, i, o->m, j); for (int x = 0; x < c; x++) AT(M, i, x) = AT(N, j, x); pm_check(p, M, "mzed_copy_row (other matrix)"); }
    mc_trans(4);
  }
  pm_check(o, N, "source matrix"); pm_free(o);
  /* copying a row into a wider matrix replaces its first columns only */
  Mat *W = mat_pat(F, 2, c + 3, 4); PM *w = pm_new(F, W, place);
  mzed_copy_row(w->m, 1, p->m, 2); for (int x = 0; x < c; x++) AT(W, 1, x) = AT(M, 2, x);
  pm_check(w, W, "mzed_copy_row into a wider matrix"); mc_trans(1);
  pm_check(p, M, "source of mzed_copy_row"); pm_free(w); pm_free(p);
}
static void cols(const Fld *F, int r, int c, int place, int pat) {
  Mat *M = mat_pat(F, r, c, pat); PM *p = pm_new(F, M, place);
  int e = F->epw;
  for (int a = 0; a < c; a++) for (int b = 0; b < c; b++) {
    if (c > 40 && !(a % e <= 1 || a % e == e - 1 || b % e <= 1 || b % e == e - 1) && (a * 7 + b * 3) % 11) continue;
    mc_sub("columns %d %d", a, b);
    mzed_col_swap(p->m, a, b); mat_colswap(M, a, b); pm_check(p, M, "mzed_col_swap"); mc_trans(1);
    int lo = (a + b) % r, hi = lo + 1 + a % (r - lo);
    mc_sub("columns %d %d in rows %d..%d", a, b, lo, hi - 1);
    mzed_col_swap_in_rows(p->m, a, b, lo, hi);
    for (int i = lo; i < hi; i++) { E t = AT(M, i, a); AT(M, i, a) = AT(M, i, b); AT(M, i, b) = t; }
    pm_check(p, M, "mzed_col_swap_in_rows"); mc_trans(1);
  }
  pm_free(p);
}
/* the same operations at the edges of matrices of many rows and many words, on structured contents */
static void large(const Fld *F, int r, int c, int place, int pat) {
  Mat *M = mat_pat(F, r, c, pat); PM *p = pm_new(F, M, place); Mat *N = mat_pat(F, r, c, NPAT + (pat + 3) % (NSTRUCT - NPAT)); PM *o = pm_new(F, N, (place + 1) % NPLACE);
  int ri[24], ci[24], nr = edges(r, 64, ri), nc = edges(c, F->epw, ci); E v[] = {F->q - 1, 0, 1, 2, F->q >> 1, 0x6aa5 & (F->q - 1)};
  for (int b = 0; b < nc; b++) { int s = ci[b]; for (int t = 0; t < nr; t += 1 + nr / 4) { int ar = ri[(t + b) % nr], br = ri[(t + b + 1 + b % 2) % nr]; E x = v[(t + b) % 6]; if (ar == br) br = (ar + 1) % r;
    mc_sub("rows %d, %d, scalar 0x%x, start column %d", ar, br, x, s);
    if (x) { mzed_rescale_row(p->m, ar, s, x); for (int j = s; j < c; j++) AT(M, ar, j) = fe_mul(F, x, AT(M, ar, j)); pm_check(p, M, "mzed_rescale_row"); }
    mzed_add_multiple_of_row(p->m, ar, o->m, br, x, s); for (int j = s; j < c; j++) AT(M, ar, j) ^= fe_mul(F, x, AT(N, br, j)); pm_check(p, M, "mzed_add_multiple_of_row");
    if (ar != br) { mzed_add_multiple_of_row(p->m, br, p->m, ar, x, s); for (int j = s; j < c; j++) AT(M, br, j) ^= fe_mul(F, x, AT(M, ar, j)); pm_check(p, M, "mzed_add_multiple_of_row (same matrix)"); }
    mzed_add_row(p->m, br, o->m, ar, s); for (int j = s; j < c; j++) AT(M, br, j) ^= AT(N, ar, j); pm_check(p, M, "mzed_add_row");
    mzed_row_swap(p->m, ar, br); mat_rowswap(M, ar, br); pm_check(p, M, "mzed_row_swap"); if (ar != br) { mzed_row_add(p->m, ar, br); for (int j = 0; j < c; j++) AT(M, br, j) ^= AT(M, ar, j); pm_check(p, M, "mzed_row_add"); }
    mzed_copy_row(p->m, ar, o->m, br); for (int j = 0; j < c; j++) AT(M, ar, j) = AT(N, br, j); pm_check(p, M, "mzed_copy_row"); mc_trans(7); }
    for (int d = 0; d < nc; d++) { int a = s, e = ci[d], lo = ri[(b + d) % nr], hi = ri[(b * 3 + d) % nr]; if (lo > hi) { int y = lo; lo = hi; hi = y; } hi++; mc_sub("columns %d, %d, rows %d to %d", a, e, lo, hi);
      mzed_col_swap(p->m, a, e); mat_colswap(M, a, e); pm_check(p, M, "mzed_col_swap"); mzed_col_swap_in_rows(p->m, a, e, lo, hi); for (int i = lo; i < hi; i++) { E y = AT(M, i, a); AT(M, i, a) = AT(M, i, e); AT(M, i, e) = y; }
      pm_check(p, M, "mzed_col_swap_in_rows"); mc_trans(2); } }
  pm_check(o, N, "source matrix"); pm_free(o); pm_free(p);
}
PROPERTY(C05) {
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0), *G = field(k, -1);
    int cs[600], nc = shapes(F, cs);
    for (int ci = 0; ci < nc; ci++) {
      int c = cs[ci];
      for (int place = 0; place < NPLACE; place++) {
        if (mc_tier == 0 && place && ci % 2) continue;
        if (CASE("k=%d %d columns %s: scale and add rows from every start column", k, c, place_name[place]))
          for (int s = 0; s < c; s++) {
            if (mc_tier == 0 && c > 20 && s > 6 && s < c - 4 && s % F->epw > 1) continue;
            rows_from(F, c, s, place, 4, TIER(3, place == OWN ? 16 : 5, 64));
            if (G != F) rows_from(G, c, s, place, 2, TIER(2, 3, 16));
          }
        if (CASE("k=%d %d columns %s: whole rows", k, c, place_name[place])) { whole_rows(F, c, place, 4); whole_rows(F, c, place, 2); }
        if ((c <= 2 * F->epw + 2 || c <= 20) && (mc_tier || place < 2) && CASE("k=%d %d columns %s: column swaps", k, c, place_name[place])) { cols(F, 4, c, place, 4); cols(F, 1, c, place, 7); if (mc_tier) cols(F, 9, c, place, 4); }
      }
    }
    static const int gr[][2] = {{3, 3}, {5, 5}, {8, 8}, {13, 13}, {16, 16}, {24, 24}, {64, 64}, {8, 65}, {64, 1}, {64, 129}, {2, 65}, {6, 128}, {65, 64}, {32, 33}};
    for (int a = 0; a < 14; a++) if ((mc_tier || (a + k) % 3 == 0) && CASE("k=%d grid %dx%d", k, gr[a][0], gr[a][1])) large(a % 2 ? F : G, gr[a][0], gr[a][1], (a + k) % NPLACE, (a + k) % 2 ? 4 : 7);
    for (int pat = NPAT; pat < NSTRUCT; pat++) if (CASE("k=%d small structured contents %d", k, pat)) { large(F, 5, 3 * F->epw + 1, pat % NPLACE, pat); large(G, 3, 2, (pat + 1) % NPLACE, pat); large(G, 7, 5 * F->epw - 1, (pat + 2) % NPLACE, pat); }
    static const int rows[] = {2, 6, 8, 9, 13, 16, 17, 31, 32, 33, 63, 64, 65, 128, 201, 256, 257};
    for (int ri = 0; ri < 17; ri++) { if (mc_tier == 0 && ri % 4 != 1) continue; if (CASE("k=%d %d rows", k, rows[ri])) { int e = F->epw, cc[] = {1, 2, e - 1, e, e + 1, 2 * e - 1, 2 * e, 2 * e + 1, 3 * e};
      for (int x = 0; x < 9; x++) { if (cc[x] < 1) continue; if (mc_tier < 2 && (x + ri + k) % 3 && rows[ri] > 20) continue; large((x + ri) % 2 ? F : G, rows[ri], cc[x], (x + ri) % NPLACE, x % 3 == 2 ? 4 + x : NPAT + (k + ri * 5 + x) % (NSTRUCT - NPAT)); if (mc_tier == 2) large((x + ri) % 2 ? G : F, rows[ri], cc[x], (x + ri + 1) % NPLACE, (k + x * 3 + ri) % NSTRUCT); } } }
    /* longer than 2^16 in one direction */
    for (int b = 0; b < 2; b++) if (LONG(k) && CASE("k=%d long %s", k, b ? "2x70000" : "70000x2")) large(b ? F : G, b ? 2 : 70000, b ? 70000 : 2, (k + b) % 2, 4 + k % 6);
    static const int big[][2] = {{3, 1100}, {300, 70}, {1030, 5}, {70, 260}};
    for (int b = 0; b < 4; b++) for (int q = 0; q < TIER(1, 4, 12); q++) if (CASE("k=%d large %dx%d variant %d", k, big[b][0], big[b][1], q)) large(q % 2 ? G : F, big[b][0], big[b][1], (q + k + b) % NPLACE, NPAT + (k + 5 * b + q) % (NSTRUCT - NPAT));
  }
}

/* C21: results do not depend on the machine configuration. Run once per
 * configuration (cache sizes compiled in); the shapes straddle the thresholds
 * THIS configuration produces; unique results are compared with the model,
 * which knows nothing of configurations. */
#include "mc.h"
#include <m4rie/newton_john.h>
#include <m4rie/echelonform.h>
#include <m4rie/ple.h>
#include <m4rie/strassen.h>

static int pl;
static void product(const Fld *F, int m, int l, int n, int pat) {
  Mat *A = mat_pat(F, m, l, pat), *B = mat_pat(F, l, n, 4 + (pat + 1) % 4), *P = mat_mul(F, A, B), *C = mat_pat(F, m, n, 10), *S = mat_add(C, P);
  PM *a = pm_new(F, A, pl++ % NPLACE), *b = pm_new(F, B, pl++ % NPLACE);
  static const char *nm[] = {"mzed_mul", "mzed_addmul", "mzed_mul_strassen", "mzed_addmul_strassen", "mzed_mul_newton_john"};
  for (int v = 0; v < 5; v++) { if (F->k > 10 && v > 3) continue; mc_sub("%s %dx%dx%d", nm[v], m, l, n); mc_trans(1); PM *c = pm_new(F, C, pl++ % NPLACE);
    switch (v) { case 0: mzed_mul(c->m, a->m, b->m); break; case 1: mzed_addmul(c->m, a->m, b->m); break; case 2: mzed_mul_strassen(c->m, a->m, b->m, 0); break; case 3: mzed_addmul_strassen(c->m, a->m, b->m, 0); break; default: mzed_mul_newton_john(c->m, a->m, b->m); }
    pm_check(c, v & 1 ? S : P, nm[v]); pm_free(c); }
  pm_check(a, A, "operand"); pm_check(b, B, "operand"); pm_free(a); pm_free(b);
}
static void eliminate(const Fld *F, int m, int n, int r, int fam, int pat, int place) {
  int mx = m < n ? m : n; if (r > mx) r = mx; int *piv = ar_zalloc(sizeof(int) * (n + 1)); if (piv_family(fam, n, r, piv) != r) return;
  Mat *A = mat_rank(F, m, n, r, piv, pat, fam % 3), *R = mat_dup(A); int rank = mat_rref(F, R); CHECK(rank == r, "model rank"); 
  for (int v = 0; v < 4; v++) for (int full = 0; full < 2; full++) { static const char *nm[] = {"mzed_echelonize", "mzd_slice_echelonize", "mzed_echelonize_newton_john", "mzed_echelonize_ple"}; if (v >= 2 && F->k > 10) continue;
    mc_sub("%s %dx%d rank %d full %d %s", nm[v], m, n, r, full, place_name[place]); mc_trans(1); int g; Mat *X = NULL;
    mc_loose = place != OWN && n % 64 && n > 64; mc_loose_hits = 0;
    if (v != 1) { PM *p = pm_new(F, A, place); g = v == 0 ? mzed_echelonize(p->m, full) : v == 2 ? mzed_echelonize_newton_john(p->m, full) : mzed_echelonize_ple(p->m, full); if (!full) X = pm_read(p); mc_loose = 0; pm_check(p, full ? R : X, nm[v]); pm_free(p); }
    else { SM *p = sm_new(F, A, place); g = mzd_slice_echelonize(p->m, full); if (!full) X = sm_read(p); sm_check(p, full ? R : X, nm[v]); sm_free(p); if (mc_loose_hits) mc_note("known:m4ri-compress-lastword", 1); }
    mc_loose = 0; CHECK(g == r, "%s: rank %d reported, the rank is %d", nm[v], g, r);
    if (X) { CHECK(mat_is_ref(X, r), "%s: not an echelon form", nm[v]); CHECK((mat_rref(F, X), mat_eq(X, R)), "%s: the row space changed", nm[v]); } }
  for (int v = 0; v < 3; v++) { static const char *nm[] = {"mzed_ple", "mzd_slice_ple", "mzd_slice_pluq"}; mc_sub("%s %dx%d rank %d", nm[v], m, n, r); mc_trans(1); mzp_t *P = mzp_init(m), *Q = mzp_init(n); int g; Mat *X;
    if (v == 0) { PM *p = pm_new(F, A, OWN); g = mzed_ple(p->m, P, Q); X = pm_read(p); pm_check(p, X, nm[v]); pm_free(p); }
    else { SM *p = sm_new(F, A, OWN); g = v == 1 ? mzd_slice_ple(p->m, P, Q) : mzd_slice_pluq(p->m, P, Q); X = sm_read(p); sm_check(p, X, nm[v]); sm_free(p); }
    CHECK(g == r, "%s: rank %d reported, the rank is %d", nm[v], g, r);
    Mat *L = mat_new(m, r), *E = mat_new(r, n), *PA = mat_dup(A); int pr[1], q = 0; (void)pr;
    for (int i = 0; i < r; i++) { while (q < n && !AT(R, i, q)) q++; CHECK(Q->values[i] == q, "%s: pivot %d in column %d, expected %d", nm[v], i, Q->values[i], q); int s = v == 2 ? i : q; AT(E, i, s) = 1; for (int j = s + 1; j < n; j++) AT(E, i, j) = AT(X, i, j); }
    for (int i = 0; i < m; i++) for (int j = 0; j < r && j <= i; j++) AT(L, i, j) = AT(X, i, j);
    Mat *LE = mat_mul(F, L, E); if (v == 2) for (int i = n - 1; i >= 0; i--) { CHECK(Q->values[i] >= i && Q->values[i] < n, "Q[%d] = %d", i, Q->values[i]); mat_colswap(LE, i, Q->values[i]); }
    for (int i = 0; i < m; i++) { CHECK(P->values[i] >= i && P->values[i] < m, "P[%d] = %d", i, P->values[i]); mat_rowswap(PA, i, P->values[i]); } CHECK(mat_eq(LE, PA), "%s: the factors do not multiply to P*A", nm[v]); mzp_free(P); mzp_free(Q); }
}
static void solve(const Fld *F, int n, int c, int pat) {
  Mat *L = mat_pat(F, n, n, pat), *U; for (int i = 0; i < n; i++) AT(L, i, i) = 1 + (i * 7 + pat) % (F->q - 1); U = mat_dup(L);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (j > i) AT(L, i, j) = 0; if (j < i) AT(U, i, j) = 0; }
  Mat *X = mat_pat(F, n, c, 4 + (pat + 1) % 4), *LX = mat_mul(F, L, X), *UX = mat_mul(F, U, X);
  for (int v = 0; v < 4; v++) { static const char *nm[] = {"mzed_trsm_lower_left", "mzed_trsm_upper_left", "mzd_slice_trsm_lower_left", "mzd_slice_trsm_upper_left"}; mc_sub("%s %d, %d columns", nm[v], n, c); mc_trans(1);
    if (v < 2) { PM *t = pm_new(F, v ? U : L, pl++ % NPLACE), *b = pm_new(F, v ? UX : LX, pl++ % NPLACE); if (v) mzed_trsm_upper_left(t->m, b->m); else mzed_trsm_lower_left(t->m, b->m); pm_check(b, X, nm[v]); pm_check(t, v ? U : L, "triangular operand"); pm_free(t); pm_free(b); }
    else { SM *t = sm_new(F, v & 1 ? U : L, pl++ % NPLACE), *b = sm_new(F, v & 1 ? UX : LX, pl++ % NPLACE); if (v & 1) mzd_slice_trsm_upper_left(t->m, b->m); else mzd_slice_trsm_lower_left(t->m, b->m); sm_check(b, X, nm[v]); sm_check(t, v & 1 ? U : L, "triangular operand"); sm_free(t); sm_free(b); } }
}
PROPERTY(C21) {
  int lim = TIER(150, 330, 900), elim = TIER(120, 300, 800);
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0);
    int cut; { mzed_t *a = mzed_init(F->ff, 2, 2); cut = _mzed_strassen_cutoff(a, a, a); mzed_free(a); }
    int cap = k > 10 ? lim / 3 : k > 8 ? lim / 2 : lim;
    /* products around the Strassen cutoff, twice the cutoff, and odd sizes in between */
    int cs[] = {cut - 1, cut, cut + 1, cut * 4 / 3 - 1, cut * 4 / 3, cut * 4 / 3 + 2, cut * 3 / 2 + 1, 2 * cut - 1, 2 * cut, 2 * cut + 1, 4 * cut + 3};
    for (int i = 0; i < 11; i++) for (int s = 0; s < 5; s++) { int c = cs[i]; if (c < 1) continue; int m = c, l = c, n = c; if (s == 1) { m = c + F->epw; } if (s == 2) { l = c + F->epw + 1; } if (s == 3) { n = c + 2 * F->epw + 3; } if (s == 4) { m = c > 9 ? c - 9 : 1; n = c + 17; }
      if (m > cap || l > cap || n > cap) continue; if (CASE("k=%d cutoff %d product %dx%dx%d", k, cut, m, l, n)) product(F, m, l, n, 4 + (i + s) % 4); }
    /* elimination around the size at which the decomposition takes over */
    long bits = 2L * __M4RIE_PLE_CUTOFF; int sq = 1; while ((long)sq * sq * F->w <= bits) sq++; /* smallest square on the other side */
    int ecap = k > 12 ? elim / 5 : k > 8 ? elim / 2 : elim;
    int es[][2] = {{sq - 1, sq - 1}, {sq, sq}, {sq + 1, sq + 7}, {2 * sq, (sq + 1) / 2 + 1}, {(sq + 1) / 2 + 1, 2 * sq}, {sq / 4 + 1, 4 * sq + 5}, {4 * sq + 5, sq / 4 + 1}, {sq + 64, sq + 66}, {2 * sq + 3, 2 * sq + 1}, {17, 70}, {70, 17}, {65, 129}, {129, 65}, {131, 133}};
    for (int i = 0; i < 14; i++) for (int fam = 0; fam < NPIVFAM; fam++) { int m = es[i][0], n = es[i][1], mx = m < n ? m : n; if (m > ecap * 2 || n > ecap * 2 || (long)m * n > (long)ecap * ecap || m < k) continue; if (mc_tier < 2 && i < 9 && (i + fam + k) % (k > 8 ? 6 : 2)) continue; if (mc_tier < 2 && i >= 9 && (i + fam + k) % 4) continue;
      if (CASE("k=%d elimination %dx%d (switch at %d) pivots %d", k, m, n, sq, fam)) { eliminate(F, m, n, mx, fam, 4 + fam % 4, OWN); if (k <= 8) { eliminate(F, m, n, mx - 1, fam, 5, WINMID); eliminate(F, m, n, mx / 2, fam, 6, WINEND); } eliminate(F, m, n, 1 + fam, fam, 4, WINLEFT); } }
    /* number of tables per step: the column count at which it drops */
    for (int kk = 2; kk <= 7; kk++) { long nc = (long)(__M4RI_CPU_L2_CACHE / 2.0 * 8 / (6.0 * (1 << kk))); for (int d = -1; d <= 1; d++) { long n = nc + d; if (n < 2 || n * F->w > 60000 || k > 10) continue; int m = kk < 5 ? 12 : 40; if (n > 3000 && mc_tier < 2) continue; if (CASE("k=%d table count, %ld columns", k, n)) eliminate(F, m, n, m, 1, 4, OWN); } }
    int ts[] = {k > 10 ? 20 : 40, 63, 64, 65, 100, 128, 129, 200, cut + 1, 2 * cut + 1, 257}; for (int i = 0; i < 11; i++) { int n = ts[i]; if (n < 1 || n > (k > 10 ? cap : 260)) continue; if (CASE("k=%d triangular %d", k, n)) { solve(F, n, n, 4); solve(F, n, F->epw + 1, 5); solve(F, n, 130, 6); } }
  }
  /* the switch to Karatsuba at 512 does not depend on the configuration; once per configuration */
  for (int k = 2; k <= TIER(0, 4, 8); k++) for (int d = -1; d <= 1; d++) if (CASE("k=%d product at %d", k, 512 + d)) product(field(k, 0), 512, 512 + d, 512, 4);
}

/* C14: echelon forms, packed and sliced, all routes, reduced or not. */
#include "mc.h"
#include <m4rie/echelonform.h>
#include <m4rie/newton_john.h>

typedef struct { const char *name; rci_t (*p)(mzed_t *, int); rci_t (*s)(mzd_slice_t *, int); } Algo;
static rci_t s_ech(mzd_slice_t *A, int full) { return mzd_slice_echelonize(A, full); }
static const Algo AL[] = {{"mzed_echelonize", mzed_echelonize, 0}, {"mzed_echelonize_naive", mzed_echelonize_naive, 0}, {"mzed_echelonize_newton_john", mzed_echelonize_newton_john, 0},
  {"mzed_echelonize_ple", mzed_echelonize_ple, 0}, {"mzd_slice_echelonize_ple", 0, mzd_slice_echelonize_ple}, {"mzd_slice_echelonize", 0, s_ech}};
#define NAL 6
enum { AUTO = 1, NAIVE = 2, NJ = 4, PLE = 8, SPLE = 16, SAUTO = 32, ALL = 63 };

static void ech(const Fld *F, const Mat *A, unsigned set, int pl) {
  int m = A->r, n = A->c; Mat *R = mat_dup(A); int rank = mat_rref(F, R); static const int fulls[] = {1, 2, -1, 1, 3, 200, 1, -2147483647 - 1, 64}; /* any non-zero value asks for the reduced form */
  for (int x = 0, y = 0; x < NAL; x++) if (set >> x & 1) for (int ff = 0; ff < 2; ff++) { const Algo *a = AL + x; int full = ff ? fulls[(pl + x + m + n) % 9] : 0, place = (pl + y++) % NPLACE;
    mc_sub("%s %dx%d rank %d full %d %s", a->name, m, n, rank, full, place_name[place]); mc_trans(1);
    Mat *X; int r;
    if (a->p) { PM *p = pm_new(F, A, place); r = a->p(p->m, full); if (full) { X = NULL; pm_check(p, R, a->name); } else { X = pm_read(p); pm_check(p, X, a->name); } pm_free(p); }
    else { SM *p = sm_new(F, A, place); r = a->s(p->m, full); X = full ? R : sm_read(p);
      mc_loose = place != OWN && n % 64 && n > 64 && (long)F->w * m * n > __M4RIE_PLE_CUTOFF; mc_loose_hits = 0; sm_check(p, X, a->name); if (mc_loose_hits) mc_note("known:m4ri-compress-lastword", 1); mc_loose = 0; sm_free(p); if (full) X = NULL; }
    CHECK(r == rank, "%s: rank %d reported, the rank is %d", a->name, r, rank);
    if (X) { CHECK(mat_is_ref(X, rank), "%s: not an echelon form with leading ones and zero rows last", a->name); CHECK((mat_rref(F, X), mat_eq(X, R)), "%s: the row space changed", a->name); }
  }
}
static Mat *enum_mat(const Fld *F, int r, int c, uint64_t code) { Mat *M = mat_new(r, c); for (int i = 0; i < r * c; i++) { M->v[i] = code & (F->q - 1); code >>= F->k; } return M; }

PROPERTY(C14) {
  /* (1) every small matrix */
  static const int sm[][3] = {{2, 1, 1}, {2, 1, 2}, {2, 2, 1}, {2, 1, 3}, {2, 3, 1}, {2, 2, 2}, {2, 2, 3}, {2, 3, 2}, {2, 1, 5}, {2, 5, 1}, {2, 3, 3}, {3, 1, 1}, {3, 1, 2}, {3, 2, 1}, {3, 2, 2}, {3, 1, 4}, {3, 4, 1}, {4, 1, 2}, {4, 2, 1}, {4, 2, 2}, {3, 2, 3}, {2, 4, 2}, {2, 2, 4}};
  for (int s = 0; s < 23; s++) { int bits = sm[s][0] * sm[s][1] * sm[s][2]; uint64_t tot = 1ULL << bits; if (bits > TIER(8, 18, 18)) continue;
    for (int part = 0; part < (tot < 64 ? 1 : 64); part++) if (CASE("all %dx%d over GF(%d) part %d", sm[s][1], sm[s][2], 1 << sm[s][0], part)) { Fld *F = field(sm[s][0], 0);
      int np = tot < 64 ? 1 : 64, st = mc_tier == 1 && bits > 15 ? 7 : 1; for (uint64_t c = part; c < tot; c += np * st) ech(F, enum_mat(F, sm[s][1], sm[s][2], c), bits > 12 ? NAIVE | NJ | SPLE | (c % 4 == 0 ? ALL : 0) : ALL, c % 12); } }
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0), *G = field(k, -1); int e = F->epw;
    /* (2) prescribed rank and pivot columns, dimensions around words; many-row shapes raise the number of tables per step */
    int ds[] = {1, 2, 3, 5, 8, 9, 16, 17, 33, 63, 64, 65, 70, 129, 200}, cs[] = {1, 2, 3, e - 1, e, e + 1, 2 * e, 2 * e + 1, 63, 64, 65, 70, 127, 128, 130, 193};
    for (int di = 0; di < 15; di++) for (int ci = 0; ci < 16; ci++) for (int fam = 0; fam < NPIVFAM; fam++) {
      int m = ds[di], n = cs[ci], id = di * 5 + ci * 3 + fam * 7 + k, big = m > 17 && n > 40; if (mc_tier == 0 && (id % 37 || (k > 8 && big))) continue;
      if (mc_tier == 1 && big && id % (k > 8 ? 11 : k > 4 ? 5 : 3)) continue; if (k > 8 && mc_tier == 1 && id % 3) continue; if (k > 12 && mc_tier < 2 && id % 9) continue; if (mc_tier == 2 && k > 8 && big && id % 5) continue;
      if (CASE("k=%d %dx%d pivots %d", k, m, n, fam)) { int mx = m < n ? m : n; for (int t = 0; t < (k > 11 ? 2 : TIER(2, big ? 3 : 4, 6)); t++) { int r = t == 0 ? mx : t == 1 ? mx - 1 : t == 2 ? (mx + 1) / 2 : t == 3 ? 1 : mx * t / 7; if (r < 0) continue; int piv[256]; r = piv_family(fam, n, r, piv);
        if (k > 8 && r > 40) r = 40; if (k > 12 && r > 6) r = 6 - t; ech(t == 1 ? G : F, mat_rank(F, m, n, r, piv, 4 + (id + t) % 4, t % 3), k > 12 ? (t % 2 ? NAIVE | AUTO : 4u << id % 4) : k > 8 && big ? 1u << id % 6 | 1u << (id / 6) % 6 : ALL, id + t); } } }
    /* longer than 2^16 in one direction: dense, and with nothing before row or column 66000 */
    for (int b = 0; b < 4; b++) if (LONG(k) && CASE("k=%d long %s%s", k, b % 2 ? "3x70000" : "70000x3", b / 2 ? ", starting late" : "")) { int m = b % 2 ? 3 : 70000, n = b % 2 ? 70000 : 3; Mat *A = mat_pat(F, m, n, 4 + k % 6);
      if (b / 2) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (i + j < 66000) AT(A, i, j) = 0;
      ech(F, A, k <= 8 ? ALL : NAIVE, k); }
    /* (3) rows equal or proportional, zero columns and rows in between */
    if (CASE("k=%d repeated rows and zero bands", k)) for (int s = 0; s < TIER(2, 8, 24); s++) { int m = 3 + s * 5 % 31, n = 2 + s * 11 % 67; if (k > 12) { m = 3 + s % 5; n = 2 + s % 9; } Mat *A = mat_pat(F, m, n, 4 + s % 4);
      for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { if (s % 4 < 2 && i % 3) AT(A, i, j) = fe_mul(F, 1 + (i * 7 + s) % (F->q - 1), AT(A, i - i % 3, j)); if (s & 1 && j % 4 < 2) AT(A, i, j) = 0; if (s & 2 && i % 5 == 2) AT(A, i, j) = 0; }
      ech(F, A, ALL, s); }
    if (mc_tier && CASE("k=%d zero and identity", k)) for (int s = 0; s < 6; s++) { static const int d[][2] = {{1, 1}, {3, 2}, {2, 3}, {64, 64}, {65, 63}, {5, 130}}; ech(F, mat_new(d[s][0], d[s][1]), ALL, s); if (k <= 12) ech(F, mat_id(d[s][0] > 20 && k > 8 ? 20 : d[s][0]), ALL, s); }
    /* (4) decomposition based reduction: rank next to word boundaries, columns after it */
    { static const int rs[] = {1, 31, 62, 63, 64, 65, 66, 127, 128, 129}, ex[] = {0, 1, 2, 62, 63, 64, 65, 130}; for (int ri = 0; ri < 10; ri++) for (int xi = 0; xi < 8; xi++) for (int dm = 0; dm < 2; dm++) { int id = ri * 3 + xi * 5 + dm * 7 + k; if (mc_tier == 0 && (id % 19 || k > 6)) continue; if (mc_tier == 1 && k > 4 && id % (k > 8 ? 23 : 5)) continue; if (mc_tier == 2 && k > 8 && id % 5) continue; if (k > 10 && rs[ri] > 66) continue;
      if (CASE("k=%d rank %d plus %d columns, %d more rows", k, rs[ri], ex[xi], dm * 3)) for (int fam = 0; fam < (k > 8 ? 1 : TIER(1, 3, NPIVFAM)); fam++) { int n = rs[ri] + ex[xi], piv[512]; int r = piv_family((fam + id) % NPIVFAM, n, rs[ri], piv); ech(F, mat_rank(F, rs[ri] + 3 * dm, n, r, piv, 4 + fam, fam % 3), PLE | SPLE, id + fam); } } }
    /* (5) the automatic choices around their crossovers (decomposition and recursion inside it) */
    { int lim = 2 * __M4RIE_PLE_CUTOFF / F->w, side = 1; while (side * side <= lim) side++;
      int sh[][2] = {{side, side}, {side - 1, side}, {200, lim / 200 + 1}, {lim / 90 + 1, 90}, {side * 5 / 7, side * 5 / 7 + 1}, {side * 5 / 7 - 2, side * 5 / 7}};
      for (int s = 0; s < 6; s++) { if (mc_tier == 0 || (mc_tier == 1 && !(s == k % 6 && k <= 8)) || (k > 10 && s != 2)) continue;
        if (CASE("k=%d automatic %dx%d", k, sh[s][0], sh[s][1])) { int m = sh[s][0], n = sh[s][1], *piv = ar_alloc(sizeof(int) * (n + m)); int r = piv_family(2 + (s + k) % 4, n, k > 8 ? 12 : 70, piv); ech(F, mat_rank(F, m, n, r, piv, 4, 2), k <= 8 ? AUTO | SAUTO : AUTO, s); } } }
    /* (6) structured inputs: single coefficients, one row or column, zero borders, equal rows or columns, diagonal, triangular, permutation, blocks; inputs in echelon form already */
    for (int pat = NPAT - 1; pat < NSTRUCT; pat++) { if (mc_tier == 0 && (pat + k) % 5) continue; if (CASE("k=%d structured %d", k, pat)) {
      static const int ss[][2] = {{3, 5}, {9, 18}, {17, 33}, {34, 20}, {33, 65}, {70, 66}, {140, 50}}; int mx = TIER(2, k <= 4 ? 7 : k <= 8 ? 5 : 2, k <= 8 ? 7 : 4);
      for (int s = 0; s < mx; s++) for (int v = 0; v < TIER(1, 3, 12); v++) { int m = ss[s][0] + v % 2, n = ss[s][1] + v, id = pat * 7 + s * 5 + v * 3 + k; if (k > 12 && (m > 10 || (v && mc_tier < 2))) continue;
        Mat *A = mat_pat(F, m, n, pat == NPAT - 1 ? P_BIT + (int)((long)m * n * F->k * (id % 12 + 1) / 12) - 1 : pat); if (v % 3 == 2) A = mat_mul(F, A, mat_pat(F, n, n, NPAT + (pat + v) % (NSTRUCT - NPAT))); if (v % 3 == 1 && id % 2) mat_rref(F, A);
        ech(id % 2 ? F : G, A, k > 12 ? NAIVE | (v ? 0 : NJ | AUTO) : ALL, id); } } }
    /* (7) blocks zero, equal or sums of one another */
    for (int a = 0; a < 256; a += 16) if ((mc_tier || (a / 16 + k) % 8 == 0) && CASE("k=%d blocks %d..%d", k, a, a + 15)) for (int ac = a; ac < a + 16; ac++) {
      if (mc_tier == 0 && ac % 8) continue; if (k <= 12 || ac % 16 == 5) ech(F, mat_quad(F, 9, e + 5, 4, e, ac), k > 12 ? NAIVE : ALL, ac);
      if (mc_tier == 0 || (k > 2 && (ac + k) % (k > 8 ? TIER(1, 64, 64) : TIER(1, 8, 5)))) continue;
      static const int ss[][4] = {{128, 128, 64, 64}, {66, 66, 33, 33}, {70, 128, 20, 64}, {40, 200, 20, 128}, {192, 64, 96, 32}}; const int *q = ss[(ac + ac / 16 + k) % 5];
      ech(F, mat_quad(F, q[0], q[1], q[2], q[3], ac), k > 8 ? 1u << ac % 6 : ALL, ac); }
  }
}

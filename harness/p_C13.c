/* C13: PLE and PLUQ decompositions. */
#include "mc.h"
#include <m4rie/ple.h>
#include <m4rie/newton_john.h>

static int cut;
static rci_t p_cut(mzed_t *A, mzp_t *P, mzp_t *Q) { return _mzed_ple(A, P, Q, cut); }
static rci_t s_cut(mzd_slice_t *A, mzp_t *P, mzp_t *Q) { return _mzd_slice_ple(A, P, Q, cut); }
static rci_t s_pluq(mzd_slice_t *A, mzp_t *P, mzp_t *Q) { return _mzd_slice_pluq(A, P, Q, cut); }
typedef struct { const char *name; rci_t (*p)(mzed_t *, mzp_t *, mzp_t *); rci_t (*s)(mzd_slice_t *, mzp_t *, mzp_t *); int pluq; } Algo;
static const Algo AL[] = {{"mzed_ple_naive", mzed_ple_naive, 0, 0}, {"mzed_ple_newton_john", mzed_ple_newton_john, 0, 0}, {"mzed_ple", mzed_ple, 0, 0}, {"_mzed_ple", p_cut, 0, 0},
  {"mzd_slice_ple", 0, mzd_slice_ple, 0}, {"_mzd_slice_ple", 0, s_cut, 0}, {"mzd_slice_pluq", 0, mzd_slice_pluq, 1}, {"_mzd_slice_pluq", 0, s_pluq, 1}};
#define NAL 8
enum { NAIVE = 1, NJ = 2, AUTO = 4 | 16 | 64, CUT = 8 | 32 | 128, ALL = 255 };

static void verify(const Fld *F, const char *name, const Mat *A, const Mat *X, int rank, const int *piv, int r, mzp_t *P, mzp_t *Q, int pluq) {
  int m = A->r, n = A->c;
  CHECK(r == rank, "%s: rank %d reported, the rank is %d", name, r, rank);
  CHECK(P->length == m && Q->length == n, "%s: permutation lengths changed", name);
  for (int i = 0; i < m; i++) CHECK(P->values[i] >= i && P->values[i] < m, "%s: P[%d] = %d", name, i, P->values[i]);
  for (int i = 0; i < r; i++) CHECK(Q->values[i] == piv[i], "%s: pivot %d in column %d, expected %d", name, i, Q->values[i], piv[i]);
  for (int i = 0; i < n; i++) CHECK(Q->values[i] >= i && Q->values[i] < n, "%s: Q[%d] = %d", name, i, Q->values[i]);
  Mat *L = mat_new(m, r), *E = mat_new(r, n), *PA = mat_dup(A);
  for (int i = 0; i < m; i++) for (int j = 0; j < r && j <= i; j++) AT(L, i, j) = AT(X, i, j);
  for (int i = 0; i < r; i++) { CHECK(AT(L, i, i), "%s: zero on the diagonal of L at %d", name, i); int s = pluq ? i : piv[i]; AT(E, i, s) = 1; for (int j = s + 1; j < n; j++) AT(E, i, j) = AT(X, i, j);
    if (!pluq) for (int j = i + 1; j < s; j++) CHECK(!AT(X, i, j), "%s: E(%d,%d) left of the pivot is 0x%x", name, i, j, AT(X, i, j)); }
  for (int i = r; i < m; i++) for (int j = r; j < n; j++) CHECK(!AT(X, i, j), "%s: entry (%d,%d) below the rank is 0x%x", name, i, j, AT(X, i, j));
  Mat *LE = mat_mul(F, L, E);
  if (pluq) for (int i = n - 1; i >= 0; i--) mat_colswap(LE, i, Q->values[i]);
  for (int i = 0; i < m; i++) mat_rowswap(PA, i, P->values[i]);
  CHECK(mat_eq(LE, PA), "%s: the factors do not multiply to P*A", name);
}
static void dec(const Fld *F, const Mat *A, unsigned set, int pl) {
  int m = A->r, n = A->c; Mat *R = mat_dup(A); int rank = mat_rref(F, R); int *piv = ar_zalloc(sizeof(int) * (rank + 1));
  for (int i = 0; i < rank; i++) while (!AT(R, i, piv[i])) piv[i]++;
  for (int x = 0, y = 0; x < NAL; x++) if (set >> x & 1) { const Algo *a = AL + x; int place = (pl + y++) % NPLACE;
    mc_sub("%s %dx%d rank %d %s cutoff %d", a->name, m, n, rank, place_name[place], cut); mc_trans(1);
    mzp_t *P = mzp_init(m), *Q = mzp_init(n);
    if ((pl + x) % 3 == 1) { for (int i = 0; i < m; i++) P->values[i] = m - 1; for (int i = 0; i < n; i++) Q->values[i] = n - 1; } /* old content */
    Mat *X; int r;
    if (a->p) { PM *p = pm_new(F, A, place); r = a->p(p->m, P, Q); X = pm_read(p); pm_check(p, X, a->name); pm_free(p); }
    else { SM *p = sm_new(F, A, place); r = a->s(p->m, P, Q); X = sm_read(p);
      /* libm4ri's _mzd_compress_l clears whole words: neighbours of a window that ends inside a word (recorded) */
      mc_loose = place != OWN && n % 64 && n > 64; mc_loose_hits = 0; sm_check(p, X, a->name); if (mc_loose_hits) mc_note("known:m4ri-compress-lastword", 1); mc_loose = 0; sm_free(p); }
    verify(F, a->name, A, X, rank, piv, r, P, Q, a->pluq);
    mzp_free(P); mzp_free(Q);
  }
}
static Mat *enum_mat(const Fld *F, int r, int c, uint64_t code) { Mat *M = mat_new(r, c); for (int i = 0; i < r * c; i++) { M->v[i] = code & (F->q - 1); code >>= F->k; } return M; }

PROPERTY(C13) {
  cut = 0;
  /* (1) every small matrix */
  static const int sm[][3] = {{2, 1, 1}, {2, 1, 2}, {2, 2, 1}, {2, 1, 3}, {2, 3, 1}, {2, 2, 2}, {2, 2, 3}, {2, 3, 2}, {2, 1, 5}, {2, 5, 1}, {2, 3, 3}, {3, 1, 1}, {3, 1, 2}, {3, 2, 1}, {3, 2, 2}, {3, 1, 4}, {3, 4, 1}, {4, 1, 2}, {4, 2, 1}, {4, 2, 2}, {3, 2, 3}};
  for (int s = 0; s < 21; s++) { int bits = sm[s][0] * sm[s][1] * sm[s][2]; uint64_t tot = 1ULL << bits; if (bits > TIER(8, 18, 18)) continue;
    for (int part = 0; part < (tot < 64 ? 1 : 64); part++) if (CASE("all %dx%d over GF(%d) part %d", sm[s][1], sm[s][2], 1 << sm[s][0], part)) { Fld *F = field(sm[s][0], 0);
      int np = tot < 64 ? 1 : 64, st = mc_tier == 1 && bits > 15 ? 7 : 1; for (uint64_t c = part; c < tot; c += np * st) dec(F, enum_mat(F, sm[s][1], sm[s][2], c), bits > 12 ? NAIVE | NJ | 16 | (c % 4 == 0 ? ALL : 0) : ALL, c % 12); } }
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0), *G = field(k, -1); int e = F->epw;
    /* (2) prescribed rank and pivot columns, dimensions around words */
    int ds[] = {1, 2, 3, 5, 8, 9, 16, 17, 33}, cs[] = {1, 2, 3, e - 1, e, e + 1, 2 * e, 2 * e + 1, 63, 64, 65, 70};
    for (int di = 0; di < 9; di++) for (int ci = 0; ci < 12; ci++) for (int fam = 0; fam < NPIVFAM; fam++) {
      int m = ds[di], n = cs[ci], id = di * 5 + ci * 3 + fam * 7 + k; if (mc_tier == 0 && id % 37) continue; if (k > 8 && mc_tier == 1 && id % 3) continue; if (k > 12 && mc_tier < 2 && id % 9) continue; if (k > 11 && m > 17 && mc_tier < 2) continue;
      if (CASE("k=%d %dx%d pivots %d", k, m, n, fam)) { int mx = m < n ? m : n; for (int t = 0; t < (k > 11 ? 2 : TIER(2, 4, 6)); t++) { int r = t == 0 ? mx : t == 1 ? mx - 1 : t == 2 ? (mx + 1) / 2 : t == 3 ? 1 : mx * t / 7; if (r < 0) continue; int piv[256]; r = piv_family(fam, n, r, piv);
        if (k > 12 && r > 6) r = 6 - t; dec(t == 1 ? G : F, mat_rank(F, m, n, r, piv, 4 + (id + t) % 4, t % 3), k > 12 && t % 2 ? NAIVE : ALL, id + t); } } }
    /* longer than 2^16 in one direction: dense, and with nothing before row or column 66000 */
    for (int b = 0; b < 4; b++) if (LONG(k) && CASE("k=%d long %s%s", k, b % 2 ? "3x70000" : "70000x3", b / 2 ? ", starting late" : "")) { int m = b % 2 ? 3 : 70000, n = b % 2 ? 70000 : 3; Mat *A = mat_pat(F, m, n, 4 + k % 6);
      if (b / 2) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (i + j < 66000) AT(A, i, j) = 0;
      dec(F, A, k <= 8 ? ALL & ~CUT : NAIVE, k); }
    /* (3) recursion: every cutoff, rank and pivot distribution over the halves */
    { static const int cuts[] = {1, 64, 600, 4096, 20000, 66000}, ns[] = {65, 66, 96, 127, 128, 129, 130, 191, 192, 193, 200, 256, 257, 320}, msz[] = {1, 2, 5, 17, 40, 64, 65, 90, 128, 130};
      for (int c = 0; c < 6; c++) for (int ni = 0; ni < 14; ni++) for (int mi = 0; mi < 10; mi++) { int id = c * 5 + ni * 7 + mi * 3 + k;
        if (mc_tier == 0 && (id % 61 || k > 6)) continue; if (mc_tier == 1 && id % (k > 12 ? 211 : k > 8 ? 83 : k > 4 ? 13 : 5)) continue; if (mc_tier == 2 && k > 8 && id % (k > 12 ? 37 : 11)) continue;
        if (CASE("k=%d %dx%d cutoff %d", k, msz[mi], ns[ni], cuts[c])) { int m = msz[mi], n = ns[ni], mx = m < n ? m : n, nf = k > 8 ? 1 : NPIVFAM;
          for (int f = 0; f < nf; f++) for (int t = 0; t < TIER(1, k > 8 ? 1 : 2, 4); t++) { int fam = k > 8 ? id % NPIVFAM : f, tt = (t * 2 + id + f) % 5, r = tt == 0 ? mx : tt == 1 ? mx - 1 : tt == 2 ? (mx + 1) / 2 : tt == 3 ? mx / 3 : 0; int piv[512]; if (k > 8 && r > 20) r = 20; r = piv_family(fam, n, r, piv);
            cut = cuts[c]; dec(F, mat_rank(F, m, n, r, piv, 4 + (id + t) % 4, (f + t) % 3), k > 8 ? CUT & (8 << 2 * (id % 3)) : CUT, id + f); cut = 0; } } } }
    /* many rows or many columns */
    { static const int bs[][2] = {{400, 200}, {390, 193}, {200, 450}, {193, 390}, {520, 130}, {130, 520}}; if (k <= TIER(2, 4, 8)) for (int s = 0; s < 6; s++) for (int t = 0; t < TIER(1, 2, 6); t++) if ((mc_tier || s % 3 == 0) && CASE("k=%d recursion %dx%d variant %d", k, bs[s][0], bs[s][1], t)) { int m = bs[s][0], n = bs[s][1], mx = m < n ? m : n, piv[600], r = t == 0 ? mx : t == 1 ? mx / 2 : t == 2 ? mx - 1 : mx * t / 7; r = piv_family((s + t + k) % NPIVFAM, n, r, piv);
      cut = t % 2 ? 20000 : 1; dec(F, mat_rank(F, m, n, r, piv, 4 + (s + t) % 4, t % 3), CUT, s + t); cut = 0; } }
    if (mc_tier && k <= 8) for (int pl = 0; pl < 4; pl++) for (int f = 0; f < NPIVFAM; f++) if (CASE("k=%d recursion placement %d pivots %d", k, pl, f)) { int piv[256]; int r = piv_family(f, 150, 37, piv); cut = 1; Mat *A = mat_rank(F, 40, 150, r, piv, 4, 2); for (int x = 0; x < NAL; x++) if (CUT >> x & 1) dec(F, A, 1u << x, pl); cut = 0; }
    /* (4) automatic choice around its crossover */
    { int lim = __M4RIE_PLE_CUTOFF / F->w, side = 1; while (side * side <= lim) side++;
      int sh[][2] = {{side, side}, {side - 1, side}, {side + 1, side - 1}, {200, lim / 200 + 1}, {lim / 70 + 1, 70}};
      for (int s = 0; s < 5; s++) { if (mc_tier == 0 || (mc_tier == 1 && !(s == k % 5 && k <= 8)) || (k > 10 && s != 1)) continue;
        if (CASE("k=%d automatic %dx%d", k, sh[s][0], sh[s][1])) { int m = sh[s][0], n = sh[s][1], *piv = ar_alloc(sizeof(int) * (n + m)); int r = piv_family(2 + (s + k) % 4, n, k > 8 ? 12 : 70, piv); dec(F, mat_rank(F, m, n, r, piv, 4, 2), k <= 8 ? AUTO : 4 << 2 * (k % 3), s); } } }
    /* (5) structured inputs: single coefficients, one row or column, zero borders, equal rows or columns, diagonal, triangular, permutation, blocks */
    for (int pat = NPAT - 1; pat < NSTRUCT; pat++) { if (mc_tier == 0 && (pat + k) % 5) continue; if (CASE("k=%d structured %d", k, pat)) {
      static const int ss[][2] = {{3, 5}, {9, 18}, {17, 33}, {34, 20}, {33, 65}, {70, 66}, {40, 150}}; int mx = TIER(2, k <= 4 ? 7 : k <= 8 ? 5 : 2, k <= 8 ? 7 : 4);
      for (int s = 0; s < mx; s++) for (int v = 0; v < TIER(1, 3, 12); v++) { int m = ss[s][0] + v % 2, n = ss[s][1] + v, id = pat * 7 + s * 5 + v * 3 + k; if (k > 12 && (m > 10 || (v && mc_tier < 2))) continue;
        Mat *A = mat_pat(F, m, n, pat == NPAT - 1 ? P_BIT + (int)((long)m * n * F->k * (id % 12 + 1) / 12) - 1 : pat); if (v % 3 == 2) A = mat_mul(F, A, mat_pat(F, n, n, NPAT + (pat + v) % (NSTRUCT - NPAT)));
        dec(id % 2 ? F : G, A, k > 12 ? NAIVE | (v ? 0 : NJ | AUTO) : ALL & ~CUT, id); if (n > 64) { cut = 1; dec(F, A, k > 8 ? 32 : CUT, id); cut = 0; } } } }
    /* (6) blocks zero, equal or sums of one another: Schur complements vanish, halves without a pivot or with all of them */
    for (int a = 0; a < 256; a += 16) if ((mc_tier || (a / 16 + k) % 8 == 0) && CASE("k=%d blocks %d..%d", k, a, a + 15)) for (int ac = a; ac < a + 16; ac++) {
      if (mc_tier == 0 && ac % 8) continue; if (k <= 12 || ac % 16 == 5) dec(F, mat_quad(F, 9, e + 5, 4, e, ac), k > 12 ? NAIVE : ALL & ~CUT, ac);
      if (mc_tier == 0 || (k > 2 && (ac + k) % (k > 8 ? TIER(1, 64, 32) : TIER(1, 8, 3)))) continue;
      static const int ss[][4] = {{128, 128, 64, 64}, {130, 130, 64, 64}, {70, 128, 20, 64}, {40, 200, 20, 128}, {192, 128, 96, 64}}; const int *q = ss[(ac + ac / 16 + k) % 5];
      cut = ac % 3 == 0 ? 20000 : 1; dec(F, mat_quad(F, q[0], q[1], q[2], q[3], ac), k > 8 ? 32 : CUT, ac); cut = 0; }
  }
}

/* C12: triangular solving, packed and sliced, all routes. */
#include "mc.h"
#include <m4rie/trsm.h>
#include <m4rie/newton_john.h>

static int cut;
static void pu(const mzed_t *T, mzed_t *B) { _mzed_trsm_upper_left(T, B, cut); }
static void plo(const mzed_t *T, mzed_t *B) { _mzed_trsm_lower_left(T, B, cut); }
static void su(const mzd_slice_t *T, mzd_slice_t *B) { _mzd_slice_trsm_upper_left(T, B, cut); }
static void slo(const mzd_slice_t *T, mzd_slice_t *B) { _mzd_slice_trsm_lower_left(T, B, cut); }
typedef struct { const char *name; void (*p)(const mzed_t *, mzed_t *); void (*s)(const mzd_slice_t *, mzd_slice_t *); int up, rt; } Algo;
enum { R_AUTO = 1, R_NAIVE = 2, R_NJ = 4, R_CUT = 8, R_ALL = 15 };
static const Algo AL[] = {
  {"mzed_trsm_upper_left", mzed_trsm_upper_left, 0, 1, R_AUTO}, {"mzed_trsm_lower_left", mzed_trsm_lower_left, 0, 0, R_AUTO},
  {"mzed_trsm_upper_left_naive", mzed_trsm_upper_left_naive, 0, 1, R_NAIVE}, {"mzed_trsm_lower_left_naive", mzed_trsm_lower_left_naive, 0, 0, R_NAIVE},
  {"mzed_trsm_upper_left_newton_john", mzed_trsm_upper_left_newton_john, 0, 1, R_NJ}, {"mzed_trsm_lower_left_newton_john", mzed_trsm_lower_left_newton_john, 0, 0, R_NJ},
  {"_mzed_trsm_upper_left", pu, 0, 1, R_CUT}, {"_mzed_trsm_lower_left", plo, 0, 0, R_CUT},
  {"mzd_slice_trsm_upper_left", 0, mzd_slice_trsm_upper_left, 1, R_AUTO}, {"mzd_slice_trsm_lower_left", 0, mzd_slice_trsm_lower_left, 0, R_AUTO},
  {"mzd_slice_trsm_upper_left_naive", 0, mzd_slice_trsm_upper_left_naive, 1, R_NAIVE}, {"mzd_slice_trsm_lower_left_naive", 0, mzd_slice_trsm_lower_left_naive, 0, R_NAIVE},
  {"mzd_slice_trsm_upper_left_newton_john", 0, mzd_slice_trsm_upper_left_newton_john, 1, R_NJ}, {"mzd_slice_trsm_lower_left_newton_john", 0, mzd_slice_trsm_lower_left_newton_john, 0, R_NJ},
  {"_mzd_slice_trsm_upper_left", 0, su, 1, R_CUT}, {"_mzd_slice_trsm_lower_left", 0, slo, 0, R_CUT}};
#define NAL ((int)(sizeof AL / sizeof *AL))
#define PACKED 0x100
#define SLICED 0x200

static Mat *subst(const Fld *F, const Mat *T, const Mat *B, int up) { /* textbook substitution */
  int n = T->r; Mat *X = mat_dup(B);
  for (int s = 0; s < n; s++) { int i = up ? n - 1 - s : s; E d = fe_inv(F, AT(T, i, i));
    for (int j = 0; j < B->c; j++) AT(X, i, j) = fe_mul(F, d, AT(X, i, j));
    for (int l = up ? 0 : i + 1; l < (up ? i : n); l++) { E t = AT(T, l, i); if (t) for (int j = 0; j < B->c; j++) AT(X, l, j) ^= fe_mul(F, t, AT(X, i, j)); } }
  return X;
}
/* xs: the solution, or (xs == NULL) rhs: the right-hand side */
static void solve2(const Fld *F, const Mat *T, const Mat *xs, const Mat *rhs, int rt, int pa, int pb) {
  int n = T->r; Mat *B[2], *Xs[2];
  if (!xs) for (int up = 0; up < 2; up++) { B[up] = mat_dup(rhs); Xs[up] = subst(F, T, rhs, up); }
  else for (int up = 0; up < 2; up++) { Mat *Z = mat_dup(T); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (up ? j < i : j > i) AT(Z, i, j) = 0; B[up] = mat_mul(F, Z, xs); Xs[up] = mat_dup(xs); }
  for (int x = 0; x < NAL; x++) { const Algo *a = AL + x; if (!(a->rt & rt) || !(rt & (a->p ? PACKED : SLICED))) continue;
    mc_sub("%s n=%d cols=%d T %s B %s cutoff %d", a->name, n, B[0]->c, place_name[pa], place_name[pb], cut); mc_trans(1);
    if (a->p) { PM *t = pm_new(F, T, pa), *b = pm_new(F, B[a->up], pb); a->p(t->m, b->m); pm_check(b, Xs[a->up], a->name); pm_check(t, T, "triangular operand"); pm_free(t); pm_free(b); }
    else { SM *t = sm_new(F, T, pa), *b = sm_new(F, B[a->up], pb); a->s(t->m, b->m); sm_check(b, Xs[a->up], a->name); sm_check(t, T, "triangular operand"); sm_free(t); sm_free(b); }
  }
}
static void solve(const Fld *F, const Mat *T, const Mat *X, int rt, int pa, int pb) { solve2(F, T, X, NULL, rt, pa, pb); }
static void solve_rhs(const Fld *F, const Mat *T, const Mat *B, int rt, int pa, int pb) { solve2(F, T, NULL, B, rt, pa, pb); }
/* square matrix with non-zero diagonal; both triangles filled */
static Mat *tri(const Fld *F, int n, int pat) {
  Mat *T = mat_pat(F, n, n, pat == 0 ? 0 : pat == 1 ? 4 : pat == 2 ? 2 : pat == 3 ? 7 : 5 + pat % 6);
  for (int i = 0; i < n; i++) { E d = pat == 0 ? 1 : pat == 2 ? F->q - 1 : 1 + mc_hash(i, n, pat, F->k) % (F->q - 1); AT(T, i, i) = d; }
  if (pat == 0) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) AT(T, i, j) = (i + j) % 2;
  return T;
}
/* structured triangular operand: zero off-diagonal except one coefficient, the named pattern elsewhere; diagonal kinds: ones, all 2, high coefficients only, one entry not 1, all different */
static Mat *tri_struct(const Fld *F, int n, int pat, int dk) {
  Mat *T = mat_pat(F, n, n, pat);
  for (int i = 0; i < n; i++) AT(T, i, i) = dk == 0 ? 1 : dk == 1 ? 2 : dk == 2 ? 1u << (F->k - 1) : dk == 3 ? (i == n - 1 ? F->q - 1 : 1) : dk == 4 ? (i == 0 ? 2 : 1) : 1 + mc_hash(i, n, pat, F->k) % (F->q - 1);
  return T;
}
/* right-hand side spanning everything: columns X^a e_i */
static Mat *allbasis(const Fld *F, int n) { Mat *X = mat_new(n, n * F->k); for (int i = 0; i < n; i++) for (int a = 0; a < F->k; a++) AT(X, i, i * F->k + a) = 1u << a; return X; }

PROPERTY(C12) {
  cut = 64;
  /* (1) every 1x1, 2x2 (and 3x3 over GF(4)) triangular matrix, all right-hand sides (by linearity: all basis columns) */
  for (int k = 2; k <= 16; k++) for (int part = 0; part < 16; part++) if (CASE("k=%d all 1x1 part %d", k, part)) { Fld *F = field(k, 0); int step = k > 9 ? TIER(1023, 61, 7) : 1; for (int d = 1 + part * step; d < F->q; d += 16 * step) { Mat *T = mat_new(1, 1); T->v[0] = d; solve(F, T, allbasis(F, 1), (d / step % 4 ? R_NAIVE : R_ALL) | PACKED | (d / step % 8 == 1 ? SLICED : 0), OWN, OWN); } }
  for (int k = 2; k <= TIER(2, 3, 4); k++) for (int d0 = 1; d0 < 1 << k; d0++) for (int d1 = 1; d1 < 1 << k; d1++) { if (k == 4 && (d0 + d1) % 3) continue; if (CASE("k=%d all 2x2 diagonal %d %d", k, d0, d1)) { Fld *F = field(k, 0); Mat *X = allbasis(F, 2);
    for (int a = 0; a < F->q; a++) for (int b = 0; b < F->q; b++) { Mat *T = mat_new(2, 2); T->v[0] = d0; T->v[1] = a; T->v[2] = b; T->v[3] = d1; solve(F, T, X, R_ALL | PACKED | (k == 2 || a == b ? SLICED : 0), OWN, OWN); } } }
  for (int d = 0; d < 27; d++) if (mc_tier && CASE("k=2 all 3x3 diagonal %d", d)) { Fld *F = field(2, 0); Mat *X = allbasis(F, 3);
    for (int o = 0; o < 64; o++) { Mat *T = mat_new(3, 3); T->v[0] = 1 + d % 3; T->v[4] = 1 + d / 3 % 3; T->v[8] = 1 + d / 9; T->v[1] = o & 3; T->v[2] = o >> 2 & 3; T->v[5] = o >> 4; T->v[3] = T->v[1]; T->v[6] = T->v[5]; T->v[7] = T->v[2]; solve(F, T, X, R_NAIVE | R_NJ | PACKED | (o % 4 == 0 ? SLICED : 0), OWN, OWN); } }
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0), *G = field(k, -1); int e = F->epw;
    /* (2) dimensions around the word and table thresholds, every placement */
    int dims[64], nd = 0; { static const int base[] = {2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65}; for (int i = 0; i < 16; i++) dims[nd++] = base[i]; }
    int ws[] = {1, 2, e - 1, e, e + 1, 2 * e, 2 * e + 1, 64, 65, 129};
    for (int d = 0; d < nd; d++) for (int w = 0; w < 10; w++) {
      int id = d * 3 + w * 5 + k; if (mc_tier == 0 && id % 29) continue; if (mc_tier == 1 && id % (k > 8 ? 5 : 2)) continue; if (mc_tier == 0 && k > 8 && dims[d] > 33) continue;
      if (CASE("k=%d n=%d cols=%d", k, dims[d], ws[w])) for (int pat = 0; pat < TIER(1, 3, 6); pat++) { int pl = id * 3 + pat * 5;
        solve(F, tri(F, dims[d], pat), mat_pat(F, dims[d], ws[w], 4 + pat), R_ALL | PACKED, pl % 4, pl / 4 % 4);
        solve(pat == 1 ? G : F, tri(F, dims[d], pat), mat_pat(F, dims[d], ws[w], 4 + pat), ((id + pat) % 3 == 0 ? R_ALL : 1 << (id + pat) % 4) | SLICED, pl / 2 % 4, pl / 8 % 4); } }
    if (mc_tier) for (int pl = 0; pl < 16; pl++) if (CASE("k=%d placements %d", k, pl)) { solve(F, tri(F, 9, 1), mat_pat(F, 9, e + 3, 5), R_ALL | PACKED | SLICED, pl % 4, pl / 4); cut = 64; solve(F, tri(F, 70, 3), mat_pat(F, 70, 67, 4), R_CUT | PACKED | (k <= 8 ? SLICED : 0), pl % 4, pl / 4); }
    /* (3) more rows than field elements: tables */
    { int q = F->q, ns[] = {q - 1, q, q + 1, q + 2, 2 * q + 1}; for (int i = 0; i < 5; i++) for (int w = 0; w < 3; w++) { int c = w == 0 ? 1 : w == 1 ? e + 1 : 3 * e - 1;
      if (k > TIER(5, 8, 10) || (k > 6 && mc_tier < 2 && (i + w + k) % 3) || (k > 8 && (i != 2 && i != 0)) || ns[i] < 1) continue;
      if (CASE("k=%d n=%d cols=%d around 2^k", k, ns[i], c)) for (int pat = 1; pat < TIER(2, k > 6 ? 2 : 5, 6); pat++) { solve(F, tri(F, ns[i], pat), mat_pat(F, ns[i], c, 4 + pat), R_ALL | PACKED, (i + pat) % 4, (w + pat * 3) % 4); if (w == i % 3) solve(F, tri(F, ns[i], pat), mat_pat(F, ns[i], c, 4 + pat), R_NJ | R_AUTO | SLICED, (i + pat) % 4, (w + pat) % 4); } } }
    /* (4) recursion: all cutoffs */
    { static const int cs[] = {64, 65, 66, 96, 127, 128}, ns[] = {65, 66, 97, 127, 128, 129, 130, 192, 193, 200, 257}, ws[] = {65, 66, 100, 128, 129, 200};
      for (int c = 0; c < 6; c++) for (int n = 0; n < 11; n++) for (int w = 0; w < 6; w++) { int id = c * 5 + n * 7 + w * 3 + k;
        if (mc_tier == 0 && (id % 67 || k > 8)) continue; if (mc_tier == 1 && id % (k > 8 ? 47 : k > 4 ? 17 : 9)) continue; if (mc_tier == 2 && k > 8 && id % 5) continue;
        if (CASE("k=%d n=%d cols=%d cutoff %d", k, ns[n], ws[w], cs[c])) { cut = cs[c]; for (int pat = 1; pat < TIER(2, 3, 4); pat++) solve(F, tri(F, ns[n], pat), mat_pat(F, ns[n], ws[w], 4 + pat), R_CUT | (k > 8 && (id + pat) % 2 ? SLICED : PACKED | (id % 3 == 0 && k <= 8 ? SLICED : 0)), (id + pat) % 4, (id / 4 + pat) % 4); cut = 64; } } }
    /* (5) the automatic choice around its own crossover */
    if (LONG(k) && CASE("k=%d long right-hand side", k)) for (int n = 1; n < 4; n++) solve(F, tri(F, n, n), mat_pat(F, n, 70000, 4), (k <= 8 ? R_ALL : R_NAIVE) | PACKED | SLICED, n % 2, n / 2);
    { static const int big[][2] = {{512, 513}, {513, 513}, {513, 512}, {514, 576}, {640, 520}}; for (int s = 0; s < 5; s++) { if (mc_tier == 0 || (mc_tier == 1 && !(k <= 3 || (s == k % 5 && k <= 8) || (k == 12 && s == 1))) || (mc_tier == 2 && k > 10 && s != 1)) continue;
      if (CASE("k=%d automatic n=%d cols=%d", k, big[s][0], big[s][1])) { Mat *T = tri(F, big[s][0], 1), *X = mat_pat(F, big[s][0], big[s][1], 4); solve(F, T, X, R_AUTO | PACKED | (k <= 4 || mc_tier == 2 ? SLICED : 0), s % 4, (s + k) % 4); } } }
    /* (6) structured operands and solutions: diagonal, banded, zero borders, single off-diagonal coefficients, high or low coefficients only, equal rows, single-coefficient solutions */
    for (int pat = NPAT - 1; pat < NSTRUCT; pat++) for (int dk = 0; dk < 6; dk++) { if (mc_tier == 0 && (pat + dk + k) % 7) continue; if (mc_tier == 1 && k > 4 && (pat + dk + k) % (k > 8 ? 4 : 2)) continue;
      if (CASE("k=%d structured %d diagonal %d", k, pat, dk)) { static const int ss[][2] = {{3, 5}, {9, 18}, {20, 33}, {34, 65}, {70, 66}, {130, 100}}; int mx = k <= 4 ? 6 : k <= 8 ? 5 : 3; if (mc_tier < 2 && mx > 4) mx = 4 + (pat + dk) % 4 / 3; if (!mc_tier) mx = 2;
        for (int s = 0; s < mx; s++) { int n = ss[s][0], w = ss[s][1] - (s + pat + dk) % 3, id = pat * 7 + dk * 3 + s * 5 + k; int np = pat == NPAT - 1 ? P_BIT + ((id * 7 % n) * n + id * 11 % n) * F->k + id % F->k : pat;
          int xp = id % 3 == 0 ? P_BIT + (int)((long)n * w * F->k * (id % 10 + 1) / 10) - 1 : NPAT + (pat * 5 + dk + s) % (NSTRUCT - NPAT), rt = k > 8 && n > 20 ? R_AUTO | R_NAIVE : R_ALL; cut = 64;
          if (n < 65) rt &= ~R_CUT; else if (k > 4) rt = R_CUT;
          solve(id % 2 ? F : G, tri_struct(F, n, np, dk), mat_pat(F, n, w, xp), rt | PACKED | SLICED, id % 4, id / 4 % 4); } } }
    /* (7) more columns than one block of any table or recursion step, and very long triangles */
    { static const int lg[][2] = {{5, 700}, {66, 1025}, {260, 30}, {300, 3}}; for (int s = 0; s < 4; s++) { if (mc_tier == 0 || (mc_tier == 1 && k > 4 && s != k % 4) || (k > 8 && s > 1) || (k > 12 && s)) continue;
      if (CASE("k=%d long n=%d cols=%d", k, lg[s][0], lg[s][1])) { cut = 64; solve(F, tri(F, lg[s][0], 1 + s), mat_pat(F, lg[s][0], lg[s][1], 4 + s), (k > 8 ? R_AUTO : lg[s][0] < 65 ? R_ALL & ~R_CUT : R_ALL) | PACKED | SLICED, s, (s + k) % 4); } } }
    /* (8) chosen right-hand sides: blocks zero, equal or sums of one another, against triangles of such blocks; single rows, columns, coefficients; nothing at all */
    for (int a = 0; a < 256; a += 16) if ((mc_tier || (a / 16 + k) % 8 == 0) && CASE("k=%d right-hand side blocks %d..%d", k, a, a + 15)) for (int ac = a; ac < a + 16; ac++) {
      if (mc_tier == 0 && ac % 8) continue; static const int tc[] = {0x01, 0xff, 0x6d, 0xe4, 0x41, 0x7d}; Mat *T = mat_quad(F, 9, 9, 4, 4, tc[(ac + k) % 6]); for (int i = 0; i < 9; i++) AT(T, i, i) = 1 + mc_hash(i, ac, 9, k) % (F->q - 1);
      solve_rhs(F, T, mat_quad(F, 9, e + 3, 4, e, ac), (k > 8 ? R_AUTO | R_NAIVE : R_ALL & ~R_CUT) | PACKED | SLICED, ac % 4, ac / 4 % 4);
      if (mc_tier == 0 || (k > 2 && (ac + k) % (k > 8 ? TIER(1, 64, 16) : TIER(1, 8, 2)))) continue;
      int n = (ac + k) % 3 == 0 ? 128 : (ac + k) % 3 == 1 ? 130 : 100; T = mat_quad(F, n, n, 64, 64, tc[(ac / 3 + k) % 6]); for (int i = 0; i < n; i++) AT(T, i, i) = 1 + mc_hash(i, ac, 9, k) % (F->q - 1);
      cut = 64; solve_rhs(F, T, mat_quad(F, n, n == 130 ? 128 : 131, 64, 64, ac), R_CUT | PACKED | SLICED, ac % 4, ac / 4 % 4); }
    for (int pat = 0; pat < NSTRUCT + 6; pat++) if ((mc_tier || (pat + k) % 7 == 0) && CASE("k=%d right-hand side pattern %d", k, pat)) {
      static const int ss[][2] = {{3, 5}, {9, 18}, {20, 33}, {70, 66}, {130, 100}}; int mx = k <= 4 ? 5 : k <= 8 ? 4 : 3; if (mc_tier == 0) mx = 2;
      for (int s = 0; s < mx; s++) { int n = ss[s][0], w = ss[s][1] - (s + pat) % 3, id = pat * 7 + s * 5 + k; long t = (long)n * w * F->k; cut = 64;
        Mat *B = mat_pat(F, n, w, pat < NSTRUCT ? pat : P_BIT + (int)(t * (pat - NSTRUCT) / 5) - (pat == NSTRUCT + 5)), *T = id % 3 ? tri(F, n, 1 + id % 5) : tri_struct(F, n, NPAT + id % (NSTRUCT - NPAT), id % 6);
        solve_rhs(id % 2 ? F : G, T, B, (n >= 65 ? R_CUT | (k <= 4 ? R_AUTO : 0) : k > 8 ? R_AUTO | R_NAIVE : R_ALL & ~R_CUT) | PACKED | SLICED, id % 4, id / 4 % 4); } }
  }
}

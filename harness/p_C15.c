/* C15: inversion. */
#include "mc.h"
#include <m4rie/newton_john.h>

static int tpat = 10;   /* previous content of existing targets */
/* tk: 0 NULL, 1..4 dirty target in placement tk-1, 5: B == A */
static void inv(const Fld *F, const Mat *A, int place, int tk) {
  int n = A->r; Mat *R = mat_dup(A); int rank = mat_rref(F, R); mc_trans(1);
  mc_sub("inverse of %dx%d (rank %d) %s target kind %d", n, n, rank, place_name[place], tk);
  PM *a = pm_new(F, A, place), *t = NULL; Mat *C0 = mat_pat(F, n, n, tpat);
  if (tk) t = pm_new(F, C0, tk - 1);
  if (rank < n) {
    CHECK(REFUSES(mzed_invert_newton_john(t ? t->m : NULL, a->m)), "singular matrix was not refused");
    pm_check(a, A, "operand of the refused inversion"); if (t) { pm_check(t, C0, "target of the refused inversion"); pm_free(t); } pm_free(a); return;
  }
  mzed_t *x = mzed_invert_newton_john(t ? t->m : NULL, a->m);
  CHECK(!t || x == t->m, "another object returned"); if (!t) t = pm_wrap(F, x, n, n);
  Mat *B = pm_read(t); CHECK(mat_eq(mat_mul(F, A, B), mat_id(n)), "A*B is not the identity"); CHECK(mat_eq(mat_mul(F, B, A), mat_id(n)), "B*A is not the identity");
  pm_check(t, B, "inverse");
  pm_check(a, A, "operand of inversion"); pm_free(t); pm_free(a);
}
static Mat *enum_mat(const Fld *F, int n, uint64_t code) { Mat *M = mat_new(n, n); for (int i = 0; i < n * n; i++) { M->v[i] = code & (F->q - 1); code >>= F->k; } return M; }
/* invertible by construction: rows permuted unit-lower times upper with non-zero diagonal */
static Mat *invertible(const Fld *F, int n, int pat) {
  if (pat == 0) return mat_id(n);
  if (pat == 1) { Mat *A = mat_new(n, n); for (int i = 0; i < n; i++) AT(A, i, n - 1 - i) = 1 + mc_hash(i, n, 1, 2) % (F->q - 1); return A; }
  if (pat == 2) { Mat *A = mat_new(n, n); for (int i = 0; i < n; i++) AT(A, i, (i + n / 2 + 1) % n) = F->q - 1; return A; }
  if (pat == 3) { Mat *A = mat_id(n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) AT(A, i, j) = F->q - 1 - (i + j) % 2; return A; }
  int *piv = ar_alloc(sizeof(int) * n); piv_family(0, n, n, piv); return mat_rank(F, n, n, n, piv, 4 + pat % 4, pat % 3);
}
PROPERTY(C15) {
  static const int sm[][2] = {{2, 1}, {3, 1}, {4, 1}, {5, 1}, {6, 1}, {7, 1}, {8, 1}, {2, 2}, {3, 2}, {4, 2}, {2, 3}};
  for (int s = 0; s < 11; s++) { int k = sm[s][0], n = sm[s][1], bits = k * n * n; uint64_t tot = 1ULL << bits; if (bits > TIER(8, 18, 18)) continue;
    for (int part = 0; part < (tot < 64 ? 1 : 64); part++) if (CASE("all %dx%d over GF(%d) part %d", n, n, 1 << k, part)) { Fld *F = field(k, 0);
      int np = tot < 64 ? 1 : 64, st = mc_tier == 1 && bits > 15 ? 3 : 1; for (uint64_t c = part; c < tot; c += np * st) inv(F, enum_mat(F, n, c), (c / 7) % NPLACE, (c / 64 + c) % 5); } }
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0), *G = field(k, -1); int e = F->epw;
    if (k > 8 && CASE("k=%d scalars", k)) for (int i = 0; i < TIER(3, 12, 64); i++) { Mat *A = mat_new(1, 1); A->v[0] = i < k ? 1 << i : mc_hash(i, k, 5, 5) & (F->q - 1); inv(F, A, i % 4, i % 5); }
    int ns[] = {2, 3, 4, 5, 7, 8, 9, e - 1, e, e + 1, 2 * e, 2 * e + 1, 3 * e - 1, 13, 31, 63, 64, 65, 100, 129};
    for (int ni = 0; ni < 20; ni++) for (int pat = 0; pat < 8; pat++) { int n = ns[ni], id = ni * 3 + pat * 5 + k; if (n < 1) continue;
      if (mc_tier == 0 && (id % 17 || (k > 8 && n > 9))) continue; if (k > 8 && mc_tier == 1 && (n > 33 || id % 3)) continue; if (k > 12 && n > (mc_tier == 2 ? 33 : 9)) continue; if (k > 12 && mc_tier == 1 && id % 2) continue; if (mc_tier == 2 && k > 8 && n > 65) continue;
      if (CASE("k=%d n=%d pattern %d", k, n, pat)) for (int t = 0; t < (k > 8 ? 1 : TIER(1, n < 20 ? 20 : 5, n < 70 ? 20 : 5)); t++) { inv(t % 2 ? G : F, invertible(F, n, pat + (pat > 3) * t), (t / 5 + id) % 4, (t + id) % 5);
        if (t == 1 && n > 1) { Mat *A = invertible(F, n, 4 + t); int z = id % n; for (int j = 0; j < n; j++) AT(A, z, j) = fe_mul(F, 1 + t, AT(A, (z + 1) % n, j)); inv(F, A, t % 4, (t + id) % 5); } } }
    /* structured matrices (the singular ones must be refused), targets with a single coefficient: first, last, around word boundaries; inverses of each other's content */
    for (int pat = NPAT - 1; pat < NSTRUCT; pat++) { if (mc_tier == 0 && (pat + k) % 5) continue; if (CASE("k=%d structured %d", k, pat)) {
      int ss[] = {2, 3, e - 1, e, e + 1, 9, 2 * e, 34, 65}, mx = mc_tier == 0 ? 3 : k <= 8 ? 9 : k <= 12 ? 6 : 3;
      for (int s = 0; s < mx; s++) for (int v = 0; v < TIER(1, 3, 8); v++) { int n = ss[s], id = pat * 7 + s * 5 + v * 3 + k; if (n < 2 || (k > 12 && v && mc_tier < 2)) continue; long t = (long)n * n * F->k;
        Mat *A = mat_pat(F, n, n, pat == NPAT - 1 ? 4 : pat); if (v % 3) for (int i = 0; i < n; i++) AT(A, i, v == 1 ? i : (i + 1) % n) ^= v == 1 ? 1 : F->q - 1;
        tpat = id % 4 == 0 ? P_BIT + (int)(t - 1) : id % 4 == 1 ? P_BIT : id % 4 == 2 ? P_BIT + (int)(t * (id % 11) / 11) : 14;
        inv(id % 2 ? F : G, A, id % 4, 1 + id % 4); tpat = 10; } } }
    /* the row operations behind inversion must also carry over more than one block of columns */
    { static const int lg[] = {150, 200, 258, 321, 520}; for (int s = 0; s < 5; s++) { if (mc_tier == 0 || (k > (s > 2 ? 3 : s ? 4 : 8) && mc_tier == 1) || k > 8) continue; if (CASE("k=%d large n=%d", k, lg[s])) { inv(F, invertible(F, lg[s], 4 + s), s % 4, (s + k) % 5); inv(G, invertible(F, lg[s], s + 1), (s + 2) % 4, (s + k + 1) % 5); } } }
    /* blocks zero, equal or sums of one another (half of them singular) */
    for (int a = 0; a < 256; a += 16) if ((mc_tier || (a / 16 + k) % 8 == 0) && CASE("k=%d blocks %d..%d", k, a, a + 15)) for (int ac = a; ac < a + 16; ac++) { if (mc_tier == 0 && ac % 8) continue; if (k > 12 && ac % 16 != a / 16) continue;
      inv(F, mat_quad(F, 8, 8, 4, 4, ac), ac % 4, ac % 5); if (k <= 4 && mc_tier) inv(F, mat_quad(F, 2 * e, 2 * e, e, e, ac), ac / 2 % 4, ac / 3 % 5); if (k <= 8 && ac % 16 == a / 16) inv(F, mat_quad(F, 66, 66, 33, 33, ac), ac % 4, ac % 5); }
  }
}

/* C16: permutations applied to rows and columns. */
#include "mc.h"
#include <m4rie/permutation.h>

typedef struct { const char *name; void (*p)(mzed_t *, mzp_t const *); void (*s)(mzd_slice_t *, mzp_t const *); int cols, back; } Op; /* back: from the last transposition to the first */
static const Op OP[] = {{"mzed_apply_p_left", mzed_apply_p_left, 0, 0, 0}, {"mzed_apply_p_left_trans", mzed_apply_p_left_trans, 0, 0, 1}, {"mzed_apply_p_right", mzed_apply_p_right, 0, 1, 1}, {"mzed_apply_p_right_trans", mzed_apply_p_right_trans, 0, 1, 0},
  {"mzd_slice_apply_p_left", 0, mzd_slice_apply_p_left, 0, 0}, {"mzd_slice_apply_p_left_trans", 0, mzd_slice_apply_p_left_trans, 0, 1}, {"mzd_slice_apply_p_right", 0, mzd_slice_apply_p_right, 1, 1}, {"mzd_slice_apply_p_right_trans", 0, mzd_slice_apply_p_right_trans, 1, 0}};
static void model(Mat *X, const int *v, int len, int cols, int back) {
  int d = cols ? X->c : X->r; if (len > d) len = d;
  for (int s = 0; s < len; s++) { int i = back ? len - 1 - s : s; if (cols) mat_colswap(X, i, v[i]); else mat_rowswap(X, i, v[i]); }
}
static void perm(const Fld *F, const Mat *A, const int *v, int len, unsigned set, int pl) {
  mzp_t *P = mzp_init(len); for (int i = 0; i < len; i++) P->values[i] = v[i];
  for (int o = 0; o < 8; o++) if (set >> o & 1) { const Op *op = OP + o; int place = (pl + o / 2) % NPLACE; const Op *un = OP + (o ^ 1);
    Mat *X = mat_dup(A); model(X, v, len, op->cols, op->back); mc_trans(2);
    mc_sub("%s %dx%d length %d %s [%d %d %d %d %d..]", op->name, A->r, A->c, len, place_name[place], v[0], len > 1 ? v[1] : 0, len > 2 ? v[2] : 0, len > 3 ? v[3] : 0, len > 4 ? v[4] : 0);
    if (op->p) { PM *p = pm_new(F, A, place); op->p(p->m, P); pm_check(p, X, op->name); un->p(p->m, P); pm_check(p, A, "permutation undone by its transpose"); pm_free(p); }
    else { SM *p = sm_new(F, A, place); op->s(p->m, P); sm_check(p, X, op->name); un->s(p->m, P); sm_check(p, A, "permutation undone by its transpose"); sm_free(p); }
    for (int i = 0; i < len; i++) CHECK(P->values[i] == v[i], "%s changed the permutation", op->name);
  }
  mzp_free(P);
}
/* columns permuted in the strictly upper part only: transposition i acts on rows 0..i-1 */
static void tri(const Fld *F, const Mat *A, const int *v, int len, int place) {
  mzp_t *P = mzp_init(len); for (int i = 0; i < len; i++) P->values[i] = v[i];
  Mat *X = mat_dup(A); for (int i = 0; i < len && i < A->c; i++) for (int r = 0; r < i && r < A->r; r++) { E t = AT(X, r, i); AT(X, r, i) = AT(X, r, v[i]); AT(X, r, v[i]) = t; }
  mc_sub("mzd_slice_apply_p_right_trans_tri %dx%d %s", A->r, A->c, place_name[place]); mc_trans(1);
  SM *p = sm_new(F, A, place); mzd_slice_apply_p_right_trans_tri(p->m, P); sm_check(p, X, "mzd_slice_apply_p_right_trans_tri"); sm_free(p); mzp_free(P);
}
static void mkperm(int *v, int len, int d, int kind) {
  for (int i = 0; i < len; i++) switch (kind) {
    case 0: v[i] = i; break;
    case 1: v[i] = d - 1 > i ? d - 1 : i; break;             /* everything with the last */
    case 2: v[i] = i + 1 < d ? i + 1 : i; break;               /* cycle */
    case 3: v[i] = i < d / 2 ? d - 1 - i : i; break;           /* reversal */
    case 4: v[i] = i + 64 < d ? i + 64 : i; break;             /* same bit, next word */
    case 5: v[i] = i % 64 < 32 && i + 32 < d ? i + 32 : i; break;
    case 6: v[i] = i == 0 && d > 1 ? d - 1 : i; break;         /* one swap over the whole width */
    case 7: v[i] = i == len - 1 ? d - 1 : i; break;
    default: v[i] = i + mc_hash(i, d, kind, 1) % (d - i); }
}
PROPERTY(C16) {
  /* (1) all transposition vectors up to length 5 on all dimensions from their length on */
  for (int k = 2; k <= 16; k += TIER(5, 1, 1)) for (int len = 1; len <= TIER(3, 5, 6); len++) for (int extra = 0; extra < 4; extra++) { if (len == 6 && k % 4 != 2) continue; if (CASE("k=%d all transpositions of length %d, dimension +%d", k, len, extra)) {
    Fld *F = field(k, 0); int d = len + (extra == 3 ? F->epw : extra), f = 1; for (int i = 0; i < len; i++) f *= d - i; if (extra == 3 && len > 2) f = TIER(40, 200, 2000);
    Mat *A = mat_pat(F, d, d, 4), *B = mat_pat(F, d, 3, 7), *C = mat_pat(F, 2, d, 9); int v[8];
    for (int c = 0; c < f; c += (f > 2000 && mc_tier < 2) ? 7 : 1) { int t = extra == 3 ? (int)(mc_hash(c, len, k, 2) & 0xfffffff) : c; for (int i = 0; i < len; i++) { v[i] = i + t % (d - i); t /= d - i; } perm(F, A, v, len, 0xff, c); if (c % 3 == 0) { perm(F, B, v, len, 0x33, c); perm(F, C, v, len, 0xcc, c); } if (d == len) tri(F, A, v, len, c % 4); } } }
  /* (2) structured permutations across word boundaries */
  for (int k = 2; k <= 16; k++) { Fld *F = field(k, 0); int e = F->epw, ds[] = {1, 2, 3, e - 1, e, e + 1, 2 * e, 2 * e + 1, 63, 64, 65, 127, 128, 129, 130, 192, 200};
    for (int di = 0; di < 17; di++) for (int kind = 0; kind < 12; kind++) { int d = ds[di], id = di * 5 + kind * 3 + k; if (d < 1) continue; if (mc_tier == 0 && id % 13) continue; if (mc_tier == 1 && id % 2 && k > 4) continue;
      if (CASE("k=%d dimension %d kind %d", k, d, kind)) for (int s = 0; s < 4; s++) { int len = s == 0 ? d : s == 1 ? (d + 1) / 2 : s == 2 ? d - 1 : 1, v[512]; if (len < 1) continue; mkperm(v, len, d, kind + 12 * s * (kind > 7));
        perm(F, mat_pat(F, 5, d, 4 + s), v, len, 0xcc, id + s); perm(F, mat_pat(F, d, 1 + s * e / 2, 4 + s), v, len, 0x33, id + s); if (mc_tier) perm(F, mat_pat(F, 70 + s, d, 5), v, len, 0xcc, id / 4 + s); if (s == 0) { perm(F, mat_pat(F, d, d, 7), v, d, 0xff, id); tri(F, mat_pat(F, 1 + id % 70, d, 4), v, len, id % 4); tri(F, mat_pat(F, d, d, 4), v, len, (id + 1) % 4); } } }
    /* (3) longer than the dimension: the rest is ignored */
    if (CASE("k=%d longer permutations", k)) for (int d = 1; d <= 6; d++) for (int kind = 0; kind < 10; kind++) { int v[16]; mkperm(v, d, d, kind); for (int i = d; i < 12; i++) v[i] = i; perm(F, mat_pat(F, d, d, 4), v, d + 1 + kind % 4, 0xff, kind); }
    /* (4) large dimensions, many rows, one row: the column loops work on blocks of rows and words */
    { static const int lg[][2] = {{1, 1100}, {3, 600}, {300, 70}, {520, 5}, {1025, 2}, {129, 257}}; for (int s = 0; s < 6; s++) for (int kind = 1; kind < 10; kind += 1 + (mc_tier < 2)) { if (mc_tier == 0 && (s + kind + k) % 9) continue; if (mc_tier == 1 && k > 4 && (s + kind / 2 + k) % 2) continue; int m = lg[s][0], n = lg[s][1];
      if (CASE("k=%d large %dx%d kind %d", k, m, n, kind)) { int mx = m > n ? m : n, *v = ar_alloc(sizeof(int) * mx); Mat *A = mat_pat(F, m, n, 4 + kind % 4);
        mkperm(v, n, n, kind); perm(F, A, v, n, 0xcc, s + kind); mkperm(v, m, m, kind); perm(F, A, v, m, 0x33, s + kind); mkperm(v, n / 2 + 1, n, kind + 12 * (kind > 7)); perm(F, A, v, n / 2 + 1, 0xcc, s + kind + 1); mkperm(v, m / 2 + 1, m, kind); perm(F, A, v, m / 2 + 1, 0x33, s + kind + 2);
        mkperm(v, n, n, kind); tri(F, A, v, n, (s + kind) % 4); } } }
    /* longer than 2^16 in one direction */
    for (int b = 0; b < 2; b++) for (int kind = 1; kind < 9; kind++) if (LONG(k) && (kind + k + b) % 2 == 0 && CASE("k=%d long %s kind %d", k, b ? "2x70000" : "70000x2", kind)) { int *v = ar_alloc(sizeof(int) * 70000); mkperm(v, 70000, 70000, kind); Mat *A = mat_pat(F, b ? 2 : 70000, b ? 70000 : 2, 4); perm(F, A, v, 70000, b ? 0xcc : 0x33, kind); if (b) tri(F, A, v, 70000, kind % 4); }
    /* (5) structured contents: single coefficients, one row or column, zero borders, equal rows and columns, diagonal, triangular */
    for (int pat = NPAT - 1; pat < NSTRUCT; pat++) if ((mc_tier || (pat + k) % 4 == 0) && CASE("k=%d structured %d", k, pat)) for (int s = 0; s < TIER(2, 6, 24); s++) {
      static const int ss[][2] = {{5, 9}, {9, 5}, {17, 33}, {34, 66}, {66, 65}, {3, 130}}; int m = ss[s % 6][0] + s / 6, n = ss[s % 6][1] + s / 6, v[256], id = pat * 7 + s * 5 + k; Mat *A = mat_pat(F, m, n, pat == NPAT - 1 ? P_BIT + (int)((long)m * n * F->k * (id % 12 + 1) / 12) - 1 : pat);
      mkperm(v, n, n, 1 + id % 20); perm(F, A, v, n, 0xcc, id); mkperm(v, m, m, 1 + id % 20); perm(F, A, v, m, 0x33, id); mkperm(v, n, n, 1 + id % 20); tri(F, A, v, n, id % 4); }
  }
}

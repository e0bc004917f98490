/* C04: packed <-> sliced conversion, both directions, fresh/dirty/window. */
#include "mc.h"

/* row ((j-j0)*k+e) holds the single bit e at column j, j0 <= j < j1 */
static Mat *basis(const Fld *F, int c, int j0, int j1) {
  Mat *M = mat_new((j1 - j0) * F->k, c);
  for (int j = j0; j < j1; j++) for (int e = 0; e < F->k; e++) AT(M, (j - j0) * F->k + e, j) = 1u << e;
  return M;
}
static void fresh(const Fld *F, const Mat *M, int splace) {
  PM *p = pm_new(F, M, splace);
  mzd_slice_t *z = mzed_slice(NULL, p->m); mc_trans(1);
  SM *s = sm_wrap(F, z, M->r, M->c); sm_check(s, M, "mzed_slice into a fresh matrix"); sm_free(s);
  pm_check(p, M, "source of mzed_slice"); pm_free(p);
  SM *q = sm_new(F, M, splace);
  mzed_t *y = mzed_cling(NULL, q->m); mc_trans(1);
  PM *t = pm_wrap(F, y, M->r, M->c); pm_check(t, M, "mzed_cling into a fresh matrix"); pm_free(t);
  sm_check(q, M, "source of mzed_cling"); sm_free(q);
}
static void into(const Fld *F, const Mat *M, int splace, int dplace, int dpat) {
  Mat *D = mat_pat(F, M->r, M->c, dpat);
  { PM *p = pm_new(F, M, splace); SM *d = sm_new(F, D, dplace);
    mzd_slice_t *z = mzed_slice(d->m, p->m); mc_trans(1);
    CHECK(z == d->m, "mzed_slice returned another object than its target");
    sm_check(d, M, "mzed_slice into an existing matrix"); pm_check(p, M, "source of mzed_slice");
    /* and straight back over the source */
    mzed_t *b = mzed_cling(p->m, d->m); mc_trans(1);
    CHECK(b == p->m, "mzed_cling returned another object than its target");
    pm_check(p, M, "mzed_cling back"); sm_free(d); pm_free(p); }
  { SM *p = sm_new(F, M, splace); PM *d = pm_new(F, D, dplace);
    mzed_t *z = mzed_cling(d->m, p->m); mc_trans(1);
    CHECK(z == d->m, "mzed_cling returned another object than its target");
    pm_check(d, M, "mzed_cling into an existing matrix"); sm_check(p, M, "source of mzed_cling");
    sm_free(p); pm_free(d); }
}
/* the per-width workers, as documented: the target is zero */
static void workers(const Fld *F, const Mat *M) {
  Mat *Z = mat_new(M->r, M->c);
  PM *p = pm_new(F, M, OWN); SM *d = sm_new(F, Z, OWN);
  switch (F->w) { case 2: _mzed_slice2(d->m, p->m); break; case 4: _mzed_slice4(d->m, p->m); break; case 8: _mzed_slice8(d->m, p->m); break; default: _mzed_slice16(d->m, p->m); }
  sm_check(d, M, "_mzed_slice worker"); sm_free(d); pm_check(p, M, "source"); pm_free(p);
  SM *q = sm_new(F, M, OWN); PM *t = pm_new(F, Z, OWN);
  switch (F->w) { case 2: _mzed_cling2(t->m, q->m); break; case 4: _mzed_cling4(t->m, q->m); break; case 8: _mzed_cling8(t->m, q->m); break; default: _mzed_cling16(t->m, q->m); }
  pm_check(t, M, "_mzed_cling worker"); pm_free(t); sm_check(q, M, "source"); sm_free(q);
  mc_trans(2);
}
PROPERTY(C04) {
  int maxc = TIER(0, 200, 400);
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0);
    int small[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129}, nsmall = 24;
    for (int ci = 0; ci < (mc_tier ? maxc : nsmall); ci++) {
      int c = mc_tier ? ci + 1 : small[ci];
      if (CASE("k=%d %d columns, every (column, coefficient) bit", k, c)) {
        int step = 64 / k;     /* few rows at a time: the 16-bit gather is quadratic in the rows */
        for (int j = 0; j < c; j += step) {
          Mat *B = basis(F, c, j, j + step < c ? j + step : c);
          if (c % 3 == 0 || c < 70) into(F, B, OWN, OWN, 2); else fresh(F, B, OWN);
        }
      }
      if ((mc_tier || ci % 3 == 1) && CASE("k=%d %d columns, every coefficient but one", k, c)) {
        int step = 64 / k; for (int j = 0; j < c; j += step) { Mat *B = basis(F, c, j, j + step < c ? j + step : c); for (size_t x = 0; x < (size_t)B->r * c; x++) B->v[x] ^= F->q - 1; if (c % 4 == 0) into(F, B, OWN, OWN, j / step % 8); else fresh(F, B, OWN); } }
      /* every pair of coefficients: of one element, of neighbours, of elements in different words */
      if (c * k <= TIER(64, 300, 600) && CASE("k=%d %d columns, pairs of coefficients", k, c)) { int n = c * k, r = 0; Mat *M = mat_new(48, c);
        for (int x = 0; x < n; x++) for (int y = 0; y < x; y++) { AT(M, r, x / k) |= 1u << x % k; AT(M, r, y / k) |= 1u << y % k; mc_states(1); if (++r == 48 || (y == x - 1 && x == n - 1)) { fresh(F, M, OWN); M = mat_new(48, c); r = 0; } } }
      if (CASE("k=%d %d columns, dense contents", k, c)) {
        for (int r = 1; r <= 5; r++) for (int pat = 2; pat < NPAT; pat++) {
          if (r % 2 == 0 && pat != 4 && pat != 7) continue;
          Mat *M = mat_pat(F, r, c, pat);
          fresh(F, M, OWN); workers(F, M);
          into(F, M, OWN, OWN, 2); into(F, M, OWN, OWN, 7);
        }
        for (int pat = NPAT; pat < NSTRUCT; pat++) { Mat *M = mat_pat(F, 5, c, pat); fresh(F, M, OWN); into(F, M, OWN, OWN, NPAT + (pat + 5) % (NSTRUCT - NPAT)); into(F, M, OWN, OWN, 0); }
      }
      if (CASE("k=%d %d columns, targets with one non-zero coefficient", k, c)) {
        int all = 3 * c * k, step = all / TIER(200, 1000, 4000) + 1; static const int src[] = {4, 0, 9, 13, 15, 16, 12};
        for (int t = 0, s = 0; t < all; t += step, s++) into(F, mat_pat(F, 3, c, src[s % 7]), s % 5 ? OWN : s / 5 % NPLACE, s % 3 ? OWN : s / 3 % NPLACE, P_BIT + t);
      }
      if ((mc_tier || ci % 3 == 0) && CASE("k=%d %d columns, windows", k, c))
        for (int sp = 0; sp < NPLACE; sp++) for (int dp = 0; dp < NPLACE; dp++) for (int pat = 0; pat <= 4; pat += 2) {
          Mat *M = mat_pat(F, 3, c, pat); if (dp == 0) fresh(F, M, sp);
          mc_sub("source %s target %s", place_name[sp], place_name[dp]);
          into(F, M, sp, dp, 4); into(F, M, sp, dp, 2);
        }
    }
    /* tall and larger shapes */
    int big[][2] = {{70, 70}, {130, 257}, {3, 1025}, {257, 3}};
    for (int b = 0; b < TIER(1, 4, 4); b++) if (CASE("k=%d %dx%d", k, big[b][0], big[b][1])) { Mat *M = mat_pat(F, big[b][0], big[b][1], 4); fresh(F, M, OWN); into(F, M, OWN, OWN, 7); }
    /* longer than 2^16 in one direction */
    for (int b = 0; b < 2; b++) if (LONG(k) && (b || k <= 8) && CASE("k=%d long %s", k, b ? "2x70000" : "70000x2")) { Mat *M = mat_pat(F, b ? 2 : 70000, b ? 70000 : 2, 4); fresh(F, M, OWN); into(F, M, k % 2, b, 7); }
    /* many row counts: one whole matrix, structured and dense contents */
    static const int rows[] = {6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 201, 255, 256, 257, 300, 512};
    for (int ri = 0; ri < 23; ri++) { if (mc_tier == 0 && ri % 5 != 1) continue; if (CASE("k=%d %d rows", k, rows[ri])) { int r = rows[ri], cc[] = {1, 2, 3, F->epw - 1, F->epw, F->epw + 1, 2 * F->epw, 63, 64, 65, 129, 3 * F->epw - 1, 3 * F->epw, 5 * F->epw - 2, 4 * F->epw};
      for (int x = 0; x < 15; x++) { int c = cc[x]; if (c < 1 || (long)r * r * c > TIER(200000L, 3000000L, 100000000L)) continue;
        mc_sub("%d rows, %d columns", r, c);
        for (int q = 0; q < TIER(1, 3, 8); q++) { int pat = q == 0 ? 4 : q == 1 ? NPAT + (k + ri + x) % (NSTRUCT - NPAT) : (k * 5 + ri * 3 + x + q) % NSTRUCT; Mat *M = mat_pat(F, r, c, pat);
          if (q != 1) fresh(F, M, q < 2 ? OWN : (ri + x) % NPLACE); into(F, M, q ? (ri + x) % NPLACE : OWN, q ? (x + q) % NPLACE : OWN, (pat + 3) % NSTRUCT); if (q == 0) workers(F, M); } } } }
    /* every element value survives the round trip */
    if (CASE("k=%d every element value", k)) { int q = F->q, c = q < 64 ? q : 64; Mat *M = mat_new(q / c, c); for (int i = 0; i < q; i++) M->v[i] = i; fresh(F, M, OWN); into(F, M, OWN, OWN, 2); }
  }
}

/* C08: addition and scalar multiplication. */
#include "mc.h"

static const char *pname(int p) { static char b[2][16]; static int t; if (p < NPAT) return pat_name[p]; t ^= 1; snprintf(b[t], sizeof *b, "%d", p); return b[t]; }
static int tpat = 10; /* previous content of existing targets */
/* target kinds: 0 NULL, 1..4 dirty matrix in placement t-1, 5 = operand A, 6 = operand B */
static void padd(const Fld *F, int r, int c, int pa, int pata, int patb) {
  Mat *A = mat_pat(F, r, c, pata), *B = mat_pat(F, r, c, patb), *X = mat_add(A, B);
  for (int tk = 0; tk <= 6; tk++) {
    mc_sub("add target kind %d patterns %s %s", tk, pname(pata), pname(patb));
    PM *a = pm_new(F, A, pa), *b = pm_new(F, B, (pa + tk + 1) % NPLACE), *t = tk == 0 ? NULL : tk == 5 ? a : tk == 6 ? b : pm_new(F, mat_pat(F, r, c, tpat), tk - 1);
    mzed_t *x = (tk + r) % 2 && t ? _mzed_add(t->m, a->m, b->m) : mzed_add(t ? t->m : NULL, a->m, b->m); mc_trans(1);
    CHECK(!t || x == t->m, "mzed_add returned another object"); if (!t) t = pm_wrap(F, x, r, c);
    pm_check(t, X, "mzed_add"); if (t != a) pm_check(a, A, "operand A of mzed_add"); if (t != b) pm_check(b, B, "operand B of mzed_add");
    if (t != a && t != b) pm_free(t); pm_free(a); pm_free(b);
  }
  PM *a = pm_new(F, A, pa), *t = pm_new(F, B, (pa + 1) % NPLACE); /* A + A = 0 */
  mzed_add(t->m, a->m, a->m); pm_check(t, mat_new(r, c), "mzed_add(C,A,A)"); pm_check(a, A, "operand of mzed_add(C,A,A)");
  mzed_add(a->m, a->m, a->m); pm_check(a, mat_new(r, c), "mzed_add(A,A,A)"); mc_trans(2); pm_free(a); pm_free(t);
}
static void sadd(const Fld *F, int r, int c, int pa, int pata, int patb) {
  Mat *A = mat_pat(F, r, c, pata), *B = mat_pat(F, r, c, patb), *X = mat_add(A, B);
  for (int tk = 0; tk <= 6; tk++) {
    mc_sub("sliced add target kind %d patterns %s %s", tk, pname(pata), pname(patb));
    SM *a = sm_new(F, A, pa), *b = sm_new(F, B, (pa + tk + 1) % NPLACE), *t = tk == 0 ? NULL : tk == 5 ? a : tk == 6 ? b : sm_new(F, mat_pat(F, r, c, tpat), tk - 1);
    mzd_slice_t *x = (tk + r) % 2 && t ? _mzd_slice_add(t->m, a->m, b->m) : mzd_slice_add(t ? t->m : NULL, a->m, b->m); mc_trans(1);
    CHECK(!t || x == t->m, "mzd_slice_add returned another object"); if (!t) t = sm_wrap(F, x, r, c);
    sm_check(t, X, "mzd_slice_add"); if (t != a) sm_check(a, A, "operand A of mzd_slice_add"); if (t != b) sm_check(b, B, "operand B of mzd_slice_add");
    if (t != a && t != b) sm_free(t); sm_free(a); sm_free(b);
  }
  SM *a = sm_new(F, A, pa), *t = sm_new(F, B, (pa + 1) % NPLACE); /* A + A = 0 */
  mzd_slice_add(t->m, a->m, a->m); sm_check(t, mat_new(r, c), "mzd_slice_add(C,A,A)"); sm_check(a, A, "operand of mzd_slice_add(C,A,A)");
  mzd_slice_add(a->m, a->m, a->m); sm_check(a, mat_new(r, c), "mzd_slice_add(A,A,A)"); mc_trans(2); sm_free(a); sm_free(t);
}
static void pscal(const Fld *F, int r, int c, int place, int pat, const E *v, int nv, int alltk) {
  Mat *B = mat_pat(F, r, c, pat);
  for (int i = 0; i < nv; i++) { Mat *X = mat_scale(F, v[i], B);
    for (int tk = 0; tk <= 5; tk++) {
      if (!alltk && tk != i % 6 && tk != (i + 3) % 6) continue;
      mc_sub("scalar 0x%x target kind %d pattern %s", v[i], tk, pname(pat));
      PM *b = pm_new(F, B, place), *t = tk == 0 ? NULL : tk == 5 ? b : pm_new(F, mat_pat(F, r, c, tpat), tk - 1);
      mzed_t *x = mzed_mul_scalar(t ? t->m : NULL, v[i], b->m); mc_trans(1);
      CHECK(!t || x == t->m, "mzed_mul_scalar returned another object"); if (!t) t = pm_wrap(F, x, r, c);
      pm_check(t, X, "mzed_mul_scalar"); if (t != b) { pm_check(b, B, "operand of mzed_mul_scalar"); pm_free(t); } pm_free(b);
    } }
}
static void sscal(const Fld *F, int r, int c, int place, int pat, const E *v, int nv) {
  Mat *B = mat_pat(F, r, c, pat), *C = mat_pat(F, r, c, tpat);
  for (int i = 0; i < nv; i++) { Mat *X = mat_scale(F, v[i], B), *Y = mat_add(C, X);
    for (int tk = 0; tk <= 4; tk++) {
      if (F->q > 16 && tk != i % 5 && tk != (i + 3) % 5) continue;
      mc_sub("sliced scalar 0x%x target kind %d pattern %s", v[i], tk, pname(pat));
      SM *b = sm_new(F, B, place), *t = tk == 0 ? NULL : sm_new(F, C, tk - 1);
      mzd_slice_t *x = mzd_slice_mul_scalar(t ? t->m : NULL, v[i], b->m);
      CHECK(!t || x == t->m, "mzd_slice_mul_scalar returned another object"); if (!t) t = sm_wrap(F, x, r, c);
      sm_check(t, X, "mzd_slice_mul_scalar"); sm_check(b, B, "operand of mzd_slice_mul_scalar"); sm_free(t);
      if (tk) { t = sm_new(F, C, tk - 1); x = mzd_slice_addmul_scalar(t->m, v[i], b->m); CHECK(x == t->m, "mzd_slice_addmul_scalar returned another object"); sm_check(t, Y, "mzd_slice_addmul_scalar"); sm_check(b, B, "operand of mzd_slice_addmul_scalar"); sm_free(t); }
      sm_free(b); mc_trans(2);
    } }
}
PROPERTY(C08) {
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0); int cs[64], n = cols_small(F, cs, TIER(1, 3, 6));
    E v[64]; int nv = fld_vals(F, v);
    for (int ci = 0; ci < n; ci++) for (int place = 0; place < NPLACE; place++) for (int r = 1; r <= 5; r += 2) {
      if (mc_tier == 0 && (ci + place + r + k) % 3) continue;
      if (CASE("k=%d packed %dx%d %s", k, r, cs[ci], place_name[place])) {
        padd(F, r, cs[ci], place, 4, 7); padd(F, r, cs[ci], place, 2, 4); padd(F, r, cs[ci], place, 0, 3);
        pscal(F, r, cs[ci], place, 4, v, nv, 1); pscal(F, r, cs[ci], place, 11, v, nv, 0);
      }
    }
    int sc[] = {1, 2, 63, 64, 65, 127, 128, 129, 192, 193}, ns = TIER(6, 8, 10);
    for (int ci = 0; ci < ns; ci++) for (int place = 0; place < NPLACE; place++) for (int r = 1; r <= 3; r += 2) {
      if (mc_tier == 0 && (ci + place + r + k) % 3) continue;
      if (CASE("k=%d sliced %dx%d %s", k, r, sc[ci], place_name[place])) { sadd(F, r, sc[ci], place, 4, 7); sadd(F, r, sc[ci], place, 2, 4); sscal(F, r, sc[ci], place, 4, v, nv); if (r == 1) sscal(F, r, sc[ci], place, 11, v, nv); }
    }
    /* structured contents, targets with a single coefficient; many rows and words */
    static const int big2[][2] = {{5, 0}, {3, 1100}, {130, 70}, {1030, 5}, {70, 260}};
    for (int b = 0; b < 5; b++) for (int pat = NPAT; pat < NSTRUCT; pat++) { if (b && mc_tier < 2 && (pat + k + 5 * b) % TIER(12, 4, 1)) continue;
      if (CASE("k=%d structured contents %d, shape %d", k, pat, b)) { int r = big2[b][0], place = (pat + k + b) % NPLACE, p2 = NPAT + (pat + 7) % (NSTRUCT - NPAT); E w[] = {v[(pat + k) % nv], F->q - 1, 0, 1, F->q >> 1};
        for (int sh = 0; sh < (b ? 1 : 3); sh++) { int c = b ? big2[b][1] : sh == 0 ? 2 * F->epw + 1 : sh == 1 ? 65 : 4 * F->epw - 1; long n = (long)r * c * F->k; for (int q = 0; q < (b ? 1 : 3); q++) { tpat = P_BIT + (int)(q == 0 ? n - 1 - pat % F->k : q == 1 ? n / 2 + pat : pat);
          padd(F, r, c, place, pat, p2); sadd(F, r, c, place, pat, p2); pscal(F, r, c, place, pat, w, b ? 2 : 5, 0); sscal(F, r, c, place, pat, w, b ? 2 : 5); } }
        tpat = 10; } }
    /* a grid of shapes: even, odd and square, few and many rows */
    static const int gr[] = {2, 4, 6, 7, 8, 9, 16, 17, 24, 32, 33, 64, 65, 128}, gc[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 96, 127, 128, 129};
    for (int a = 0; a < 14; a++) if ((mc_tier || (a + k) % 3 == 0) && CASE("k=%d shapes with %d rows", k, gr[a])) for (int b = 0; b < 23; b++) { int r = gr[a], c = gc[b], pl = (a + b + k) % NPLACE; if (mc_tier == 0 && r * c > 1100) continue;
      E w[] = {F->q - 1, v[(a * 3 + b) % nv]}; mc_sub("%dx%d", r, c); padd(F, r, c, pl, 4, 7); sadd(F, r, c, pl, 7, 4); pscal(F, r, c, pl, 7, w, TIER(1, 2, 2), 0); sscal(F, r, c, (pl + 1) % NPLACE, 4, w, TIER(1, 2, 2)); }
    /* every scalar and every element at once: row of all elements times each scalar */
    int step = TIER(4096, k <= 8 ? 1 : k <= 12 ? 16 : 256, k <= 12 ? 1 : 16);
    for (int base = 0; base < F->q; base += 256) if ((mc_tier || base == 0) && CASE("k=%d all elements by scalars from %d", k, base)) {
      int len = F->q < 4096 ? F->q : 4096;
      for (int e = base + (k > 8 ? (base / 256) % step : 0); e < base + 256 && e < F->q; e += step) {
        int off = F->q > 4096 ? (e * 613) & (F->q - 1) : 0; Mat *A = mat_new(1, len); for (int j = 0; j < len; j++) AT(A, 0, j) = (off + j) & (F->q - 1);
        E ee = e; Mat *X = mat_scale(F, ee, A); mc_sub("scalar 0x%x", e);
        PM *a = pm_new(F, A, OWN); mzed_mul_scalar(a->m, ee, a->m); pm_check(a, X, "mzed_mul_scalar in place"); pm_free(a);
        SM *s = sm_new(F, A, OWN), *t = sm_wrap(F, mzd_slice_mul_scalar(NULL, ee, s->m), 1, len); sm_check(t, X, "mzd_slice_mul_scalar"); sm_free(s); sm_free(t); mc_trans(2);
      }
    }
    /* every minimal polynomial: X^i * X^j through matrices */
    for (int idx = 1; idx < mdl_nirr[k]; idx += TIER(k > 6 ? mdl_nirr[k] / 3 + 1 : 2, k > 10 ? mdl_nirr[k] / 40 : 1, 1)) if (CASE("k=%d minpoly #%d", k, idx)) {
      Fld *G = field(k, idx); E bas[16]; for (int i = 0; i < k; i++) bas[i] = 1u << i;
      Mat *A = mat_new(1, k + 1); for (int i = 0; i < k; i++) AT(A, 0, i) = 1u << i; AT(A, 0, k) = G->q - 1;
      for (int i = 0; i < k; i++) { Mat *X = mat_scale(G, bas[i], A); SM *s = sm_new(G, A, OWN), *t = sm_wrap(G, mzd_slice_mul_scalar(NULL, bas[i], s->m), 1, k + 1); sm_check(t, X, "mzd_slice_mul_scalar"); sm_free(s); sm_free(t);
        PM *a = pm_new(G, A, OWN); mzed_mul_scalar(a->m, bas[i], a->m); pm_check(a, X, "mzed_mul_scalar"); pm_free(a); mc_trans(2); }
    }
    /* around the switch to the table algorithm: 2^17 elements */
    int big[][2] = {{1, 131071}, {1, 131072}, {1, 131073}, {363, 361}, {362, 363}, {361, 364}, {1024, 128}, {1025, 129}, {131073, 1}, {44000, 3}, {2, 65536}, {8192, 17}, {400, 400}};
    E bv[] = {0, 1, 2, 3, (E)(F->q >> 1), (E)(F->q - 1), (E)(F->q / 2 + 1)};
    /* longer than 2^16 in one direction */
    for (int b = 0; b < 2; b++) if (LONG(k) && CASE("k=%d long %s", k, b ? "2x70000" : "70000x2")) { int r = b ? 2 : 70000, c = b ? 70000 : 2; E w[2] = {F->q - 1, 2}; padd(F, r, c, k % 2, 4, 7); sadd(F, r, c, k % 2, 4, 7); pscal(F, r, c, k % 2, 4, w, 2, 0); sscal(F, r, c, k % 2, 4, w, 2); }
    for (int s = 0; s < TIER(3, 13, 13); s++) for (int place = 0; place < NPLACE; place++) {
      if (mc_tier == 0 && (place != s % 2)) continue;
      if (k > 8 && (s + place) % 4) continue;
      if (CASE("k=%d large %dx%d %s", k, big[s][0], big[s][1], place_name[place])) {
        int nb = TIER(2, 4, 7); E w[7]; for (int i = 0; i < nb; i++) w[i] = bv[(i + s + place) % 7];
        pscal(F, big[s][0], big[s][1], place, 4, w, nb, mc_tier == 2);
        if (mc_tier == 2) { if (big[s][0] * big[s][1] > 131072) padd(F, big[s][0], big[s][1], place, 4, 7); Fld *G = field(k, -1); if (G != F) pscal(G, big[s][0], big[s][1], place, 2, w, nb, 0); }
      }
    }
  }
}

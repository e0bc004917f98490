/* C10: sliced matrix multiplication: naive, Karatsuba, bilinear map, automatic. */
#include "mc.h"
#include <m4rie/conversion.h>

typedef mzd_slice_t *(*Fn)(mzd_slice_t *, const mzd_slice_t *, const mzd_slice_t *);
static blm_t *the_f; /* NULL: the library makes its own */
static mzd_slice_t *f_mb(mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B) { return mzd_slice_mul_blm(C, A, B, the_f); }
static mzd_slice_t *f_amb(mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B) { return mzd_slice_addmul_blm(C, A, B, the_f); }
static mzd_slice_t *f_umb(mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B) { return _mzd_slice_mul_blm(C, A, B, the_f); }
typedef struct { const char *name; Fn f; int acc, nul; } Algo;
static const Algo AL[] = {
  {"mzd_slice_mul", mzd_slice_mul, 0, 1}, {"mzd_slice_addmul", mzd_slice_addmul, 1, 0},
  {"mzd_slice_mul_karatsuba", mzd_slice_mul_karatsuba, 0, 1}, {"mzd_slice_addmul_karatsuba", mzd_slice_addmul_karatsuba, 1, 0}, {"_mzd_slice_addmul_karatsuba", _mzd_slice_addmul_karatsuba, 1, 1},
  {"_mzd_slice_addmul_naive", _mzd_slice_addmul_naive, 1, 1},
  {"mzd_slice_mul_blm", f_mb, 0, 1}, {"mzd_slice_addmul_blm", f_amb, 1, 0}, {"_mzd_slice_mul_blm", f_umb, 0, 1}};
#define NAL ((int)(sizeof AL / sizeof *AL))
#define S_KARA 0x1f
#define S_NAIVE 0x20
#define S_BLM 0x1c0

static int tpat = 10;   /* previous content of existing targets */
static int same;        /* the second operand is the first one */
static void prod(const Fld *F, const Mat *A, const Mat *B, const Mat *P, unsigned set, int pa, int pb, int tk0) {
  int m = A->r, n = B->c; SM *a = sm_new(F, A, pa), *b = same ? a : sm_new(F, B, pb);
  Mat *C0 = mat_pat(F, m, n, tpat), *CP = mat_add(C0, P);
  for (int x = 0, y = 0; x < NAL; x++) if (set >> x & 1) {
    int tk = (tk0 + y++) % (NPLACE + 1); if (tk == 0 && !AL[x].nul) tk = 1 + tk0 % NPLACE;
    mc_sub("%s %dx%dx%d A %s B %s target kind %d%s", AL[x].name, m, A->c, n, place_name[pa], place_name[pb], tk, the_f ? " given map" : "");
    SM *t = tk ? sm_new(F, C0, tk - 1) : NULL;
    mzd_slice_t *r = AL[x].f(t ? t->m : NULL, a->m, b->m); mc_trans(1);
    CHECK(!t || r == t->m, "%s returned another object", AL[x].name);
    const Mat *want = t && AL[x].acc ? CP : P;
    if (!t) t = sm_wrap(F, r, m, n);
    sm_check(t, want, AL[x].name); sm_free(t);
    sm_check(a, A, "operand A after multiplication"); sm_check(b, B, "operand B after multiplication");
  }
  sm_free(a); if (!same) sm_free(b);
}
static void shape(const Fld *F, int m, int k, int n, unsigned set, int pats, int pl) {
  static const int pp[][2] = {{4, 7}, {2, 2}, {3, 10}, {5, 5}, {9, 4}, {7, 9}, {1, 4}, {8, 8}, {0, 4}};
  for (int i = 0; i < pats; i++) { Mat *A = mat_pat(F, m, k, pp[i][0]), *B = mat_pat(F, k, n, pp[i][1]), *P = mat_mul(F, A, B);
    prod(F, A, B, P, set, pl % 4, pl / 4 % 4, (pl / 16 + i) % 5); }
}
/* column of all X^i times row of all X^j: every basis product at once; then sums of two products */
static void outer(const Fld *F, unsigned set, int pl) {
  int k = F->k; Mat *A = mat_new(k, 1), *B = mat_new(1, k), *P = mat_new(k, k);
  for (int i = 0; i < k; i++) { A->v[i] = B->v[i] = 1u << i; for (int j = 0; j < k; j++) AT(P, i, j) = mdl_clmul_mod(1u << i, 1u << j, F->poly, k); }
  prod(F, A, B, P, set, pl % 4, pl / 4 % 4, pl % 5);
  Mat *A2 = mat_new(k, 2), *B2 = mat_new(2, k), *P2 = mat_new(k, k);
  for (int i = 0; i < k; i++) { AT(A2, i, 0) = 1u << i; AT(A2, i, 1) = 1u << (i * 3 + 1) % k; AT(B2, 0, i) = 1u << i; AT(B2, 1, i) = F->q - 1; }
  for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) for (int l = 0; l < 2; l++) AT(P2, i, j) ^= mdl_clmul_mod(AT(A2, i, l), AT(B2, l, j), F->poly, k);
  prod(F, A2, B2, P2, set & 0xe1, (pl + 1) % 4, pl / 3 % 4, (pl + 2) % 5);
}
static Mat *enum_mat(const Fld *F, int r, int c, uint64_t code) { Mat *M = mat_new(r, c); for (int i = 0; i < r * c; i++) { M->v[i] = code & (F->q - 1); code >>= F->k; } return M; }
/* every way to write need = omega + sum d*p[d] with the library's moduli, up to a limit */
static int plans(int need, int (*out)[17], int max) {
  int n = 0;
  for (int om = 0; om <= (need < 16 ? need : 16) && n < max; om += 1 + om / 4) for (int start = 1; start <= 16 && n < max; start++) {
    int p[17] = {0}, have = om; p[0] = om;
    for (int d = start; d <= 16 && have < need; d++) while (p[d] < mdl_nirr[d] && have < need && have + d <= need) { p[d]++; have += d; }
    for (int d = 1; d <= 16 && have < need; d++) if (p[d] < mdl_nirr[d]) { p[d]++; have += d; }
    if (have < need) continue;
    memcpy(out[n++], p, sizeof p);
  }
  return n;
}

/* structured operands, targets with a single coefficient, squares of one object */
static void structured(const Fld *F, int m, int k, int n, unsigned set, int pat, int pl) {
  int n2 = NSTRUCT - NPAT, p2 = NPAT + (pat * 5 + m + n) % n2; long t = (long)m * n * F->k;
  Mat *A = mat_pat(F, m, k, pat), *B = mat_pat(F, k, n, p2); tpat = P_BIT + (int)(pl % 3 == 0 ? t - 1 : t * (pl % 11) / 11);
  prod(F, A, B, mat_mul(F, A, B), set, pl % 4, pl / 4 % 4, pl % 5); A = mat_pat(F, m, k, 4); prod(F, A, B, mat_mul(F, A, B), set, pl / 4 % 4, pl % 4, (pl + 2) % 5);
  A = mat_pat(F, m, m, pat); tpat = pl % 2 ? 0 : pat; same = 1; prod(F, A, A, mat_mul(F, A, A), set, pl % 4, pl % 4, (pl + 3) % 5); same = 0; tpat = 10;
}
/* coefficient p of all entries: 0, X, Y or X+Y by bits 2p, 2p+1 of code */
static Mat *planes(const Fld *F, int r, int c, uint64_t code, int w) {
  Mat *M = mat_new(r, c);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int x = mc_hash(i, j, 51 + w, 1) & 1, y = mc_hash(i, j, 61 + w, 1) & 1; for (int p = 0; p < F->k; p++) AT(M, i, j) |= ((code >> 2 * p & x) ^ (code >> (2 * p + 1) & y)) << p; }
  return M;
}
PROPERTY(C10) {
  /* (1) every minimal polynomial, every pair of basis elements, every route */
  for (int k = 2; k <= 16; k++) for (int i0 = 0; i0 < mdl_nirr[k]; i0 += 32) {
    if (mc_tier == 0 && i0 % 1024 && i0 + 32 < mdl_nirr[k]) continue;
    if (CASE("k=%d minimal polynomials %d..%d", k, i0, i0 + 31)) for (int i = i0; i < i0 + 32 && i < mdl_nirr[k]; i++) {
      if (mc_tier == 0 && i % 13) continue;
      Fld L = {.k = k, .q = 1 << k, .idx = i, .poly = mdl_irr[k][i]}; L.w = k == 2 ? 2 : k <= 4 ? 4 : k <= 8 ? 8 : 16; L.epw = 64 / L.w;
      L.ff = gf2e_init(L.poly); mc_sub("minpoly 0x%x", L.poly); mc_states(k * k);
      int every = k <= 8 ? 1 : k <= 12 ? TIER(8, 8, 1) : TIER(32, 32, 4);
      outer(&L, i % every ? S_KARA | S_NAIVE : S_KARA | S_NAIVE | S_BLM, i * 7 + k);
      { /* scalar accumulate with every basis scalar */
        Mat *B = mat_new(1, k), *C0 = mat_pat(&L, 1, k, 4); for (int j = 0; j < k; j++) B->v[j] = 1u << j;
        for (int x = 0; x < k; x++) { Mat *S = mat_new(1, k); for (int j = 0; j < k; j++) S->v[j] = mdl_clmul_mod(1u << x, 1u << j, L.poly, k);
          SM *b = sm_new(&L, B, x % 4), *t = sm_new(&L, C0, i % 4); mzd_slice_t *r = mzd_slice_addmul_scalar(t->m, 1u << x, b->m); CHECK(r == t->m, "mzd_slice_addmul_scalar returned another object");
          sm_check(t, mat_add(C0, S), "mzd_slice_addmul_scalar"); sm_check(b, B, "operand of mzd_slice_addmul_scalar"); sm_free(t);
          t = sm_new(&L, C0, i % 4); mzd_slice_mul_scalar(t->m, 1u << x, b->m); sm_check(t, S, "mzd_slice_mul_scalar"); sm_free(t); sm_free(b); mc_trans(2); } }
      gf2e_free(L.ff);
    }
  }
  /* (2) every pair of small matrices */
  for (int a = 0; a < 256; a += TIER(37, 1, 1)) if (CASE("all pairs of 2x2 over GF(4), A=%d", a)) { Fld *F = field(2, 0); Mat *A = enum_mat(F, 2, 2, a);
    for (int b = 0; b < 256; b += TIER(5, 1, 1)) { Mat *B = enum_mat(F, 2, 2, b); prod(F, A, B, mat_mul(F, A, B), S_KARA | S_NAIVE | (b % 8 == a % 8 ? S_BLM : 0), OWN, OWN, (a + b) % 5); } }
  for (int k = 3; k <= TIER(3, 4, 4); k++) for (int a = 0; a < (1 << 2 * k); a += TIER(7, 1, 1)) if (CASE("all pairs of 1x2 by 2x1 over GF(%d), A=%d", 1 << k, a)) { Fld *F = field(k, 0); Mat *A = enum_mat(F, 1, 2, a);
    for (int b = 0; b < (1 << 2 * k); b++) { Mat *B = enum_mat(F, 2, 1, b); prod(F, A, B, mat_mul(F, A, B), k == 4 ? 5 | S_NAIVE : S_KARA | S_NAIVE, OWN, OWN, (a + b) % 5); } }
  for (int k = 5; k <= 16; k++) for (int a = 0; a < TIER(1, 16, 64); a++) if (CASE("k=%d all products of scalars, part %d", k, a)) { /* 1 x 1 by 1 x q: a whole row of the multiplication table per call */
    Fld *F = field(k, 0); int q = k <= 8 ? F->q : 256; Mat *B = mat_new(1, q); for (int j = 0; j < q; j++) B->v[j] = k <= 8 ? j : mc_hash(j, a, k, 3) & (F->q - 1);
    int nx = k <= 8 ? F->q : TIER(8, 32, 128), per = TIER(16, 16, 64);
    for (int x = a; x < nx; x += per) { Mat *A = mat_new(1, 1); A->v[0] = k <= 8 ? x : mc_hash(x, a, k, 4) & (F->q - 1); prod(F, A, B, mat_mul(F, A, B), 1 << (x / per) % 5 | S_NAIVE, OWN, OWN, x % 5); } }
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0), *G = field(k, -1);
    /* (3) word-boundary shapes */
    int ms[] = {1, 2, 3, 17, 63, 64, 65}, ks[] = {1, 2, 15, 17, 63, 64, 65, 127, 128, 129}, ns[] = {1, 2, 33, 63, 64, 65, 127, 128, 129, 192, 200};
    for (int mi = 0; mi < 7; mi++) for (int ki = 0; ki < 10; ki++) for (int ni = 0; ni < 11; ni++) {
      int id = mi * 5 + ki * 3 + ni * 7 + k, big = ms[mi] > 3 && ks[ki] > 20;
      if (!(mc_tier == 0 ? id % 53 == 0 : mc_tier == 1 ? id % (big ? 11 : 5) == 0 : 1)) continue;
      if (CASE("k=%d shape %dx%dx%d", k, ms[mi], ks[ki], ns[ni])) {
        for (int pl = 0; pl < 64; pl += TIER(64, 32, big ? 11 : 5)) shape(F, ms[mi], ks[ki], ns[ni], big && k > 8 ? 1u << (id + pl) % 6 : S_KARA | S_NAIVE, TIER(1, big ? 1 : 2, big ? 3 : 9), (pl + id * 7) % 80);
        if (id % 2 == 0) shape(G, ms[mi], ks[ki], ns[ni], S_BLM, 1, id % 64);
      }
    }
    /* (4) all placements of A, B and C */
    if (mc_tier) for (int pl = 0; pl < 80; pl++) if (CASE("k=%d placements %d", k, pl)) { shape(F, 5, 67, 70, S_KARA | S_NAIVE, 1, pl); if (pl % TIER(1, 4, 1) == 0) shape(F, 3, 2, 65, S_BLM, 1, pl); }
    /* (5) bilinear maps made by the caller: every plan, matrix and program form */
    { int pp[64][17], np = plans(2 * k - 1, pp, 64);
      for (int i = 0; i < np; i++) for (int djb = 0; djb < 2; djb++) {
        if (mc_tier == 0 && (i + djb * 3) % 9) continue;
        if (mc_tier == 1 && k > 8 && (i + djb) % 2) continue;
        if (CASE("k=%d given map, plan %d djb %d", k, i, djb)) for (int g = 0; g < 2; g++) {
          mc_sub("plan omega %d, p1..p6 %d %d %d %d %d %d", pp[i][0], pp[i][1], pp[i][2], pp[i][3], pp[i][4], pp[i][5], pp[i][6]);
          the_f = blm_init_crt(g ? G->ff : F->ff, k, k, pp[i], djb);
          outer(g ? G : F, S_BLM, i + 3 * djb); shape(g ? G : F, 3, 4, 66, S_BLM, 1, i * 5 % 80);
          blm_free(the_f); the_f = NULL;
        }
      } }
    /* longer than 2^16 in one dimension */
    for (int s = 0; s < 3; s++) if (LONG(k) && CASE("k=%d long, dimension %d", k, s)) shape(F, s == 0 ? 70000 : 2, s == 1 ? 70000 : 2, s == 2 ? 70000 : 2, S_KARA | S_NAIVE | (k % 3 == s ? S_BLM : 0), 1, (k * 5 + s * 19) % 80);
    /* (6) larger products, where libm4ri changes algorithm */
    static const int big[][3] = {{130, 129, 131}, {256, 255, 257}, {300, 70, 300}, {70, 300, 513}};
    for (int s = 0; s < 4; s++) { if (mc_tier == 0 || (mc_tier == 1 && k > 8 && s != k % 4)) continue;
      if (CASE("k=%d large %dx%dx%d", k, big[s][0], big[s][1], big[s][2])) shape(F, big[s][0], big[s][1], big[s][2], mc_tier == 1 ? 1u << (s + k) % 6 : S_KARA | S_NAIVE | S_BLM, 1, (k * 5 + s * 19) % 80); }
    /* (7) structured operands */
    for (int pat = NPAT; pat < NSTRUCT; pat++) for (int q = 0; q < TIER(1, 3, 8); q++) if ((mc_tier || (pat + k) % 3 == 0) && CASE("k=%d structured operands %d, variant %d", k, pat, q)) { Fld *H = q % 2 ? G : F; int id = pat * 7 + k * 3 + q * 13;
      structured(H, 4, 5, 66, S_KARA | S_NAIVE, pat, id); structured(H, 65, 3, 65, S_KARA | S_NAIVE, pat, id + 1); if (q % 2 == 0 && (mc_tier || pat % 4 == 0)) structured(H, 3, 65, 4, S_BLM, pat, id + 2); if (mc_tier == 2) structured(H, 130, 67, 129, S_KARA | S_NAIVE | (k <= 8 ? S_BLM : 0), pat, id + 3); }
    /* (8) squares of dense matrices: one object twice, and two objects with the same content */
    { static const int ns[] = {1, 2, 17, 63, 64, 65, 127, 128, 129, 192}; for (int i = 0; i < 10; i++) { if (mc_tier == 0 && ((i + k) % 5 || (k > 8 && ns[i] > 65))) continue;
      if (CASE("k=%d squares n=%d", k, ns[i])) for (int v = 0; v < TIER(1, 2, 6); v++) { int n = ns[i], pl = i * 7 + v * 5 + k; Fld *H = v % 3 == 1 ? G : F; Mat *A = mat_pat(H, n, n, v % 3 == 0 ? 4 : v % 3 == 1 ? 7 : 3), *P = mat_mul(H, A, A);
        same = v % 2 == 0; prod(H, A, A, P, S_KARA | S_NAIVE | (n < 3 || (n == 64 && mc_tier) ? S_BLM : 0), pl % 4, pl / 4 % 4, pl % 5); same = 0; } } }
    /* (9) slices that are zero, equal or sums of one another: intermediate sums of the Karatsuba formulas vanish */
    for (int a = 0; a < 16; a++) if ((mc_tier || (a + k) % 8 == 0) && CASE("k=%d slice combinations, part %d", k, a)) for (int t = 0; t < 16; t++) for (int u = 0; u < TIER(1, 3, 12); u++) {
      uint64_t ca = k <= 4 ? (uint64_t)(a * 16 + t) : t < 2 ? mc_hash(a, t, k, 41) & 0x55555555u : t < 8 ? (mc_hash(a, t, k, 41) & 0xffff) * (1 + (1u << (t % 2 ? k : (k + 1) & ~1))) : mc_hash(a, t, k, 41), cb = u == 0 ? ca : mc_hash(a, t, u, 43) & mc_hash(t, u, a, 47);
      Mat *A = planes(F, 3, 5, ca, 0), *B = planes(F, 5, 66, cb, 1); prod(F, A, B, mat_mul(F, A, B), mc_tier == 2 || t % 4 == a % 4 ? S_KARA | S_NAIVE | (t % 8 == a % 8 ? S_BLM : 0) : 1u << (t + u) % 6, t % 4, a % 4, (t + u) % 5); }
  }
}

/* C09: packed matrix multiplication, every algorithm. */
#include "mc.h"
#include <m4rie/conversion.h>

enum { MUL = 0, ADDMUL = 1 };
typedef mzed_t *(*Fn)(mzed_t *, const mzed_t *, const mzed_t *);
static int cutoff_now;
static mzed_t *f_st(mzed_t *C, const mzed_t *A, const mzed_t *B) { return mzed_mul_strassen(C, A, B, cutoff_now); }
static mzed_t *f_sta(mzed_t *C, const mzed_t *A, const mzed_t *B) { return mzed_addmul_strassen(C, A, B, cutoff_now); }
static mzed_t *f_ust(mzed_t *C, const mzed_t *A, const mzed_t *B) { return _mzed_mul_strassen(C, A, B, cutoff_now); }
static mzed_t *f_usta(mzed_t *C, const mzed_t *A, const mzed_t *B) { return _mzed_addmul_strassen(C, A, B, cutoff_now); }
/* acc: accumulates; nul: C may be NULL */
typedef struct { const char *name; Fn f; int acc, nul; } Algo;
static const Algo AL[] = {
  {"mzed_mul", mzed_mul, 0, 1}, {"mzed_addmul", mzed_addmul, 1, 1}, {"_mzed_mul", _mzed_mul, 0, 0}, {"_mzed_addmul", _mzed_addmul, 1, 0},
  {"mzed_mul_naive", mzed_mul_naive, 0, 1}, {"mzed_addmul_naive", mzed_addmul_naive, 1, 0}, {"_mzed_mul_naive", _mzed_mul_naive, 1, 0},
  {"mzed_mul_newton_john", mzed_mul_newton_john, 0, 1}, {"mzed_addmul_newton_john", mzed_addmul_newton_john, 1, 1}, {"_mzed_mul_newton_john", _mzed_mul_newton_john, 1, 0}, {"_mzed_mul_newton_john0", _mzed_mul_newton_john0, 1, 0},
  {"mzed_mul_karatsuba", mzed_mul_karatsuba, 0, 1}, {"mzed_addmul_karatsuba", mzed_addmul_karatsuba, 1, 0}, {"_mzed_addmul_karatsuba", _mzed_addmul_karatsuba, 1, 1},
  {"mzed_mul_blm", mzed_mul_blm, 0, 1}, {"mzed_addmul_blm", mzed_addmul_blm, 1, 0}, {"_mzed_addmul_blm", _mzed_addmul_blm, 1, 1},
  {"mzed_mul_strassen", f_st, 0, 1}, {"mzed_addmul_strassen", f_sta, 1, 0}, {"_mzed_mul_strassen", f_ust, 0, 0}, {"_mzed_addmul_strassen", f_usta, 1, 0}};
#define NAL ((int)(sizeof AL / sizeof *AL))
#define A_AUTO 0xf
#define A_NAIVE 0x70
#define A_NJ 0x380
#define A_NJ0 0x400
#define A_KARA 0x3800
#define A_BLM 0x1c000
#define A_STR 0x1e0000
#define A_ALL 0x1fffff

static int tpat = 10;   /* previous content of existing targets */
static int same;        /* the second operand is the first one */
/* one product with a list of algorithms; pl encodes placements and target kind */
static void prod(const Fld *F, const Mat *A, const Mat *B, const Mat *P, unsigned set, int pa, int pb, int tk0) {
  int m = A->r, n = B->c; PM *a = pm_new(F, A, pa), *b = same ? a : pm_new(F, B, pb);
  Mat *C0 = mat_pat(F, m, n, tpat), *CP = mat_add(C0, P);
  for (int x = 0, y = 0; x < NAL; x++) if (set >> x & 1) {
    int tk = (tk0 + y++) % (NPLACE + 1); if (tk == 0 && !AL[x].nul) tk = 1 + tk0 % NPLACE;
    mc_sub("%s %dx%dx%d A %s B %s target kind %d cutoff %d", AL[x].name, m, A->c, n, place_name[pa], place_name[pb], tk, cutoff_now);
    PM *t = tk ? pm_new(F, C0, tk - 1) : NULL;
    mzed_t *r = AL[x].f(t ? t->m : NULL, a->m, b->m); mc_trans(1);
    CHECK(!t || r == t->m, "%s returned another object", AL[x].name);
    const Mat *want = t && AL[x].acc ? CP : P;
    if (!t) t = pm_wrap(F, r, m, n);
    pm_check(t, want, AL[x].name); pm_free(t);
    pm_check(a, A, "operand A after multiplication"); pm_check(b, B, "operand B after multiplication");
  }
  pm_free(a); if (!same) pm_free(b);
}
static void shape(const Fld *F, int m, int k, int n, unsigned set, int pats, int pl) {
  static const int pp[][2] = {{4, 7}, {2, 2}, {3, 10}, {5, 5}, {9, 4}, {7, 9}, {1, 4}, {8, 8}, {0, 4}};
  for (int i = 0; i < pats; i++) { Mat *A = mat_pat(F, m, k, pp[i][0]), *B = mat_pat(F, k, n, pp[i][1]), *P = mat_mul(F, A, B);
    prod(F, A, B, P, set, pl % 4, pl / 4 % 4, (pl / 16 + i) % 5); }
}
/* all pairs of unit matrices X^a E_ij, X^b E_kl */
static void basis(const Fld *F, int m, int k, int n, unsigned set, int est) {
  Mat *A = mat_new(m, k), *B = mat_new(k, n), *C0 = mat_pat(F, m, n, 4);
  for (int i = 0; i < m * k; i++) for (int x = 0; x < F->k; x++) { A->v[i] = 1u << x; PM *a = pm_new(F, A, OWN);
    for (int j = 0; j < k * n; j++) for (int y = (x + i + j) % est; y < F->k; y += est) { B->v[j] = 1u << y; PM *b = pm_new(F, B, OWN); Mat *P = mat_mul(F, A, B), *CP = mat_add(P, C0);
      for (int z = 0; z < NAL; z++) if (set >> z & 1) {
        PM *t = pm_new(F, C0, OWN); mc_sub("%s X^%d E[%d] times X^%d E[%d]", AL[z].name, x, i, y, j); AL[z].f(t->m, a->m, b->m); mc_trans(1);
        pm_check(t, AL[z].acc ? CP : P, AL[z].name); pm_free(t);
      }
      pm_free(b); B->v[j] = 0; }
    pm_free(a); A->v[i] = 0; }
}
static Mat *enum_mat(const Fld *F, int r, int c, uint64_t code) { Mat *M = mat_new(r, c); for (int i = 0; i < r * c; i++) { M->v[i] = code & (F->q - 1); code >>= F->k; } return M; }

/* structured operands (zero rows, columns and borders, high or low coefficients only, equal rows, diagonal, triangular, permutation, 2I, blocks), targets with a single coefficient, squares of one object */
static void structured(const Fld *F, int m, int k, int n, unsigned set, int pat, int pl) {
  int n2 = NSTRUCT - NPAT, p2 = NPAT + (pat * 5 + m + n) % n2; long t = (long)m * n * F->k;
  Mat *A = mat_pat(F, m, k, pat), *B = mat_pat(F, k, n, p2); tpat = P_BIT + (int)(pl % 3 == 0 ? t - 1 : t * (pl % 11) / 11);
  prod(F, A, B, mat_mul(F, A, B), set, pl % 4, pl / 4 % 4, pl % 5); A = mat_pat(F, m, k, 4); prod(F, A, B, mat_mul(F, A, B), set, pl / 4 % 4, pl % 4, (pl + 2) % 5);
  A = mat_pat(F, m, m, pat); tpat = pl % 2 ? 0 : pat; same = 1; prod(F, A, A, mat_mul(F, A, A), set, pl % 4, pl % 4, (pl + 3) % 5); same = 0; tpat = 10;
}
PROPERTY(C09) {
  cutoff_now = 65;
  /* (1) every pair of 2x2 matrices over GF(4), every pair of 1x2 / 2x1 over GF(8) */
  for (int a = 0; a < 256; a += TIER(37, 1, 1)) if (CASE("all pairs of 2x2 over GF(4), A=%d", a)) { Fld *F = field(2, 0); Mat *A = enum_mat(F, 2, 2, a);
    for (int b = 0; b < 256; b += TIER(5, 1, 1)) { Mat *B = enum_mat(F, 2, 2, b); prod(F, A, B, mat_mul(F, A, B), A_ALL & (b % 8 == a % 8 ? A_ALL : ~A_BLM), OWN, OWN, (a + b) % 5); } }
  for (int k = 3; k <= TIER(3, 3, 4); k++) for (int a = 0; a < (1 << 2 * k); a += TIER(7, 1, 1)) if (CASE("all pairs of 1x2 by 2x1 over GF(%d), A=%d", 1 << k, a)) { Fld *F = field(k, 0); Mat *A = enum_mat(F, 1, 2, a);
    for (int b = 0; b < (1 << 2 * k); b++) { Mat *B = enum_mat(F, 2, 1, b); prod(F, A, B, mat_mul(F, A, B), A_ALL & ~A_BLM & (b % 4 == 1 ? A_ALL : ~A_KARA), OWN, OWN, (a + b) % 5); } }
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0), *G = field(k, -1); int e = F->epw;
    unsigned light = k <= 8 ? A_ALL : A_ALL & ~A_NJ0;
    /* (2) unit matrices */
    if (mc_tier) for (int q = 0; q < 2; q++) { if (CASE("k=%d unit matrices 2x2x2 part %d", k, q)) basis(q ? G : F, 2, 2, 2, q ? A_KARA : A_AUTO | A_NAIVE | 0x80, mc_tier == 2 ? 1 : 1 + k / 6); }
    if (mc_tier && k <= 8 && CASE("k=%d unit matrices %dx3x2 tables", k, k + 1)) basis(F, k + 1, 3, 2, 0x200, 1 + k / 3);
    if (mc_tier && CASE("k=%d unit matrices bilinear map", k)) basis(F, 1, 2, 1, 0x10000, mc_tier == 2 ? 1 : 1 + k / 4);
    /* (3) word-boundary shapes */
    int ms[] = {1, 2, 3, k, k + 1, 9, 17}, ks[] = {1, 2, 7, 8, 9, 15, 16, 17, 23, e - 1, e, e + 1, 2 * e, 2 * e + 1}, ns[] = {1, 2, e - 1, e, e + 1, 2 * e - 1, 2 * e, 2 * e + 1, 3 * e, 7 * e + 1, 8 * e, 9 * e - 1};
    for (int mi = 0; mi < 7; mi++) for (int ki = 0; ki < 14; ki++) for (int ni = 0; ni < 12; ni++) {
      int id = mi * 5 + ki * 3 + ni * 7 + k;
      int keep = k <= 8 ? (mc_tier == 0 ? id % 23 == 0 : mc_tier == 1 ? id % 3 == 0 : 1) : (mc_tier == 0 ? id % 67 == 0 : mc_tier == 1 ? id % 11 == 0 : id % 2 == 0);
      if (!keep) continue;
      int M = ms[mi], heavy = k > 8 && M >= k; /* real tables with 2^k rows */
      if (heavy && (ns[ni] > 2 * e + 1 || ks[ki] > 17 || (k > 12 && id % 3) || (k > 10 && mc_tier == 0))) continue;
      if (CASE("k=%d shape %dx%dx%d", k, M, ks[ki], ns[ni])) {
        int pats = heavy ? 1 : TIER(1, 3, 9);
        unsigned set = heavy ? A_NJ & (1u << (7 + id % 3)) : light & ~A_BLM;
        if (heavy) { shape(F, M, ks[ki], ns[ni], set, 1, id % 64); shape(F, M, ks[ki], ns[ni], A_KARA, 1, id % 64); }
        else { for (int pl = 0; pl < 64; pl += TIER(64, 16, 5)) { cutoff_now = (pl + id) % 3 ? 65 : 0; shape(F, M, ks[ki], ns[ni], cutoff_now ? set : set & ~0x180000u, pats, (pl + id * 7) % 80); } cutoff_now = 65;
          if (id % 4 == 0) shape(F, M, ks[ki], ns[ni], A_BLM, 1, id % 64); if (id % 5 == 0) shape(G, M, ks[ki], ns[ni], set, 1, id % 64); }
      }
    }
    if (k > 8 && CASE("k=%d simple tables", k)) shape(F, 3, 2, e + 1, A_NJ0, 1, 5);
    /* (4) all placements of A, B and C */
    if (mc_tier && k <= 8) for (int pl = 0; pl < 80; pl++) if (CASE("k=%d placements %d", k, pl)) { shape(F, k + 2, e + 3, e + 5, A_ALL & ~A_BLM, 1, pl); cutoff_now = 3 * e / 2; shape(F, 2 * e + 1, 2 * e + 3, 2 * e + 2, A_STR, 1, pl); cutoff_now = 65; }
    /* (5) Strassen recursion: all cutoffs */
    int cut[] = {0, 65, 66, 80, 100, 128, 1000};
    for (int ci = 0; ci < 7; ci++) for (int s = 0; s < 10; s++) {
      static const int sh[][3] = {{87, 87, 87}, {88, 90, 130}, {128, 128, 128}, {129, 128, 127}, {131, 129, 133}, {174, 176, 175}, {90, 260, 100}, {200, 88, 96}, {97, 101, 200}, {150, 151, 64}};
      if (mc_tier == 0 && ((ci + s) % 5 || k > 8)) continue;
      if (k > 10 && (ci == 0 || s != ci)) continue;
      if (k > 8 && mc_tier == 1 && (s + ci + k) % 5) continue;
      if (k > 12 && mc_tier == 1) continue;
      if (CASE("k=%d strassen %dx%dx%d cutoff %d", k, sh[s][0], sh[s][1], sh[s][2], cut[ci])) { cutoff_now = cut[ci]; unsigned set = cut[ci] == 0 ? 0x60000 : k > 8 ? 0x20000u << (s + ci + k) % 4 : A_STR; shape(F, sh[s][0], sh[s][1], sh[s][2], set, TIER(1, 1, k > 8 ? 1 : 3), (s * 17 + ci * 5) % 80); cutoff_now = 65; }
    }
    /* a cutoff of 1.5 words splits down to single words: small shapes go deep */
    int ss[] = {e, 2 * e - 1, 2 * e, 2 * e + 1, 3 * e + 1, 4 * e, 4 * e + 3}; int nss = k > 8 ? 7 : k > 4 ? 6 : k > 2 ? 5 : 4;
    for (int i = 0; i < nss; i++) for (int j = 0; j < nss; j++) for (int l = 0; l < nss; l++) {
      if (k > 8 && ss[i] >= k && (mc_tier == 0 || (i + j + l + k) % (k > 11 ? 9 : 4))) continue;
      if (mc_tier == 0 && (i + j * 2 + l + k) % 7) continue;
      if (mc_tier == 1 && ss[i] > e && k <= 8 && (i + j + l + k) % 2) continue;
      if (CASE("k=%d strassen %dx%dx%d down to words", k, ss[i], ss[j], ss[l])) { cutoff_now = 3 * e / 2; shape(F, ss[i], ss[j], ss[l], k > 8 && ss[i] >= k ? 0x20000u << (i + j + l) % 4 : A_STR, TIER(1, k <= 8 ? 2 : 1, k <= 8 ? 5 : 1), (i * 9 + j * 31 + l * 7) % 80); cutoff_now = 65; }
    }
    /* (6) block size of the table algorithm: many rows */
    { int rows = F->w * 2048; int rr[] = {rows - 1, rows, rows + 1, rows + 2048 / F->w, rows + 2048 / F->w + 1};
      for (int i = 0; i < 5; i++) if ((k <= 8 ? mc_tier || i == 1 : (mc_tier == 1 && k <= 9 && i < 3) || (mc_tier == 2 && k <= 12)) && CASE("k=%d %d rows", k, rr[i])) {
        shape(F, rr[i], 9, 2, 0x100, 1, 0); if (k <= 8) { shape(F, rr[i], 17, e + 1, 0x80, 1, i * 21 % 80); shape(F, rr[i], 7, 3, A_AUTO, 1, 37 + i); if (k <= 4) shape(F, rr[i], 109, 2, 0x100, 1, 5 + i); else shape(F, rr[i], 40, 2, 0x100, 1, 5 + i); } } }
    /* (7) automatic choice around 512 */
    static const int big[][3] = {{512, 512, 512}, {511, 512, 512}, {512, 511, 513}, {513, 514, 512}, {512, 513, 511}, {600, 577, 550}};
    for (int s = 0; s < TIER(1, 6, 6); s++) {
      int kara = big[s][0] >= 512 && big[s][1] >= 512 && big[s][2] >= 512;
      if (mc_tier == 0 && k != 2 && k != 5) continue;
      if (mc_tier == 1 && (k > 4 ? (s != k % 6) : 0)) continue;
      if (!kara && k > 10) continue; /* tables of 2^k rows of 1 KB each */
      if (CASE("k=%d automatic %dx%dx%d", k, big[s][0], big[s][1], big[s][2])) shape(F, big[s][0], big[s][1], big[s][2], mc_tier == 2 && k <= 8 ? A_AUTO : 1u << (s + k) % 2 | 4u << (s + k / 2) % 2, 1, (k * 5 + s * 19) % 80);
    }
    /* longer than 2^16 in one dimension */
    for (int s = 0; s < 3; s++) if (LONG(k) && CASE("k=%d long, dimension %d", k, s)) { cutoff_now = 65; int m = s == 0 ? 70000 : 2, l = s == 1 ? 70000 : 2, n = s == 2 ? 70000 : 2; unsigned set = s == 0 && k > 8 ? A_NAIVE & 0x30 : k <= 8 ? (A_ALL & ~A_BLM & ~A_NJ0) | (s == 0 ? 0x4000 : 0) : A_AUTO | A_NAIVE | A_KARA; shape(F, m, l, n, set & ~0x180000u, 1, (k * 7 + s * 3) % 64); }
    /* (8) structured operands */
    for (int pat = NPAT; pat < NSTRUCT; pat++) for (int q = 0; q < TIER(1, 3, 8); q++) if ((mc_tier || (pat + k) % 3 == 0) && CASE("k=%d structured operands %d, variant %d", k, pat, q)) { Fld *H = q % 2 ? G : F; int id = pat * 7 + k * 3 + q * 13;
      structured(H, 4, 5, e + 1, light & (q % 4 == 0 ? A_ALL : ~A_BLM) & ~A_NJ0 & ~0x180000u, pat, id); structured(H, 2 * e + 1, e + 2, 2 * e + 1, k <= 8 ? A_ALL & ~A_NJ0 & ~A_BLM & ~0x180000u : A_KARA | A_NAIVE, pat, id + 1);
      if (k <= 8) { cutoff_now = 3 * e / 2; structured(H, 2 * e + 2, 3 * e, 2 * e + 1, A_STR, pat, id + 2); if (k <= 4 && mc_tier) structured(H, 4 * e + 1, 4 * e, 5 * e - 1, A_STR, pat, id + 3); cutoff_now = 65; }
      if (mc_tier == 2) structured(H, 70, 130, 67, A_KARA | A_NAIVE, pat, id + 5); }
    /* a grid of shapes: squares, even and odd, more rows than columns and the reverse */
    { static const int gr[][3] = {{3, 3, 3}, {5, 5, 5}, {8, 8, 8}, {13, 13, 13}, {16, 16, 16}, {24, 24, 24}, {64, 64, 64}, {13, 8, 64}, {5, 128, 6}, {6, 5, 128}, {8, 65, 65}, {64, 1, 64}, {21, 64, 1}, {3, 5, 310}, {2, 1030, 3}, {5, 3, 1030}};
      for (int a = 0; a < 16; a++) if ((mc_tier || (a + k) % 4 == 0) && (k <= 8 || a != 6) && CASE("k=%d grid %dx%dx%d", k, gr[a][0], gr[a][1], gr[a][2])) { int big = gr[a][0] * gr[a][1] * gr[a][2] > 8000;
        cutoff_now = 65; shape(F, gr[a][0], gr[a][1], gr[a][2], k <= 8 ? A_ALL & ~A_NJ0 & ~(big ? A_BLM : 0) : A_NAIVE | A_KARA | (mc_tier == 2 ? A_NJ : 0), 1, a * 11 + k * 3); } }
    /* (9) squares of dense matrices: one object twice, and two objects with the same content */
    { int ns[] = {1, 2, e, e + 1, 2 * e, 2 * e + 1, 3 * e, 4 * e + 1, 64, 65, 128, 130}; for (int i = 0; i < 12; i++) { if (mc_tier == 0 && (i + k) % 6) continue;
      int n = ns[i], tab = k <= 8 || n < k; if (k > 8 && n > 70) continue;
      if (CASE("k=%d squares n=%d", k, n)) for (int v = 0; v < TIER(1, 2, 6); v++) { Mat *A = mat_pat(F, n, n, v % 3 == 0 ? 4 : v % 3 == 1 ? 7 : 3), *P = mat_mul(F, A, A); int pl = i * 7 + v * 5 + k; unsigned big = n > 40 && k > 4 ? 1u << pl % 7 | A_KARA : A_ALL & ~A_STR & ~A_BLM;
        same = v % 2 == 0; prod(F, A, A, P, (tab ? big : A_NAIVE | A_KARA) & (k <= 8 ? A_ALL : ~A_NJ0), pl % 4, pl / 4 % 4, pl % 5); if (n <= 2) prod(F, A, A, P, A_BLM, pl % 4, pl / 4 % 4, pl % 5);
        if (n > e && tab) { cutoff_now = 3 * e / 2; prod(F, A, A, P, A_STR, pl % 4, pl / 4 % 4, pl % 5); if (n > 100) { cutoff_now = 65; prod(F, A, A, P, A_STR, pl % 4, pl / 4 % 4, (pl + 1) % 5); } cutoff_now = 65; } same = 0; } } }
    /* (10) blocks that are zero, equal or sums of one another: every code of the left operand; intermediate sums of the recursion vanish */
    for (int a = 0; a < 256; a += 16) if ((mc_tier || (a / 16 + k) % 8 == 0) && CASE("k=%d block combinations %d..%d", k, a, a + 15)) for (int ac = a; ac < a + 16; ac++) {
      if (mc_tier == 0 && ac % 4) continue; int n = 2 * e + (ac + k) % 3 / 2, st = 256 / TIER(1, k <= 3 ? 4 : 8, k <= 3 ? 8 : 32); Mat *A = mat_quad(F, n, n, e, e, ac); cutoff_now = 3 * e / 2;
      for (int b = ac * 37 % st; b < 256; b += st) { Mat *B = mat_quad(F, n, n, e, e, b); prod(F, A, B, mat_mul(F, A, B), (k <= 8 || n < k ? A_STR : 0) | (b % 5 == 0 ? A_KARA | A_NAIVE : k > 8 ? A_KARA : 0), ac % 4, b % 4, (ac + b / st) % 5); } cutoff_now = 65; }
  }
}

/* C11: polynomials over GF(2)-matrices; bilinear maps and modulus plans. */
#include "mc.h"
#include <m4rie/mzd_poly.h>

/* model: coefficient matrices over GF(2) */
typedef struct { int d, r, c; uint8_t *v; } Pol;
#define PB(P, e, i, j) ((P)->v[((size_t)(e) * (P)->r + (i)) * (P)->c + (j)])
static Pol *po_new(int d, int r, int c) { Pol *p = ar_alloc(sizeof *p); p->d = d; p->r = r; p->c = c; p->v = ar_zalloc((size_t)d * r * c + 8); return p; }
static Pol *po_pat(int d, int r, int c, int pat) { Pol *p = po_new(d, r, c); size_t n = (size_t)d * r * c;
  for (size_t i = 0; i < n; i++) p->v[i] = pat == 0 ? 1 : pat == 1 ? i % 3 == 0 : pat == 2 ? (i / c) % 2 : mc_hash(i, pat, d, c) & 1; return p; }
static Pol *po_mul(const Pol *A, const Pol *B, const Pol *C) {
  Pol *P = po_new(A->d + B->d - 1, A->r, B->c); if (C) memcpy(P->v, C->v, (size_t)P->d * P->r * P->c);
  for (int a = 0; a < A->d; a++) for (int b = 0; b < B->d; b++) for (int i = 0; i < A->r; i++) for (int l = 0; l < A->c; l++) if (PB(A, a, i, l))
    for (int j = 0; j < B->c; j++) PB(P, a + b, i, j) ^= PB(B, b, l, j);
  return P;
}
/* contents that shortcuts look for: which coefficients are zero, one, equal, sparse */
#define NSPEC 14
static Pol *po_spec(int d, int r, int c, int t) { Pol *p = po_new(d, r, c);
  for (int e = 0; e < d; e++) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int v = mc_hash(i, j, e, 31) & 1;
    switch (t) { case 0: v = 0; break; case 1: v = e == 0 && i == j; break; case 2: v = e == d - 1 && i == j; break; case 3: if (e) v = 0; break; case 4: if (e < d - 1) v = 0; break;
    case 5: if (2 * e >= d) v = 0; break; case 6: if (2 * e < d) v = 0; break; case 7: if (e % 2) v = 0; break; case 8: v = i == j; break; case 9: v = mc_hash(i, j, 0, 31) & 1; break;
    case 10: if (e == d - 1) v = 0; break; case 11: v = i == r - 1 && j == c - 1 && e == d / 2; break; case 12: v = mc_hash(i, j, e % 2, 31) & 1; break; case 13: if (j < c / 2) v = 0; break; }
    PB(p, e, i, j) = v; }
  return p; }
static mzd_poly_t *po_real(const Pol *p, int extra) {
  mzd_poly_t *X = mzd_poly_init(p->d + extra - 1, p->r, p->c);
  for (int e = 0; e < p->d; e++) for (int i = 0; i < p->r; i++) for (int j = 0; j < p->c; j++) if (PB(p, e, i, j)) X->x[e]->rows[i][j / 64] |= 1ULL << j % 64;
  return X;
}
/* every bit, padding included; coefficients past the model must be zero */
static void po_check1(const mzd_t *x, const Pol *p, int e, const char *what) {
  CHECK(x->nrows == p->r && x->ncols == p->c, "%s: coefficient %d is %dx%d", what, e, x->nrows, x->ncols);
  for (int i = 0; i < p->r; i++) for (int w = 0; w < x->width; w++) { word t = 0;
    if (e < p->d) for (int j = w * 64; j < w * 64 + 64 && j < p->c; j++) t |= (word)PB(p, e, i, j) << j % 64;
    CHECK(x->rows[i][w] == t, "%s: coefficient %d row %d word %d is 0x%llx, expected 0x%llx", what, e, i, w, (unsigned long long)x->rows[i][w], (unsigned long long)t); }
}
static void po_check(const mzd_poly_t *X, const Pol *p, const char *what) {
  CHECK(X != NULL, "%s: NULL", what); CHECK(X->nrows == p->r && X->ncols == p->c, "%s: dimensions %dx%d", what, X->nrows, X->ncols);
  CHECK((int)X->depth >= p->d, "%s: depth %d, needs %d", what, (int)X->depth, p->d);
  for (int e = 0; e < (int)X->depth; e++) po_check1(X->x[e], p, e, what);
}
enum { R_NAIVE = 1, R_KARA = 2, R_CRT = 4, R_EXT = 8, R_BLM = 16 };
static blm_t *fm;
static mzd_poly_t *call(int route, mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
  switch (route) {
  case R_NAIVE: return _mzd_poly_addmul_naive(C, A, B);
  case R_KARA: return _mzd_poly_addmul_karatsubs_balanced(C, A, B);
  case R_CRT: return _mzd_poly_addmul_crt(C, A, B);
  case R_EXT: return _mzd_poly_addmul_ext1(C, A, B);
  default: return _mzd_poly_addmul_blm(C, A, B, fm);
  }
}
static int same;   /* both operands are one object */
static void prodp(const Pol *A, const Pol *B, unsigned routes) {
  if (same) B = A;
  mzd_poly_t *a = po_real(A, 0), *b = same ? a : po_real(B, 0);
  Pol *C0 = po_pat(A->d + B->d - 1, A->r, B->c, 7), *P = po_mul(A, B, NULL), *S = po_mul(A, B, C0);
  for (int r = 1; r <= 16; r *= 2) if (routes & r) { if (r == R_KARA && A->d != B->d) continue;
    for (int t = 0; t < 3; t++) { /* fresh, dirty, dirty with spare coefficients */
      mc_sub("route %d depths %d %d shape %dx%dx%d target %d", r, A->d, B->d, A->r, A->c, B->c, t);
      mzd_poly_t *c = t ? po_real(C0, t - 1) : NULL, *x = call(r, c, a, b); mc_trans(1);
      CHECK(!t || x == c, "another object returned"); po_check(x, t ? S : P, "product"); mzd_poly_free(x);
      po_check(a, A, "operand A"); po_check(b, B, "operand B"); CHECK((int)a->depth == A->d && (int)b->depth == B->d, "operand depth changed");
    } }
  mzd_poly_free(a); if (!same) mzd_poly_free(b);
}
/* all pairs x^i, x^j at once: the (i,j) entry of the product must be x^(i+j) */
static void outerp(int a, int b, unsigned routes) {
  Pol *A = po_new(a, a, 1), *B = po_new(b, 1, b); for (int i = 0; i < a; i++) PB(A, i, i, 0) = 1; for (int i = 0; i < b; i++) PB(B, i, 0, i) = 1;
  mc_states((uint64_t)a * b); prodp(A, B, routes);
}
/* --- plans: what moduli does a plan stand for; 0 if not a plan of coprime moduli of those degrees */
static int plan_degree(const int *p) {
  int it[17] = {0}, deg = p[0];
  for (int d = 1; d <= 16; d++) for (int i = 0; i < p[d]; i++) {
    if (it[d] < mdl_nirr[d]) it[d]++;
    else if (d % 2 == 0 && it[d / 2] < mdl_nirr[d / 2]) it[d / 2]++;
    else if (d % 4 == 0 && it[d / 4] < mdl_nirr[d / 4]) it[d / 4]++;
    else if (d % 8 == 0 && it[d / 8] < mdl_nirr[d / 8]) it[d / 8]++;
    else return 0;
    deg += d;
  }
  return deg;
}
static uint32_t pmod(uint32_t a, const Fld *F) { if (!F) return a; for (int i = 31; i >= F->k; i--) if (a >> i & 1) a ^= F->poly << (i - F->k); return a; }
/* the map itself, on every pair of basis vectors: H((F e_i) & (G e_j)) = x^(i+j) mod f */
static void map_check(const blm_t *f, const Fld *F, int a, int b) {
  CHECK(f && f->F && f->G && f->H, "incomplete map"); int m = f->F->nrows, ho = F ? F->k : a + b - 1;
  CHECK(f->F->ncols == a && f->G->ncols == b && f->G->nrows == m && f->H->ncols == m && f->H->nrows == ho, "map dimensions F %dx%d G %dx%d H %dx%d", m, f->F->ncols, f->G->nrows, f->G->ncols, f->H->nrows, f->H->ncols);
  for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) {
    uint64_t got = 0, want = 0;
    if (F) { uint32_t t = 1; for (int s = 0; s < i + j; s++) t = pmod(t << 1, F); want = t; }
    for (int o = 0; o < ho; o++) { int s = 0; for (int r = 0; r < m; r++) s ^= mzd_read_bit(f->F, r, i) & mzd_read_bit(f->G, r, j) & mzd_read_bit(f->H, o, r);
      if (F) got |= (uint64_t)s << o; else CHECK(s == (o == i + j), "x^%d * x^%d has coefficient %d at x^%d", i, j, s, o); }
    CHECK(got == want, "x^%d * x^%d mod f is 0x%llx, expected 0x%llx", i, j, (unsigned long long)got, (unsigned long long)want); mc_states(1);
  }
}
/* apply to concrete matrices through every entry point; X held anything before */
static void map_apply(const blm_t *f, const Fld *F, int a, int b, int r, int l, int c, int pat) {
  Pol *A = po_pat(a, r, l, pat), *B = po_pat(b, l, c, pat + 1), *P = po_mul(A, B, NULL); int n = F ? F->k : P->d;
  Pol *W = po_new(n, r, c); for (int e = 0; e < P->d; e++) { uint32_t t = 1; if (F) { for (int s = 0; s < e; s++) t = pmod(t << 1, F); }
    for (int o = 0; o < n; o++) if (F ? t >> o & 1 : o == e) for (int i = 0; i < r * c; i++) W->v[(size_t)o * r * c + i] ^= P->v[(size_t)e * r * c + i]; }
  mzd_poly_t *x = po_real(A, 0), *y = po_real(B, 0); Pol *C0 = po_pat(n, r, c, 9);
  for (int way = 0; way < 3; way++) { if (way == 1 && !f->f) continue;
    mzd_poly_t *z = po_real(C0, 0); mc_sub("apply way %d lengths %d %d shape %dx%dx%d%s", way, a, b, r, l, c, F ? " reduced" : "");
    (way == 0 ? _mzd_ptr_apply_blm_mzd : way == 1 ? _mzd_ptr_apply_blm_djb : _mzd_ptr_apply_blm)(z->x, (const mzd_t **)x->x, (const mzd_t **)y->x, f); mc_trans(1);
    po_check(z, W, "applied map"); mzd_poly_free(z); }
  po_check(x, A, "operand A of apply"); po_check(y, B, "operand B of apply"); mzd_poly_free(x); mzd_poly_free(y);
}
static void one_plan(const int *p, const Fld *F, int a, int b, int djb, int apply) {
  mc_sub("lengths %d %d plan %d;%d,%d,%d,%d,%d,%d,%d,%d djb %d minpoly %x", a, b, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], djb, F ? F->poly : 0);
  int p2[17]; memcpy(p2, p, sizeof p2);
  blm_t *f = blm_init_crt(F ? F->ff : NULL, a, b, p2, djb); mc_trans(1); CHECK(!memcmp(p, p2, sizeof p2), "plan changed");
  CHECK(djb ? f->f && f->g && f->h : !f->f && !f->h, "programs %s", djb ? "missing" : "present");
  map_check(f, F, a, b);
  if (apply) { map_apply(f, F, a, b, 1, 1, 1, 0); map_apply(f, F, a, b, 2, 3, 65, 3);
    if (!F) { fm = f; outerp(a, b, R_BLM); fm = NULL; } }
  blm_free(f);
}
static int (*pl)[17]; static int npl, maxpl;
static void rec(int d, int *p, int have, int need, int slack, int top) {
  if (npl >= maxpl) return;
  if (d > top) { if (have >= need && have <= need + slack && plan_degree(p) == have) memcpy(pl[npl++], p, 17 * sizeof(int)); return; }
  for (int n = 0; have + n * d <= need + slack && n <= 8; n++) { p[d] = n; rec(d + 1, p, have + n * d, need, slack, top); }
  p[d] = 0;
}
static void plans(int need, int slack, int top, int max) { static int buf[8192][17]; pl = buf; npl = 0; maxpl = max; int p[17] = {0};
  for (int om = 0; om <= need + slack && om <= 16; om++) { p[0] = om; rec(1, p, om, need, slack, top < need + slack ? top : need + slack); } }
static void greedy(int need, int max) { static int buf[128][17]; pl = buf; npl = 0;
  for (int om = 0; om <= (need < 16 ? need : 16) && npl < max; om += 1 + om / 4) for (int start = 1; start <= 16 && npl < max; start++) {
    int p[17] = {0}, have = om; p[0] = om;
    for (int d = start; d <= 16 && have < need; d++) while (p[d] < mdl_nirr[d] && have < need && have + d <= need) { p[d]++; have += d; }
    for (int d = 1; d <= 16 && have < need; d++) if (p[d] < mdl_nirr[d]) { p[d]++; have += d; }
    if (have >= need) memcpy(pl[npl++], p, sizeof p);
  } }

PROPERTY(C11) {
  int L = TIER(6, 16, 16);
  /* (1) every pair of lengths, every pair of basis polynomials, every route */
  for (int a = 1; a <= L; a++) for (int b = 1; b <= L; b++) if (CASE("lengths %d %d basis", a, b)) { outerp(a, b, R_NAIVE | R_KARA | R_CRT | R_EXT); }
  for (int a = 1; a <= 16; a++) if (CASE("balanced length %d", a)) for (int pat = 0; pat < TIER(2, 8, 40); pat++) { outerp(a, a, R_KARA); prodp(po_pat(a, 2, 3, pat), po_pat(a, 3, 65, pat + 3), R_NAIVE | R_KARA); }
  /* (2) word-boundary shapes of the coefficients */
  for (int a = 1; a <= L; a++) for (int s = 0; s < 8; s++) { static const int sh[][3] = {{1, 1, 1}, {2, 3, 63}, {3, 64, 64}, {3, 65, 65}, {17, 2, 127}, {4, 63, 128}, {64, 65, 129}, {33, 130, 3}};
    if (mc_tier == 0 && (a + s) % 4) continue;
    if (CASE("length %d shape %dx%dx%d", a, sh[s][0], sh[s][1], sh[s][2])) for (int pat = 0; pat < TIER(1, 2, 4); pat++) { int q[] = {a, 1 + (a + s + pat) % L, 1 + (a * s + 2) % L};
      for (int i = 0; i < TIER(1, 2, 3); i++) prodp(po_pat(a, sh[s][0], sh[s][1], pat), po_pat(q[i], sh[s][1], sh[s][2], 5 - pat), sh[s][0] > 30 && a + q[i] > 20 && mc_tier == 1 ? R_NAIVE | R_KARA : R_NAIVE | R_KARA | R_CRT | R_EXT); } }
  /* (3) the planner: enough coprime moduli for every pair of lengths */
  for (int a = 1; a <= TIER(8, 24, 32); a++) for (int b = 1; b <= TIER(8, 24, 32); b++) if (CASE("planner %d %d", a, b)) {
    int *p = crt_init(a, b); mc_trans(1); int have = plan_degree(p), c = 0; for (int d = 0; d <= 16; d++) { CHECK(p[d] >= 0, "negative count"); c += d ? costs[d] * p[d] : costs[p[0]]; }
    CHECK(have >= a + b - 1, "plan for lengths %d, %d covers degree %d only", a, b, have); CHECK(blm_cost_crt(p) == c, "cost %d, expected %d", blm_cost_crt(p), c);
    if (a <= 16 && b <= 16) { one_plan(p, NULL, a, b, 0, (a + b) % 3 == 0); one_plan(p, NULL, a, b, 1, (a + b) % 3 == 1); } else one_plan(p, NULL, a, b, (a + b) % 2, 0);
    m4ri_mm_free(p); }
  /* (4) every plan of sufficient degree for short products; matrix and program form; plain and reduced */
  for (int a = 1; a <= TIER(3, 5, 6); a++) for (int b = 1; b <= TIER(3, 5, 6); b++) for (int part = 0; part < 16; part++) {
    if (a + b - 1 > TIER(5, 7, 9)) continue;
    if (CASE("all plans for lengths %d %d part %d", a, b, part)) { plans(a + b - 1, TIER(1, 2, 4), 8, 8192); if (npl == 8192) mc_note("plan list truncated", 1);
      for (int i = part; i < npl; i += 16) { one_plan(pl[i], NULL, a, b, i / 16 % 2, i % 3 == 0); int k = 2 + (i / 16 + a * b) % 15; one_plan(pl[i], field(k, 0), a, b, i / 32 % 2, i % 5 == 0); } } }
  /* (5) greedy plans from every starting degree for longer products */
  for (int a = 1; a <= L; a++) for (int b = 1; b <= L; b++) { if ((a * 7 + b) % TIER(5, 3, 1) != 0 && a != b) continue;
    if (CASE("plan family for lengths %d %d", a, b)) { greedy(a + b - 1, 64); int st = TIER(9, 3, 1); for (int i = (a + b) % st; i < npl; i += st) { Fld *F = i % 3 == 0 ? NULL : field(2 + (i + a) % 15, -1); one_plan(pl[i], F, a, b, i % 2, i % 4 == 0); } } }
  /* (5b) moduli that are squares, fourth and eighth powers: every split of degrees 1, 2, 4 (and 8) */
  for (int n1 = 0; n1 <= 2; n1++) for (int n2 = 0; n2 <= 3; n2++) { if (mc_tier == 0 && (n1 + n2) % 2) continue;
    if (CASE("plans with powers, %d of degree 1, %d of degree 2", n1, n2)) for (int n4 = 0; n4 <= 6; n4++) for (int n8 = 0; n8 <= 3; n8++) for (int d3 = 0; d3 <= 2; d3++) for (int om = 0; om < 4; om += 1 + 2 * (n8 > 1)) {
      int p[17] = {0}, need = n1 + 2 * n2 + 4 * n4 + 8 * n8 + 3 * d3 + om, a, b; if (need < 2 || need > 31) continue; if (mc_tier == 0 && (n4 + n8 + d3 + om) % 5) continue; if (mc_tier == 1 && need > 24 && (n4 + n8 + d3 + om) % 3 && n4 < 6) continue;
      p[0] = om; p[1] = n1; p[2] = n2; p[3] = d3; p[4] = n4; p[8] = n8; if (plan_degree(p) != need) continue; a = (need + 2) / 2; b = need + 1 - a;
      one_plan(p, NULL, a, b, n4 % 2, 0); if (n4 == 6 || mc_tier == 2) one_plan(p, field(2 + need % 15, -1), b, a, 0, 0); } }
  /* (5c) long products whose plan needs the fourth and eighth powers among the moduli of degree 8 */
  for (int n8 = 33; n8 <= 36; n8++) for (int n4 = 0; n4 <= 3; n4 += 3) for (int b = 2; b <= TIER(2, 3, 5); b++) if (CASE("plan with %d moduli of degree 8 and %d of degree 4, second length %d", n8, n4, b)) {
    int p[17] = {0}, need = 8 * n8 + 4 * n4; p[8] = n8; p[4] = n4; if (plan_degree(p) == need) one_plan(p, NULL, need + 1 - b, b, 0, 0); }
  /* (7) special contents of either operand, one object as both operands, larger coefficients */
  for (int a = 1; a <= 16; a++) for (int t = 0; t < NSPEC; t++) { if (mc_tier == 0 && (a + t) % 6) continue; if (CASE("length %d special contents %d", a, t)) { static const int ns[] = {1, 3, 17, 65, 70, 130};
    for (int s = 0; s < TIER(2, a <= 8 ? 5 : 4, 6); s++) for (int u = 0; u <= NSPEC; u++) { int n = ns[s], bl = 1 + (a + u + t + s) % 16; if (mc_tier < 2 && s > 1 && u != t && (u + t + s + a) % 5) continue;
      Pol *A = po_spec(a, n, n, t), *B = u == NSPEC ? po_pat(a, n, n, 4) : po_spec(a, n, n, u); unsigned crt = mc_tier == 2 || (u + t) % 7 == 0 ? R_CRT : 0;
      prodp(A, B, R_NAIVE | R_KARA | crt); if ((u + t) % 3 == 0) prodp(B, A, R_NAIVE | R_KARA); prodp(A, u == NSPEC ? po_pat(bl, n, n, 4) : po_spec(bl, n, n, u), R_NAIVE | crt);
      if (a <= 8 && (u + t) % 5 == 0) prodp(A, B, R_EXT); if (u == 0) { same = 1; prodp(A, A, R_NAIVE | R_KARA | R_CRT); same = 0; } } } }
  for (int a = 1; a <= TIER(0, 9, 16); a++) if (CASE("length %d large coefficients", a)) { static const int sh[][3] = {{200, 70, 130}, {33, 513, 40}, {258, 17, 300}}; for (int s = 0; s < 3; s++) { prodp(po_pat(a, sh[s][0], sh[s][1], 3), po_pat(a, sh[s][1], sh[s][2], 4), R_NAIVE | R_KARA | (a < 5 ? R_CRT : 0)); } }
  /* (8) long polynomials: the routes without a length limit */
  { static const int lo[] = {17, 20, 31, 32, 33, 40, 63, 64, 65, 70, 100, 127, 128, 130}; for (int x = 0; x < 14; x++) for (int y = 0; y < 5; y++) { static const int sh[][3] = {{1, 1, 1}, {2, 3, 65}, {5, 2, 1}}; int b = y == 0 ? 1 : y == 1 ? 2 : y == 2 ? lo[x] : y == 3 ? 17 : lo[x] - 1; if (mc_tier == 0 && (x + y) % 5) continue;
    if (CASE("long lengths %d %d", lo[x], b)) { for (int s = 0; s < TIER(1, 2, 3); s++) { prodp(po_pat(lo[x], sh[s][0], sh[s][1], 3 + y), po_pat(b, sh[s][1], sh[s][2], 4 + x), R_NAIVE | (lo[x] + b <= TIER(40, 68, 260) ? R_CRT : 0)); prodp(po_pat(b, sh[s][0], sh[s][1], 5 + y), po_pat(lo[x], sh[s][1], sh[s][2], 3 + x), R_NAIVE); }
      if (b < 40) outerp(lo[x], b, R_NAIVE); } } }
  /* (6) addition of polynomials into a zero target */
  for (int d = 1; d <= 16; d++) if (CASE("addition of polynomials, length %d", d)) for (int s = 0; s < 4; s++) { int r = 1 + s, c = 63 + s; Pol *A = po_pat(d, r, c, 3 + s), *B = po_pat(d, r, c, 6), *S = po_new(d, r, c), *Z = po_new(d + 2, r, c);
    for (size_t i = 0; i < (size_t)d * r * c; i++) { S->v[i] = A->v[i] ^ B->v[i]; Z->v[i + (size_t)(s % 3) * r * c] = S->v[i]; }
    mzd_poly_t *a = po_real(A, 0), *b = po_real(B, 0), *x = po_real(po_new(1, r, c), d - 1 + s), *y = po_real(po_new(1, r, c), d + 1);
    CHECK(mzd_poly_add(x, a, b) == x, "another object"); po_check(x, S, "mzd_poly_add"); CHECK(_mzd_poly_add(y, a, b, s % 3) == y, "another object"); po_check(y, Z, "_mzd_poly_add"); mc_trans(2);
    po_check(a, A, "operand A"); po_check(b, B, "operand B"); mzd_poly_free(a); mzd_poly_free(b); mzd_poly_free(x); mzd_poly_free(y); }
}

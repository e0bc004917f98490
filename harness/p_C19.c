/* C19: mismatched operands are refused before anything is modified. Every
 * combination of the six dimensions of C, A, B out of {base-1, base, base+1}
 * (and word-sized jumps), and of the fields of the operands. */
#include "mc.h"

typedef struct { int r, c; } Dim;
/* ------------------------------------------------------------ three-operand packed */
static mzed_t *str0(mzed_t *C, const mzed_t *A, const mzed_t *B) { return mzed_mul_strassen(C, A, B, 0); }
static mzed_t *str1(mzed_t *C, const mzed_t *A, const mzed_t *B) { return mzed_mul_strassen(C, A, B, 64); }
static mzed_t *astr0(mzed_t *C, const mzed_t *A, const mzed_t *B) { return mzed_addmul_strassen(C, A, B, 0); }
static mzed_t *astr1(mzed_t *C, const mzed_t *A, const mzed_t *B) { return mzed_addmul_strassen(C, A, B, 64); }
static const struct { const char *n; mzed_t *(*f)(mzed_t *, const mzed_t *, const mzed_t *); int acc, nul; } P3[] = {
  {"mzed_mul", mzed_mul, 0, 1}, {"mzed_addmul", mzed_addmul, 1, 0}, {"mzed_mul_naive", mzed_mul_naive, 0, 1}, {"mzed_addmul_naive", mzed_addmul_naive, 1, 0},
  {"mzed_mul_newton_john", mzed_mul_newton_john, 0, 1}, {"mzed_addmul_newton_john", mzed_addmul_newton_john, 1, 0},
  {"mzed_mul_strassen(0)", str0, 0, 1}, {"mzed_mul_strassen(64)", str1, 0, 1}, {"mzed_addmul_strassen(0)", astr0, 1, 0}, {"mzed_addmul_strassen(64)", astr1, 1, 0},
  {"mzed_mul_karatsuba", mzed_mul_karatsuba, 0, 1}, {"mzed_addmul_karatsuba", mzed_addmul_karatsuba, 1, 0}, {"mzed_mul_blm", mzed_mul_blm, 0, 1}, {"mzed_addmul_blm", mzed_addmul_blm, 1, 0}};
#define NP3 14
static mzd_slice_t *sblm(mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B) { return mzd_slice_mul_blm(C, A, B, NULL); }
static mzd_slice_t *asblm(mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B) { return mzd_slice_addmul_blm(C, A, B, NULL); }
static const struct { const char *n; mzd_slice_t *(*f)(mzd_slice_t *, const mzd_slice_t *, const mzd_slice_t *); int acc, nul; } S3[] = {
  {"mzd_slice_mul", mzd_slice_mul, 0, 1}, {"mzd_slice_addmul", mzd_slice_addmul, 1, 0}, {"mzd_slice_mul_karatsuba", mzd_slice_mul_karatsuba, 0, 1}, {"mzd_slice_addmul_karatsuba", mzd_slice_addmul_karatsuba, 1, 0},
  {"mzd_slice_mul_blm", sblm, 0, 1}, {"mzd_slice_addmul_blm", asblm, 1, 0}};
#define NS3 6

static Mat *prod(const Fld *F, int acc, const Mat *C, const Mat *A, const Mat *B) { Mat *P = mat_mul(F, A, B); return acc ? mat_add(C, P) : P; }
static Mat *fit(const Fld *F, int r, int c, int pat) { return mat_pat(F, r, c, pat); }

static void say(const char *n, Dim c, int cn, Dim a, Dim b, const Fld *FC, const Fld *FA, const Fld *FB) {
  if (cn) mc_sub("%s: target NULL, A %dx%d over 0x%x, B %dx%d over 0x%x", n, a.r, a.c, FA->poly, b.r, b.c, FB->poly);
  else mc_sub("%s: target %dx%d over 0x%x, A %dx%d over 0x%x, B %dx%d over 0x%x", n, c.r, c.c, FC->poly, a.r, a.c, FA->poly, b.r, b.c, FB->poly);
}
/* is_add: dimensions must all be equal; otherwise the product rule */
static int fits(int is_add, int cn, Dim c, Dim a, Dim b, const Fld *FC, const Fld *FA, const Fld *FB) {
  if (FA != FB || (!cn && FC != FA)) return 0;
  if (is_add) return a.r == b.r && a.c == b.c && (cn || (c.r == a.r && c.c == a.c));
  return a.c == b.r && (cn || (c.r == a.r && c.c == b.c));
}
static void p3(int op, int cn, Dim c, Dim a, Dim b, const Fld *FC, const Fld *FA, const Fld *FB, int pl) {
  int is_add = op == NP3, acc = is_add ? 0 : P3[op].acc; const char *n = is_add ? "mzed_add" : P3[op].n;
  say(n, c, cn, a, b, FC, FA, FB); mc_trans(1); mc_states(1);
  Mat *C = fit(FC, c.r, c.c, 4), *A = fit(FA, a.r, a.c, 5), *B = fit(FB, b.r, b.c, 6);
  PM *pc = cn ? NULL : pm_new(FC, C, pl % NPLACE), *pa = pm_new(FA, A, (pl + 1) % NPLACE), *pb = pm_new(FB, B, (pl + 3) % NPLACE);
  mzed_t *volatile x = NULL;
  int refused = REFUSES(x = is_add ? mzed_add(cn ? NULL : pc->m, pa->m, pb->m) : P3[op].f(cn ? NULL : pc->m, pa->m, pb->m));
  int ok = fits(is_add, cn, c, a, b, FC, FA, FB);
  CHECK(refused == !ok, ok ? "refused matching operands: %s" : "accepted operands that do not fit %s", ok ? mc_die_msg : "");
  if (refused) { CHECK(mc_die_msg[0], "refused without a message"); if (pc) pm_check(pc, C, "target at refusal"); }
  else { Mat *X = is_add ? mat_add(A, B) : prod(FA, acc, C, A, B); if (cn) pc = pm_wrap(FA, x, X->r, X->c); else CHECK(x == pc->m, "another object returned"); pm_check(pc, X, n); }
  pm_check(pa, A, "first operand"); pm_check(pb, B, "second operand");
  if (pc) pm_free(pc); pm_free(pa); pm_free(pb);
}
static void s3(int op, int cn, Dim c, Dim a, Dim b, const Fld *FC, const Fld *FA, const Fld *FB, int pl) {
  int is_add = op == NS3, acc = is_add ? 0 : S3[op].acc; const char *n = is_add ? "mzd_slice_add" : S3[op].n;
  say(n, c, cn, a, b, FC, FA, FB); mc_trans(1); mc_states(1);
  Mat *C = fit(FC, c.r, c.c, 4), *A = fit(FA, a.r, a.c, 5), *B = fit(FB, b.r, b.c, 6);
  SM *pc = cn ? NULL : sm_new(FC, C, pl % NPLACE), *pa = sm_new(FA, A, (pl + 1) % NPLACE), *pb = sm_new(FB, B, (pl + 3) % NPLACE);
  mzd_slice_t *volatile x = NULL;
  int refused = REFUSES(x = is_add ? mzd_slice_add(cn ? NULL : pc->m, pa->m, pb->m) : S3[op].f(cn ? NULL : pc->m, pa->m, pb->m));
  int ok = fits(is_add, cn, c, a, b, FC, FA, FB);
  CHECK(refused == !ok, ok ? "refused matching operands: %s" : "accepted operands that do not fit %s", ok ? mc_die_msg : "");
  if (refused) { CHECK(mc_die_msg[0], "refused without a message"); if (pc) sm_check(pc, C, "target at refusal"); }
  else { Mat *X = is_add ? mat_add(A, B) : prod(FA, acc, C, A, B); if (cn) pc = sm_wrap(FA, x, X->r, X->c); else CHECK(x == pc->m, "another object returned"); sm_check(pc, X, n); }
  sm_check(pa, A, "first operand"); sm_check(pb, B, "second operand");
  if (pc) sm_free(pc); sm_free(pa); sm_free(pb);
}
/* ------------------------------------------------------------ two operands: target and source */
enum { COPY, SCALAR, SCOPY, NTWO };
static const char *two_n[] = {"mzed_copy", "mzed_mul_scalar", "mzd_slice_copy"};
static void two(int op, Dim c, Dim b, const Fld *FC, const Fld *FB, E s, int pl) {
  mc_sub("%s: target %dx%d over 0x%x, source %dx%d over 0x%x, scalar 0x%x", two_n[op], c.r, c.c, FC->poly, b.r, b.c, FB->poly, s); mc_trans(1); mc_states(1);
  Mat *C = fit(FC, c.r, c.c, 4), *B = fit(FB, b.r, b.c, 5); volatile int refused = 0; int same = c.r == b.r && c.c == b.c && FC == FB;
  if (op == SCOPY) { /* libm4ri accepts larger targets; only targets that are too small must be refused */
    if (FC != FB || (!same && c.r >= b.r && c.c >= b.c)) return;
    SM *t = sm_new(FC, C, pl % NPLACE), *q = sm_new(FB, B, (pl + 1) % NPLACE); refused = REFUSES(mzd_slice_copy(t->m, q->m));
    CHECK(refused == !same, same ? "refused a matching target: %s" : "accepted a target that does not fit %s", same ? mc_die_msg : ""); sm_check(t, same ? B : C, "target"); sm_check(q, B, "source"); sm_free(t); sm_free(q); return; }
  PM *t = pm_new(FC, C, pl % NPLACE), *q = pm_new(FB, B, (pl + 1) % NPLACE);
  if (op == COPY) refused = REFUSES(mzed_copy(t->m, q->m)); else refused = REFUSES(mzed_mul_scalar(t->m, s, q->m));
  CHECK(refused == !same, same ? "refused a matching target: %s" : "accepted a target that does not fit %s", same ? mc_die_msg : "");
  pm_check(t, !same ? C : op == COPY ? B : mat_scale(FB, s, B), "target"); pm_check(q, B, "source"); pm_free(t); pm_free(q);
}
/* ------------------------------------------------------------ concatenation, stacking, submatrices: dimensions */
static void glue(const Fld *F, int stack, int sliced, int cn, Dim c, Dim a, Dim b) {
  int ok = stack ? a.c == b.c && (cn || (c.r == a.r + b.r && c.c == a.c)) : a.r == b.r && (cn || (c.r == a.r && c.c == a.c + b.c));
  mc_sub("%s%s: target %s%dx%d, A %dx%d, B %dx%d", sliced ? "mzd_slice_" : "mzed_", stack ? "stack" : "concat", cn ? "NULL instead of " : "", c.r, c.c, a.r, a.c, b.r, b.c); mc_trans(1); mc_states(1);
  Mat *C = fit(F, c.r, c.c, 4), *A = fit(F, a.r, a.c, 5), *B = fit(F, b.r, b.c, 6), *X = mat_new(stack ? a.r + b.r : a.r, stack ? a.c : a.c + b.c);
  if (ok) for (int i = 0; i < X->r; i++) for (int j = 0; j < X->c; j++) AT(X, i, j) = stack ? (i < a.r ? AT(A, i, j) : AT(B, i - a.r, j)) : (j < a.c ? AT(A, i, j) : AT(B, i, j - a.c));
  if (sliced) { SM *pc = cn ? NULL : sm_new(F, C, OWN), *pa = sm_new(F, A, OWN), *pb = sm_new(F, B, OWN); mzd_slice_t *volatile x = NULL;
    int refused = REFUSES(x = stack ? mzd_slice_stack(cn ? NULL : pc->m, pa->m, pb->m) : mzd_slice_concat(cn ? NULL : pc->m, pa->m, pb->m));
    CHECK(refused == !ok, ok ? "refused matching operands: %s" : "accepted operands that do not fit %s", ok ? mc_die_msg : "");
    if (ok && cn) pc = sm_wrap(F, x, X->r, X->c); if (pc) sm_check(pc, ok ? X : C, "target"); sm_check(pa, A, "first operand"); sm_check(pb, B, "second operand"); if (pc) sm_free(pc); sm_free(pa); sm_free(pb); return; }
  PM *pc = cn ? NULL : pm_new(F, C, OWN), *pa = pm_new(F, A, OWN), *pb = pm_new(F, B, OWN); mzed_t *volatile x = NULL;
  int refused = REFUSES(x = stack ? mzed_stack(cn ? NULL : pc->m, pa->m, pb->m) : mzed_concat(cn ? NULL : pc->m, pa->m, pb->m));
  CHECK(refused == !ok, ok ? "refused matching operands: %s" : "accepted operands that do not fit %s", ok ? mc_die_msg : "");
  if (ok && cn) pc = pm_wrap(F, x, X->r, X->c); if (pc) pm_check(pc, ok ? X : C, "target"); pm_check(pa, A, "first operand"); pm_check(pb, B, "second operand"); if (pc) pm_free(pc); pm_free(pa); pm_free(pb);
}
static void sub(const Fld *F, int sliced, Dim s, Dim a, int lr, int lc, int hr, int hc) {
  int ok = s.r >= hr - lr && s.c >= hc - lc, exact = s.r == hr - lr && s.c == hc - lc; if (ok && !exact) return;   /* larger targets: unspecified */
  mc_sub("%s_submatrix: target %dx%d for rows %d..%d columns %d..%d of %dx%d", sliced ? "mzd_slice" : "mzed", s.r, s.c, lr, hr, lc, hc, a.r, a.c); mc_trans(1); mc_states(1);
  Mat *S = fit(F, s.r, s.c, 4), *A = fit(F, a.r, a.c, 5);
  if (sliced) { SM *ps = sm_new(F, S, OWN), *pa = sm_new(F, A, OWN); int refused = REFUSES(mzd_slice_submatrix(ps->m, pa->m, lr, lc, hr, hc)); CHECK(refused == !ok, ok ? "refused a matching target: %s" : "accepted a target that is too small %s", ok ? mc_die_msg : "");
    sm_check(ps, ok ? mat_sub(A, lr, lc, hr, hc) : S, "target"); sm_check(pa, A, "source"); sm_free(ps); sm_free(pa); return; }
  PM *ps = pm_new(F, S, OWN), *pa = pm_new(F, A, OWN); int refused = REFUSES(mzed_submatrix(ps->m, pa->m, lr, lc, hr, hc)); CHECK(refused == !ok, ok ? "refused a matching target: %s" : "accepted a target that is too small %s", ok ? mc_die_msg : "");
  pm_check(ps, ok ? mat_sub(A, lr, lc, hr, hc) : S, "target"); pm_check(pa, A, "source"); pm_free(ps); pm_free(pa);
}
/* ------------------------------------------------------------ inversion: refuses exactly the singular matrices */
static void inv(const Fld *F, int n, int r, int fam, int tk, int place) {
  int piv[512]; if (r != piv_family(fam, n, r, piv)) return;
  Mat *A = mat_rank(F, n, n, r, piv, 4 + fam % 2, fam % 3), *T = fit(F, n, n, 6);
  mc_sub("mzed_invert_newton_john of %dx%d of rank %d, pivots %d, %s", n, n, r, fam, tk ? "into a matrix" : "fresh"); mc_trans(1); mc_states(1);
  PM *a = pm_new(F, A, place), *t = tk ? pm_new(F, T, (place + 1) % NPLACE) : NULL; mzed_t *volatile x = NULL;
  int refused = REFUSES(x = mzed_invert_newton_john(tk ? t->m : NULL, a->m));
  CHECK(refused == (r < n), r < n ? "inverted a singular matrix %s" : "refused a regular matrix: %s", r < n ? "" : mc_die_msg);
  pm_check(a, A, "operand"); if (refused && t) pm_check(t, T, "target at refusal");
  if (!refused) { Mat *X; if (!t) t = pm_wrap(F, x, n, n); X = pm_read(t); CHECK(mat_eq(mat_mul(F, A, X), mat_id(n)), "not the inverse"); pm_check(t, X, "inverse"); }
  if (t) pm_free(t); pm_free(a);
}
PROPERTY(C19) {
  static const int bases[][3] = {{2, 3, 2}, {5, 4, 6}, {1, 1, 1}, {3, 64, 65}, {17, 33, 9}, {70, 66, 67}, {210, 130, 270}};
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0), *G = field(k, -1), *H = field(k < 16 ? k + 1 : 15, 0), *W = field(k == 2 ? 3 : k == 4 ? 3 : k == 8 ? 7 : k == 16 ? 9 : k == 3 ? 4 : k < 8 ? 8 : 16, 0);
    /* every combination of three values for each of the six dimensions */
    for (int bs = 0; bs < TIER(1, 7, 7); bs++) for (int op = 0; op <= NP3 + 1 + NS3; op++) {
      int big = bs >= 3; if (bs == 6 && k > (mc_tier == 2 ? 10 : 7)) continue; if (k > 8 && bs > 1 && mc_tier < 2 && (op + k + bs) % 3) continue;
      if (!CASE("k=%d dimensions around %d,%d,%d operation %d", k, bases[bs][0], bases[bs][1], bases[bs][2], op)) continue;
      int m = bases[bs][0], l = bases[bs][1], n = bases[bs][2], step = bs == 6 ? 23 : big && mc_tier < 2 ? 5 : 1;
      int is_add = op == NP3 || op == NP3 + 1 + NS3, sliced = op > NP3, o = sliced ? op - NP3 - 1 : op; if (is_add) n = l;
      for (int t = 0; t < 729; t += 1) { int d[6], u = t, nz = 0; for (int i = 0; i < 6; i++) { d[i] = u % 3 - 1; u /= 3; nz += d[i] != 0; }
        if (step > 1 && nz > 1 && (t + op) % step) continue;
        Dim c = {m + d[0], n + d[1]}, a = {m + d[2], l + d[3]}, b = {is_add ? m + d[4] : l + d[4], n + d[5]};
        if (c.r < 1 || c.c < 1 || a.r < 1 || a.c < 1 || b.r < 1 || b.c < 1) continue;
        if (sliced) s3(o, 0, c, a, b, F, F, F, t % 4); else p3(o, 0, c, a, b, F, F, F, t % 4);
        int nul = sliced ? o == NS3 || S3[o].nul : o == NP3 || P3[o].nul;
        if (nul && !d[0] && !d[1]) { if (sliced) s3(o, 1, c, a, b, F, F, F, t % 4); else p3(o, 1, c, a, b, F, F, F, t % 4); } } }
    /* every assignment of fields to the operands */
    Fld *fs[4] = {F, G, H, W}; int nfs = G == F ? 3 : 4; if (G == F) { fs[1] = H; fs[2] = W; }
    for (int op = 0; op <= NP3 + 1 + NS3; op++) if (CASE("k=%d fields of the operands, operation %d", k, op)) {
      int sliced = op > NP3, o = sliced ? op - NP3 - 1 : op;
      for (int bs = 0; bs < TIER(1, 2, 5); bs++) for (int x = 0; x < nfs; x++) for (int y = 0; y < nfs; y++) for (int z = 0; z < nfs; z++) {
        Dim d = {bases[bs][0] + 1, bases[bs][0] + 1}; if (x && y && z) continue;
        if (sliced) s3(o, 0, d, d, d, fs[x], fs[y], fs[z], x + y + z); else p3(o, 0, d, d, d, fs[x], fs[y], fs[z], x + y + z);
        int nul = sliced ? o == NS3 || S3[o].nul : o == NP3 || P3[o].nul;
        if (nul && x == 0) { if (sliced) s3(o, 1, d, d, d, F, fs[y], fs[z], y + z); else p3(o, 1, d, d, d, F, fs[y], fs[z], y + z); } } }
    /* target and source */
    for (int op = 0; op < NTWO; op++) if (CASE("k=%d %s small", k, two_n[op])) {
      static const int bd[][2] = {{2, 3}, {1, 1}, {5, 64}, {3, 129}, {40, 17}};
      for (int bs = 0; bs < 5; bs++) for (int t = 0; t < 25; t++) for (int z = 0; z < 4; z++) { Dim b = {bd[bs][0], bd[bs][1]}, c = {b.r + t % 5 - 2, b.c + t / 5 - 2}; if (c.r < 1 || c.c < 1) continue;
        E ss[] = {0, 1, 2, (E)(F->q - 1)}; two(op, c, b, F, F, ss[z], t + z); if (t == 12) for (int f = 1; f < nfs; f++) { two(op, b, b, fs[f], F, ss[z] & 3, z); two(op, b, b, F, fs[f], ss[z] & 3, z); } } }
    /* the table algorithm for scalar multiples starts at 2^17 elements */
    static const int lg[][2] = {{1, 131072}, {512, 256}, {131072, 1}, {363, 362}, {1024, 129}};
    for (int s = 0; s < TIER(1, 5, 5); s++) if ((k <= 8 || s == k % 5) && CASE("k=%d mzed_mul_scalar %dx%d", k, lg[s][0], lg[s][1])) {
      static const int dd[][2] = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, -1}, {-1, 1}, {1, 1}, {-1, -1}, {0, 64}, {64, 0}, {0, -64}, {-64, 0}};
      for (int t = 0; t < TIER(5, 13, 13); t++) { Dim b = {lg[s][0], lg[s][1]}, c = {b.r + dd[t][0], b.c + dd[t][1]}; if (c.r < 1 || c.c < 1) continue; two(SCALAR, c, b, F, F, t % 3 + 1, t); }
      for (int f = 1; f < nfs; f++) { Dim b = {lg[s][0], lg[s][1]}; two(SCALAR, b, b, fs[f], F, 3, f); two(COPY, b, b, fs[f], F, 3, f); } }
    /* joining and cutting */
    for (int v = 0; v < 4; v++) if (CASE("k=%d %s%s", k, v & 1 ? "sliced " : "", v & 2 ? "stack" : "concat")) {
      static const int gb[][3] = {{2, 3, 2}, {1, 1, 1}, {4, 64, 5}, {3, 33, 64}};
      for (int bs = 0; bs < TIER(2, 4, 4); bs++) for (int t = 0; t < 729; t++) { int d[6], u = t; for (int i = 0; i < 6; i++) { d[i] = u % 3 - 1; u /= 3; }
        int p = gb[bs][0], q = gb[bs][1], r = gb[bs][2]; Dim a, b, c; if (v & 2) { a = (Dim){p + d[0], q + d[1]}; b = (Dim){r + d[2], q + d[3]}; c = (Dim){p + r + d[4], q + d[5]}; } else { a = (Dim){p + d[0], q + d[1]}; b = (Dim){p + d[2], r + d[3]}; c = (Dim){p + d[4], q + r + d[5]}; }
        if (a.r < 1 || a.c < 1 || b.r < 1 || b.c < 1 || c.r < 1 || c.c < 1) continue;
        glue(F, v >> 1, v & 1, 0, c, a, b); if (!d[4] && !d[5]) glue(F, v >> 1, v & 1, 1, c, a, b); } }
    for (int v = 0; v < 2; v++) if (CASE("k=%d %ssubmatrix", k, v ? "sliced " : "")) {
      for (int t = 0; t < 81; t++) { int d[4], u = t; for (int i = 0; i < 4; i++) { d[i] = u % 3; u /= 3; } int e = F->epw, lr = d[0], lc = d[1] == 0 ? 0 : d[1] == 1 ? 1 : v ? 64 : e, hr = lr + 1 + d[2], hc = lc + (d[3] == 0 ? 1 : d[3] == 1 ? 2 : e + 1);
        Dim a = {7, 3 * (v ? 64 : e) + 2}; for (int x = -2; x <= 2; x++) for (int y = -2; y <= 2; y++) { Dim s = {hr - lr + x, hc - lc + y}; if (s.r < 1 || s.c < 1) continue; sub(F, v, s, a, lr, lc, hr, hc); } } }
    for (int n = 1; n <= TIER(4, 9, 20); n++) if (CASE("k=%d inversion of %dx%d", k, n, n)) for (int r = 0; r <= n; r++) for (int fam = 0; fam < NPIVFAM; fam++) for (int tk = 0; tk < 2; tk++) inv(F, n, r, fam, tk, (r + fam) % NPLACE);
    static const int bi[] = {31, 33, 64, 65, 100, 130}; for (int i = 0; i < TIER(1, 4, 6); i++) if ((k <= 8 || i < 2) && CASE("k=%d inversion of %dx%d", k, bi[i], bi[i])) { int n = bi[i]; int rs[] = {0, 1, n / 2, n - 2, n - 1, n}; for (int r = 0; r < 6; r++) for (int fam = 0; fam < NPIVFAM; fam++) inv(F, n, rs[r], fam, fam & 1, (r + fam) % NPLACE); }
  }
}

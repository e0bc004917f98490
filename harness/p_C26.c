/* C26: windows of one matrix act as independent operands; everything outside the target window is kept. */
#include "mc.h"
#include <m4rie/conversion.h>
#include <m4rie/trsm.h>
#include <m4rie/newton_john.h>
#include <m4rie/strassen.h>

typedef struct { int r, c, m, n; } Pos;   /* position and shape, columns counted in elements */
static void put(Mat *P, Pos w, const Mat *X) { for (int i = 0; i < w.m; i++) for (int j = 0; j < w.n; j++) AT(P, w.r + i, w.c + j) = AT(X, i, j); }
static Mat *get(const Mat *P, Pos w) { return mat_sub((Mat *)P, w.r, w.c, w.r + w.m, w.c + w.n); }
static int up(int n, int e) { return (n + e - 1) / e * e; }
#define NLAY 9
static const char *lay_name[NLAY] = {"side by side", "side by side, target first, word gaps, shifted rows", "stacked", "stacked, target first, from the second word", "diagonal", "target below the first, second to the right", "sources overlapping, target to the right", "sources overlapping, target below", "sources at one place, target in front"};
/* three operands A (m x k), B (k x n), C (m x n) in one parent; returns the parent's dimensions (tight: it ends with the last operand) */
static void layout(int lay, int e, const int sz[3][2], int tight, Pos w[3], int *pr, int *pc) {
  for (int i = 0; i < 3; i++) w[i] = (Pos){0, 0, sz[i][0], sz[i][1]};
  Pos *A = w, *B = w + 1, *C = w + 2; int ua = up(A->n, e), ub = up(B->n, e), uc = up(C->n, e);
  switch (lay) {
  case 0: B->c = ua; C->c = ua + ub; break;
  case 1: C->r = 2; A->c = uc + e; A->r = 1; B->c = uc + ua + 2 * e; B->r = 3; break;
  case 2: B->r = A->m; C->r = A->m + B->m; break;
  case 3: A->c = B->c = C->c = e; A->r = C->m + 1; B->r = A->r + A->m; break;
  case 4: B->r = A->m; B->c = ua; C->r = A->m + B->m; C->c = ua + ub; break;
  case 5: B->c = ua > uc ? ua : uc; C->r = A->m; break;
  case 6: B->r = 1; B->c = A->n > e && ub >= ua ? e : 0; C->c = (ua > B->c + ub ? ua : B->c + ub); break;
  case 7: B->r = A->m > 1 ? 1 : 0; C->r = B->r + B->m > A->m ? B->r + B->m : A->m; C->c = e; break;
  default: A->c = B->c = uc; A->r = B->r = 1; break;
  }
  *pr = *pc = 0; for (int i = 0; i < 3; i++) { if (w[i].r + w[i].m > *pr) *pr = w[i].r + w[i].m; if (w[i].c + w[i].n > *pc) *pc = w[i].c + w[i].n; }
  if (!tight) { *pr += 1; *pc += e + 3; }
}
static int cut;
typedef mzed_t *(*PF)(mzed_t *, const mzed_t *, const mzed_t *);
typedef mzd_slice_t *(*SF)(mzd_slice_t *, const mzd_slice_t *, const mzd_slice_t *);
static mzed_t *f_st(mzed_t *C, const mzed_t *A, const mzed_t *B) { return mzed_mul_strassen(C, A, B, cut); }
static mzed_t *f_sta(mzed_t *C, const mzed_t *A, const mzed_t *B) { return mzed_addmul_strassen(C, A, B, cut); }
static mzd_slice_t *s_mb(mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B) { return mzd_slice_mul_blm(C, A, B, NULL); }
static mzd_slice_t *s_amb(mzd_slice_t *C, const mzd_slice_t *A, const mzd_slice_t *B) { return mzd_slice_addmul_blm(C, A, B, NULL); }
/* cls 1: any size, 2: costly, 4: recursion (needs a cutoff) 8: bilinear map */
static const struct { const char *name; PF p; SF s; int acc, cls; } PR[] = {
  {"mzed_mul", mzed_mul, 0, 0, 1}, {"mzed_addmul", mzed_addmul, 0, 1, 1}, {"mzed_mul_naive", mzed_mul_naive, 0, 0, 1}, {"mzed_addmul_naive", mzed_addmul_naive, 0, 1, 1},
  {"mzed_mul_newton_john", mzed_mul_newton_john, 0, 0, 1}, {"mzed_addmul_newton_john", mzed_addmul_newton_john, 0, 1, 1}, {"_mzed_mul_newton_john0", _mzed_mul_newton_john0, 0, 1, 2},
  {"mzed_mul_karatsuba", mzed_mul_karatsuba, 0, 0, 1}, {"mzed_addmul_karatsuba", mzed_addmul_karatsuba, 0, 1, 1}, {"_mzed_addmul_karatsuba", _mzed_addmul_karatsuba, 0, 1, 1},
  {"mzed_mul_blm", mzed_mul_blm, 0, 0, 8}, {"mzed_addmul_blm", mzed_addmul_blm, 0, 1, 8},
  {"mzed_mul_strassen", f_st, 0, 0, 4}, {"mzed_addmul_strassen", f_sta, 0, 1, 4},
  {"mzd_slice_mul", 0, mzd_slice_mul, 0, 1}, {"mzd_slice_addmul", 0, mzd_slice_addmul, 1, 1}, {"mzd_slice_mul_karatsuba", 0, mzd_slice_mul_karatsuba, 0, 1}, {"mzd_slice_addmul_karatsuba", 0, mzd_slice_addmul_karatsuba, 1, 1},
  {"_mzd_slice_addmul_naive", 0, _mzd_slice_addmul_naive, 1, 1}, {"mzd_slice_mul_blm", 0, s_mb, 0, 8}, {"mzd_slice_addmul_blm", 0, s_amb, 1, 8}};
#define NPR ((int)(sizeof PR / sizeof *PR))

static mzed_t *pwin(const mzed_t *p, Pos w) { return mzed_init_window(p, w.r, w.c, w.r + w.m, w.c + w.n); }
static mzd_slice_t *swin(const mzd_slice_t *p, Pos w) { return mzd_slice_init_window(p, w.r, w.c, w.r + w.m, w.c + w.n); }

static void products(const Fld *F, int m, int k, int n, int lay, int tight, int pat, int cls, int sel) {
  const int sz[3][2] = {{m, k}, {k, n}, {m, n}};
  for (int sliced = 0; sliced < 2; sliced++) {
    int e = sliced ? 64 : F->epw; Pos w[3]; int pr, pc; layout(lay, e, sz, tight, w, &pr, &pc);
    Mat *P = mat_pat(F, pr, pc, pat), *A = get(P, w[0]), *B = get(P, w[1]), *C = get(P, w[2]), *X = mat_mul(F, A, B), *Y = mat_add(C, X);
    for (int x = 0, y = 0; x < NPR; x++) if ((PR[x].cls & cls) && (PR[x].s != 0) == sliced && (sel == 0 || (y++ + sel) % 3 == 0)) {
      mc_sub("%s %dx%dx%d, %s%s", PR[x].name, m, k, n, lay_name[lay], tight ? "" : ", larger parent"); mc_trans(1);
      Mat *W = mat_dup(P); put(W, w[2], PR[x].acc ? Y : X);
      int place = (x + lay + pat) % 3 ? OWN : WINMID;
      if (sliced) { SM *p = sm_new(F, P, place); mzd_slice_t *a = swin(p->m, w[0]), *b = swin(p->m, w[1]), *c = swin(p->m, w[2]);
        CHECK(PR[x].s(c, a, b) == c, "%s returned another object", PR[x].name); sm_check(p, W, PR[x].name); mzd_slice_free_window(a); mzd_slice_free_window(b); mzd_slice_free_window(c); sm_free(p); }
      else { PM *p = pm_new(F, P, place); mzed_t *a = pwin(p->m, w[0]), *b = pwin(p->m, w[1]), *c = pwin(p->m, w[2]);
        CHECK(PR[x].p(c, a, b) == c, "%s returned another object", PR[x].name); pm_check(p, W, PR[x].name); mzed_free_window(a); mzed_free_window(b); mzed_free_window(c); pm_free(p); }
    }
  }
}
/* sums, scalar multiples, copies, row operations: all operands m x n */
enum { P_ADD, P_ADD2, P_SUB, P_ADDB, P_SCAL, P_SCALIP, P_COPY, P_AMR, P_AR, P_CR, P_CMP, S_ADD, S_ADDA, S_SCAL, S_ASCAL, S_COPY, S_CR, S_CMP, NEL };
static const char *el_name[NEL] = {"mzed_add", "_mzed_add", "mzed_sub", "mzed_add into its second operand", "mzed_mul_scalar", "mzed_mul_scalar in place", "mzed_copy", "mzed_add_multiple_of_row", "mzed_add_row", "mzed_copy_row", "mzed_cmp",
  "mzd_slice_add", "mzd_slice_add into its first operand", "mzd_slice_mul_scalar", "mzd_slice_addmul_scalar", "mzd_slice_copy", "mzd_slice_copy_row", "mzd_slice_cmp"};
static void elementwise(const Fld *F, int m, int n, int lay, int tight, int pat, E a) {
  const int sz[3][2] = {{m, n}, {m, n}, {m, n}};
  for (int op = 0; op < NEL; op++) {
    int sliced = op >= S_ADD, e = sliced ? 64 : F->epw, pr, pc; Pos w[3]; layout(lay, e, sz, tight, w, &pr, &pc);
    if (lay >= 6 && (op == P_ADDB || op == S_ADDA)) continue; /* the target would overlap the other source */
    Mat *P = mat_pat(F, pr, pc, pat), *A = get(P, w[0]), *B = get(P, w[1]), *C = get(P, w[2]), *W = mat_dup(P);
    int i = (pat + lay) % m, j = (pat * 3 + lay + 1) % m, sc = n > 1 ? (pat * 7 + lay) % n : 0;
    switch (op) {
    case P_ADD: case P_ADD2: case P_SUB: case S_ADD: put(W, w[2], mat_add(A, B)); break;
    case P_ADDB: put(W, w[1], mat_add(A, B)); break; case S_ADDA: put(W, w[0], mat_add(A, B)); break;
    case P_SCAL: case S_SCAL: put(W, w[2], mat_scale(F, a, A)); break; case P_SCALIP: put(W, w[0], mat_scale(F, a, A)); break;
    case S_ASCAL: put(W, w[2], mat_add(C, mat_scale(F, a, A))); break;
    case P_COPY: case S_COPY: put(W, w[2], A); break;
    case P_AMR: for (int x = sc; x < n; x++) AT(C, i, x) ^= fe_mul(F, a, AT(A, j, x)); put(W, w[2], C); break;
    case P_AR: for (int x = sc; x < n; x++) AT(C, i, x) ^= AT(A, j, x); put(W, w[2], C); break;
    case P_CR: case S_CR: for (int x = 0; x < n; x++) AT(C, i, x) = AT(A, j, x); put(W, w[2], C); break;
    }
    mc_sub("%s %dx%d scalar %d rows %d %d column %d, %s%s", el_name[op], m, n, a, i, j, sc, lay_name[lay], tight ? "" : ", larger parent"); mc_trans(1);
    int place = (op + lay + pat) % 3 ? OWN : WINMID;
    if (sliced) { SM *p = sm_new(F, P, place); mzd_slice_t *x = swin(p->m, w[0]), *y = swin(p->m, w[1]), *z = swin(p->m, w[2]);
      switch (op) {
      case S_ADD: mzd_slice_add(z, x, y); break; case S_ADDA: mzd_slice_add(x, x, y); break;
      case S_SCAL: mzd_slice_mul_scalar(z, a, x); break; case S_ASCAL: mzd_slice_addmul_scalar(z, a, x); break;
      case S_COPY: CHECK(mzd_slice_copy(z, x) == z, "other object"); break; case S_CR: mzd_slice_copy_row(z, i, x, j); break;
      case S_CMP: CHECK((mzd_slice_cmp(x, z) == 0) == mat_eq(A, C), "mzd_slice_cmp disagrees on two windows of one matrix"); CHECK(mzd_slice_is_zero(x) == mat_iszero(A), "mzd_slice_is_zero of a window"); break;
      }
      sm_check(p, W, el_name[op]); mzd_slice_free_window(x); mzd_slice_free_window(y); mzd_slice_free_window(z); sm_free(p);
    } else { PM *p = pm_new(F, P, place); mzed_t *x = pwin(p->m, w[0]), *y = pwin(p->m, w[1]), *z = pwin(p->m, w[2]);
      switch (op) {
      case P_ADD: mzed_add(z, x, y); break; case P_ADD2: _mzed_add(z, x, y); break; case P_SUB: mzed_sub(z, x, y); break; case P_ADDB: mzed_add(y, x, y); break;
      case P_SCAL: mzed_mul_scalar(z, a, x); break; case P_SCALIP: mzed_mul_scalar(x, a, x); break; case P_COPY: CHECK(mzed_copy(z, x) == z, "other object"); break;
      case P_AMR: mzed_add_multiple_of_row(z, i, x, j, a, sc); break; case P_AR: mzed_add_row(z, i, x, j, sc); break; case P_CR: mzed_copy_row(z, i, x, j); break;
      case P_CMP: CHECK((mzed_cmp(x, z) == 0) == mat_eq(A, C), "mzed_cmp disagrees on two windows of one matrix"); CHECK(mzed_is_zero(x) == mat_iszero(A), "mzed_is_zero of a window"); break;
      }
      pm_check(p, W, el_name[op]); mzed_free_window(x); mzed_free_window(y); mzed_free_window(z); pm_free(p);
    }
  }
}
/* triangular systems (A: m x m, C: m x n) and inverses (C = 1/A) */
static void tu(const mzed_t *T, mzed_t *B) { _mzed_trsm_upper_left(T, B, cut); }
static void tl(const mzed_t *T, mzed_t *B) { _mzed_trsm_lower_left(T, B, cut); }
static void stu(const mzd_slice_t *T, mzd_slice_t *B) { _mzd_slice_trsm_upper_left(T, B, cut); }
static void stl(const mzd_slice_t *T, mzd_slice_t *B) { _mzd_slice_trsm_lower_left(T, B, cut); }
static const struct { const char *name; void (*p)(const mzed_t *, mzed_t *); void (*s)(const mzd_slice_t *, mzd_slice_t *); int up; } TS[] = {
  {"mzed_trsm_upper_left", mzed_trsm_upper_left, 0, 1}, {"mzed_trsm_lower_left", mzed_trsm_lower_left, 0, 0}, {"mzed_trsm_upper_left_naive", mzed_trsm_upper_left_naive, 0, 1}, {"mzed_trsm_lower_left_naive", mzed_trsm_lower_left_naive, 0, 0},
  {"mzed_trsm_upper_left_newton_john", mzed_trsm_upper_left_newton_john, 0, 1}, {"mzed_trsm_lower_left_newton_john", mzed_trsm_lower_left_newton_john, 0, 0}, {"_mzed_trsm_upper_left", tu, 0, 1}, {"_mzed_trsm_lower_left", tl, 0, 0},
  {"mzd_slice_trsm_upper_left", 0, mzd_slice_trsm_upper_left, 1}, {"mzd_slice_trsm_lower_left", 0, mzd_slice_trsm_lower_left, 0}, {"mzd_slice_trsm_upper_left_naive", 0, mzd_slice_trsm_upper_left_naive, 1}, {"mzd_slice_trsm_lower_left_naive", 0, mzd_slice_trsm_lower_left_naive, 0},
  {"mzd_slice_trsm_upper_left_newton_john", 0, mzd_slice_trsm_upper_left_newton_john, 1}, {"mzd_slice_trsm_lower_left_newton_john", 0, mzd_slice_trsm_lower_left_newton_john, 0}, {"_mzd_slice_trsm_upper_left", 0, stu, 1}, {"_mzd_slice_trsm_lower_left", 0, stl, 0}};
static void triangular(const Fld *F, int m, int n, int lay, int tight, int pat) {
  const int sz[3][2] = {{m, m}, {1, 1}, {m, n}};
  for (int x = 0; x < (int)(sizeof TS / sizeof *TS); x++) {
    int sliced = TS[x].s != 0, e = sliced ? 64 : F->epw, pr, pc; Pos w[3]; layout(lay, e, sz, tight, w, &pr, &pc);
    Mat *P = mat_pat(F, pr, pc, pat); for (int i = 0; i < m; i++) AT(P, w[0].r + i, w[0].c + i) = 1 + mc_hash(i, m, pat, lay) % (F->q - 1);
    Mat *W = mat_dup(P), *T = get(P, w[0]), *X = get(P, w[2]);
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (TS[x].up ? j < i : j > i) AT(T, i, j) = 0;
    put(P, w[2], mat_mul(F, T, X)); /* so that the parent's own content is the solution */
    mc_sub("%s n=%d cols=%d, %s%s", TS[x].name, m, n, lay_name[lay], tight ? "" : ", larger parent"); mc_trans(1);
    int place = (x + lay + pat) % 3 ? OWN : WINMID;
    if (sliced) { SM *p = sm_new(F, P, place); mzd_slice_t *t = swin(p->m, w[0]), *b = swin(p->m, w[2]); TS[x].s(t, b); sm_check(p, W, TS[x].name); mzd_slice_free_window(t); mzd_slice_free_window(b); sm_free(p); }
    else { PM *p = pm_new(F, P, place); mzed_t *t = pwin(p->m, w[0]), *b = pwin(p->m, w[2]); TS[x].p(t, b); pm_check(p, W, TS[x].name); mzed_free_window(t); mzed_free_window(b); pm_free(p); }
  }
}
static void inverse(const Fld *F, int m, int lay, int tight, int pat) {
  const int sz[3][2] = {{m, m}, {1, 1}, {m, m}}; int pr, pc; Pos w[3]; layout(lay, F->epw, sz, tight, w, &pr, &pc);
  Mat *P = mat_pat(F, pr, pc, pat), *L = get(P, w[0]), *U = mat_dup(L);
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { if (i < j) AT(L, i, j) = 0; else if (i > j) AT(U, i, j) = 0; else { AT(L, i, i) = 1; AT(U, i, i) = 1 + mc_hash(i, m, pat, lay) % (F->q - 1); } }
  Mat *A = mat_mul(F, L, U); put(P, w[0], A);
  Mat *R = mat_new(m, 2 * m), *I = mat_new(m, m); for (int i = 0; i < m; i++) { for (int j = 0; j < m; j++) AT(R, i, j) = AT(A, i, j); AT(R, i, m + i) = 1; }
  CHECK(mat_rref(F, R) == m, "harness: singular"); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) AT(I, i, j) = AT(R, i, m + j);
  Mat *W = mat_dup(P); put(W, w[2], I); mc_sub("mzed_invert_newton_john %dx%d, %s", m, m, lay_name[lay]); mc_trans(1);
  PM *p = pm_new(F, P, (lay + pat) % 3 ? OWN : WINMID); mzed_t *a = pwin(p->m, w[0]), *b = pwin(p->m, w[2]);
  CHECK(mzed_invert_newton_john(b, a) == b, "mzed_invert_newton_john returned another object"); pm_check(p, W, "mzed_invert_newton_john"); mzed_free_window(a); mzed_free_window(b); pm_free(p);
}
/* joining and cutting, all widths whole words (elsewhere libm4ri itself writes beyond the window: known finding of C07) */
static void joins(const Fld *F, int m, int nw, int lay, int tight, int pat) {
  for (int op = 0; op < 6; op++) { int sliced = op >= 3, e = sliced ? 64 : F->epw, n = nw * e, pr, pc; Pos w[3];
    const int szc[3][2] = {{m, n}, {m, e}, {m, n + e}}, szs[3][2] = {{m, n}, {m + 1, n}, {2 * m + 1, n}}, szb[3][2] = {{m + 2, n + e}, {1, 1}, {m, n}};
    layout(lay, e, op % 3 == 0 ? szc : op % 3 == 1 ? szs : szb, tight, w, &pr, &pc);
    Mat *P = mat_pat(F, pr, pc, pat), *A = get(P, w[0]), *B = get(P, w[1]), *W = mat_dup(P); Pos q = w[2];
    if (op % 3 == 0) { q.n = n; put(W, q, A); q.c += n; q.n = e; put(W, q, B); } else if (op % 3 == 1) { q.m = m; put(W, q, A); q.r += m; q.m = m + 1; put(W, q, B); }
    else put(W, q, mat_sub(A, 1, e, 1 + m, e + n));
    mc_sub("%s %d rows %d words, %s", op % 3 == 0 ? "concat" : op % 3 == 1 ? "stack" : "submatrix", m, nw, lay_name[lay]); mc_trans(1);
    int place = (op + lay + pat) % 3 ? OWN : WINMID;
    if (sliced) { SM *p = sm_new(F, P, place); mzd_slice_t *x = swin(p->m, w[0]), *y = swin(p->m, w[1]), *z = swin(p->m, w[2]);
      CHECK((op == 3 ? mzd_slice_concat(z, x, y) : op == 4 ? mzd_slice_stack(z, x, y) : mzd_slice_submatrix(z, x, 1, e, 1 + m, e + n)) == z, "other object"); sm_check(p, W, "join of windows"); mzd_slice_free_window(x); mzd_slice_free_window(y); mzd_slice_free_window(z); sm_free(p); }
    else { PM *p = pm_new(F, P, place); mzed_t *x = pwin(p->m, w[0]), *y = pwin(p->m, w[1]), *z = pwin(p->m, w[2]);
      CHECK((op == 0 ? mzed_concat(z, x, y) : op == 1 ? mzed_stack(z, x, y) : mzed_submatrix(z, x, 1, e, 1 + m, e + n)) == z, "other object"); pm_check(p, W, "join of windows"); mzed_free_window(x); mzed_free_window(y); mzed_free_window(z); pm_free(p); }
  }
}
PROPERTY(C26) {
  for (int k = 2; k <= 16; k++) { Fld *H[2] = {field(k, 0), field(k, -1)}; int e = H[0]->epw;
    /* products at word boundaries */
    int sh[][3] = {{1, 1, 1}, {2, 3, 1}, {3, e, 2}, {5, e + 1, e}, {e, 3, e + 1}, {k + 2, 7, 2 * e}, {4, 2 * e, 3}, {9, 9, 2 * e + 1}, {3, 2 * e + 1, 63}, {2, 64, 65}, {65, 2, 64}, {7, 130, 66}};
    for (int s = 0; s < 12; s++) for (int lay = 0; lay < NLAY; lay++) for (int t = 0; t < 2; t++) { int id = s * 5 + lay * 3 + t;
      if (k > 8 && sh[s][0] >= k && (mc_tier == 0 || s > 7 || (id + k) % 4)) continue; /* tables of 2^k rows */
      if (mc_tier == 0 ? (id + k) % 11 : mc_tier == 1 ? (id + k) % 3 : 0) continue;
      if (CASE("k=%d products %dx%dx%d, layout %d.%d", k, sh[s][0], sh[s][1], sh[s][2], lay, t)) { Fld *F = H[id % 2];
        cut = 3 * e / 2 > 64 ? 3 * e / 2 : 64; int heavy = k > 8 && sh[s][0] >= k;
        products(F, sh[s][0], sh[s][1], sh[s][2], lay, t, 2 + id % 10, heavy || k > 8 ? 1 : 1 | 2, heavy ? 1 + id % 3 : 0);
        if ((id + k) % (k > 8 ? 6 : 3) == 0) products(F, sh[s][0], sh[s][1], sh[s][2], lay, t, 4, 8, 0);
        if (mc_tier == 2 && !heavy) products(F, sh[s][0], sh[s][1], sh[s][2], lay, t, NPAT + id % NPAT, 1, 0); } }
    /* recursion inside one matrix: cut down to single words */
    int ss[] = {2 * e, 2 * e + 1, 3 * e + 1, 4 * e}; int nss = k > 4 ? 4 : k > 2 ? 3 : 2;
    for (int i = 0; i < nss; i++) for (int lay = 0; lay < NLAY; lay++) if (((i + lay + k) % TIER(9, 2, 1)) == 0 && CASE("k=%d recursion %d, layout %d", k, ss[i], lay)) {
      if (k > 8 && lay % 3) continue;
      cut = 3 * e / 2; products(H[lay % 2], ss[i], ss[(i + lay) % nss], ss[(i + lay / 2) % nss], lay, lay % 2, 4 + lay % 6, 4, k > 8 ? 1 + i % 3 : 0); }
    /* sums, multiples, copies, rows */
    int ns[] = {1, 2, e - 1, e, e + 1, 2 * e, 2 * e + 1, 3 * e, 5 * e + 1, 63, 64, 65, 128, 129}, ms[] = {1, 2, 3, 6, 17};
    for (int lay = 0; lay < NLAY; lay++) for (int ni = 0; ni < 14; ni++) if ((ni + lay + k) % TIER(11, 2, 1) == 0 && CASE("k=%d elementwise %d columns, layout %d", k, ns[ni], lay)) {
      E v[64]; int nv = fld_vals(H[0], v);
      for (int mi = 0; mi < 5; mi++) for (int t = 0; t < 2; t++) for (int q = 0; q < TIER(1, 3, 9); q++) elementwise(H[t], ms[mi], ns[ni], lay, t, 2 + (mi + lay + q * 3) % 10, v[(mi * 3 + t + q * 5 + ni + lay) % nv]); }
    for (int lay = 0; lay < NLAY; lay++) for (int b = 0; b < 2; b++) if (LONG(k) && (b || lay == 0 || lay == 8) && (mc_tier == 2 || (lay + b + k) % 3 == 0) && CASE("k=%d long, layout %d.%d", k, lay, b)) { elementwise(H[b], b ? 2 : 70000, b ? 70000 : 2, lay, 1, 4, H[b]->q - 1); if (b) elementwise(H[b], 2, 70000, lay, 0, 7, 2); }
    /* triangular systems and inverses */
    int tn[] = {1, 2, 3, e - 1, e, e + 1, 2 * e + 1, 63, 64, 65, 67, 129}, tc[] = {1, e, e + 1, 64, 67};
    for (int lay = 0; lay < 6; lay++) for (int i = 0; i < 12; i++) for (int j = 0; j < 5; j++) { int id = lay * 7 + i * 5 + j * 3 + k; if (tn[i] < 1) continue;
      if (k > 8 && (tn[i] > 16 && (mc_tier < 2 || id % 3))) continue;
      if (k > 12 && mc_tier < 2 && tn[i] > 3) continue;
      if (id % TIER(23, k > 8 ? 7 : 4, 1)) continue;
      if (CASE("k=%d triangular %d by %d, layout %d", k, tn[i], tc[j], lay)) { cut = 64; triangular(H[id % 2], tn[i], tc[j], lay, id / 2 % 2, 4 + id % 6); } }
    for (int lay = 0; lay < 6; lay++) for (int i = 0; i < 12; i++) { int id = lay + i + k; if (k > 8 && tn[i] > (k > 12 ? 3 : 17)) continue;
      if (id % TIER(5, 2, 1)) continue;
      if (CASE("k=%d inverse %d, layout %d", k, tn[i], lay)) inverse(H[id % 2], tn[i], lay, id / 2 % 2, 4 + id % 6); }
    for (int lay = 0; lay < NLAY; lay++) for (int m = 1; m < 6; m += 2) if ((lay + m / 2 + k) % TIER(4, 1, 1) == 0 && CASE("k=%d joins %d rows, layout %d", k, m, lay))
      for (int nw = 1; nw < 4; nw++) for (int t = 0; t < 2; t++) for (int q = 0; q < TIER(1, 2, 4); q++) joins(H[t], m, nw, lay, t, 2 + (m + nw + q * 3) % 10);
  }
}

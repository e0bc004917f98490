/* C22: histories. Two registers, each held packed and sliced by the real
 * library and as a plain matrix by the model; an alphabet of operations that
 * read and change them.
 *  (1) all reachable states of small registers x all operations;
 *  (2) breadth first search to a depth, states merged by content, larger
 *      registers that span several words, every degree;
 *  (3) all operation sequences up to a depth on objects that live through the
 *      whole sequence (nothing is merged or restored). */
#include "mc.h"
#include <m4rie/newton_john.h>
#include <m4rie/trsm.h>
#include <m4rie/ple.h>

typedef struct { Mat *X[2]; } St;                               /* model state */
typedef struct { PM *p[2]; SM *s[2]; const Fld *F; int n; mzp_t *P; blm_t *blm; } Re; /* the real objects */

enum { COPY, ADD, ADDR, ADDSELF, MUL, ADDMUL, SQADD, SCAL, ADDSCAL, RESC, ROWMUL, ROWADD, RSWAP, CSWAP, CSWAPR, CPROW, WRITE, ADDEL, SETUI, ECH, ECHREF, INV, TRSMU, TRSML, PERM, GLUE, SUBWIN, CONV, NKIND };
static const char *const KN[] = {"copy", "add", "add into the second operand", "add to itself", "multiply", "multiply and add", "square and add", "scalar multiple", "add scalar multiple", "rescale row", "add multiple of row", "add row", "swap rows", "swap columns", "swap columns in rows", "copy row", "write element", "add to element", "set to scalar", "reduced echelon form", "echelon form", "invert", "solve upper", "solve lower", "permute", "stack, concatenate, extract", "operate on windows", "convert"};
typedef struct { uint8_t kind, d, v; uint8_t i, j; E x; } Op;

/* ------------------------------------------------------------------- model */
static int nonsing(const Fld *F, const Mat *A) { Mat *R = mat_dup(A); return mat_rref(F, R) == A->r; }
static int diag_ok(const Mat *A) { for (int i = 0; i < A->r; i++) if (!AT(A, i, i)) return 0; return 1; }
static Mat *inv_m(const Fld *F, const Mat *A) {
  int n = A->r; Mat *W = mat_new(n, 2 * n); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) AT(W, i, j) = AT(A, i, j); AT(W, i, n + i) = 1; }
  mat_rref(F, W); return mat_sub(W, 0, n, n, 2 * n);
}
static void tri_m(const Fld *F, const Mat *T, Mat *B, int up) {
  int n = T->r;
  for (int a = 0; a < n; a++) { int i = up ? n - 1 - a : a; E v = fe_inv(F, AT(T, i, i));
    for (int c = 0; c < B->c; c++) { E x = AT(B, i, c); for (int b = 0; b < a; b++) { int k = up ? n - 1 - b : b; x ^= fe_mul(F, AT(T, i, k), AT(B, k, c)); } AT(B, i, c) = fe_mul(F, x, v); } }
}
static int enabled(const Fld *F, const St *z, const Op *o) {
  const Mat *D = z->X[o->d], *S = z->X[!o->d];
  switch (o->kind) { case INV: return nonsing(F, D); case TRSMU: case TRSML: return diag_ok(S); default: return 1; }
}
static void model(const Fld *F, St *z, const Op *o) {
  Mat *D = z->X[o->d], *S = z->X[!o->d], *R = NULL; int n = D->r, i = o->i, j = o->j; E x = o->x;
  switch (o->kind) {
  case COPY: R = S; break;
  case ADD: case ADDR: R = mat_add(D, S); break;
  case ADDSELF: R = mat_new(n, n); break;
  case MUL: R = mat_mul(F, z->X[0], z->X[1]); break;
  case ADDMUL: R = mat_add(mat_mul(F, z->X[0], z->X[1]), D); break;
  case SQADD: R = mat_add(mat_mul(F, S, S), D); break;
  case SCAL: R = mat_scale(F, x, S); break;
  case ADDSCAL: R = mat_add(mat_scale(F, x, S), D); break;
  case RESC: R = mat_dup(D); for (int c = j; c < n; c++) AT(R, i, c) = fe_mul(F, x, AT(R, i, c)); break;
  case ROWMUL: R = mat_dup(D); for (int c = j; c < n; c++) AT(R, i, c) ^= fe_mul(F, x, AT(S, n - 1 - i, c)); break;
  case ROWADD: R = mat_dup(D); for (int c = 0; c < n; c++) AT(R, j, c) ^= AT(D, i, c); break;
  case RSWAP: R = mat_dup(D); mat_rowswap(R, i, j); break;
  case CSWAP: R = mat_dup(D); mat_colswap(R, i, j); break;
  case CSWAPR: R = mat_dup(D); for (int r = 1; r < n; r++) { E t = AT(R, r, i); AT(R, r, i) = AT(R, r, j); AT(R, r, j) = t; } break;
  case CPROW: R = mat_dup(D); for (int c = 0; c < n; c++) AT(R, i, c) = AT(S, j, c); break;
  case WRITE: R = mat_dup(D); AT(R, i, j) = x; break;
  case ADDEL: R = mat_dup(D); AT(R, i, j) ^= x; break;
  case SETUI: R = mat_new(n, n); for (int c = 0; c < n; c++) AT(R, c, c) = x; break;
  case ECH: case ECHREF: R = mat_dup(D); mat_rref(F, R); break;
  case INV: R = inv_m(F, D); break;
  case TRSMU: case TRSML: R = mat_dup(D); tri_m(F, S, R, o->kind == TRSMU); break;
  case PERM: { R = mat_dup(D); /* row or column rotation by transpositions */
    if (o->v == 0) for (int r = 0; r < n; r++) mat_rowswap(R, r, r + (n - r) / 2 < n ? r + (n - r) / 2 : r);
    else if (o->v == 1) for (int r = n - 1; r >= 0; r--) mat_rowswap(R, r, r + (n - r) / 2 < n ? r + (n - r) / 2 : r);
    else if (o->v == 2) for (int r = n - 1; r >= 0; r--) mat_colswap(R, r, r + (n - r) / 2 < n ? r + (n - r) / 2 : r);
    else for (int r = 0; r < n; r++) mat_colswap(R, r, r + (n - r) / 2 < n ? r + (n - r) / 2 : r); break; }
  case GLUE: R = mat_new(n, n); /* last rows of D over first rows of S; or the same in columns */
    for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) AT(R, r, c) = o->v == 0 ? (r + 1 < n ? AT(D, r + 1, c) : AT(S, 0, c)) : AT(o->v == 1 ? S : D, r, c); break;
  case SUBWIN: R = mat_dup(D); for (int r = 1; r < n; r++) for (int c = 0; c < n; c++) AT(R, r, c) ^= AT(S, r - 1, c); break;
  case CONV: R = D; break;
  }
  z->X[o->d] = R;
}
/* ----------------------------------------------------------------- library */
static void adopt_p(Re *r, PM *D, mzed_t *t) { CHECK(t->nrows == r->n && t->ncols == r->n, "result has the wrong shape"); mzed_copy(D->m, t); mzed_free(t); }
static void adopt_s(Re *r, SM *D, mzd_slice_t *t) { CHECK(t->nrows == (rci_t)r->n && t->ncols == (rci_t)r->n, "result has the wrong shape"); mzd_slice_copy(D->m, t); mzd_slice_free(t); }
static void packed(Re *r, const Op *o, int rank) {
  PM *Dp = r->p[o->d]; mzed_t *D = Dp->m, *S = r->p[!o->d]->m, *A = r->p[0]->m, *B = r->p[1]->m, *t; int n = r->n, i = o->i, j = o->j, q; E x = o->x; const Fld *F = r->F;
  switch (o->kind) {
  case COPY: t = mzed_copy(D, S); CHECK(t == D, "another object returned"); break;
  case ADD: mzed_add(D, D, S); break;
  case ADDR: mzed_add(D, S, D); break;
  case ADDSELF: mzed_add(D, D, D); break;
  case MUL: switch (o->v) { case 0: t = mzed_mul(NULL, A, B); break; case 1: t = mzed_mul_naive(NULL, A, B); break; case 2: t = mzed_mul_newton_john(NULL, A, B); break; case 3: t = mzed_mul_strassen(NULL, A, B, 64); break;
    case 4: t = mzed_mul_karatsuba(NULL, A, B); break; default: t = mzed_mul_blm(NULL, A, B); } adopt_p(r, Dp, t); break;
  case ADDMUL: t = mzed_copy(NULL, D); switch (o->v) { case 0: mzed_addmul(t, A, B); break; case 1: mzed_addmul_naive(t, A, B); break; case 2: mzed_addmul_newton_john(t, A, B); break; case 3: mzed_addmul_strassen(t, A, B, 64); break;
    case 4: mzed_addmul_karatsuba(t, A, B); break; default: mzed_addmul_blm(t, A, B); } adopt_p(r, Dp, t); break;
  case SQADD: switch (o->v) { case 0: mzed_addmul(D, S, S); break; case 1: mzed_addmul_naive(D, S, S); break; case 2: mzed_addmul_newton_john(D, S, S); break; default: mzed_addmul_karatsuba(D, S, S); } break;
  case SCAL: mzed_mul_scalar(D, x, S); break;
  case ADDSCAL: t = mzed_mul_scalar(NULL, x, S); mzed_add(D, D, t); mzed_free(t); break;
  case RESC: mzed_rescale_row(D, i, j, x); break;
  case ROWMUL: mzed_add_multiple_of_row(D, i, S, n - 1 - i, x, j); break;
  case ROWADD: mzed_row_add(D, i, j); break;
  case RSWAP: mzed_row_swap(D, i, j); break;
  case CSWAP: mzed_col_swap(D, i, j); break;
  case CSWAPR: mzed_col_swap_in_rows(D, i, j, 1, n); break;
  case CPROW: mzed_copy_row(D, i, S, j); break;
  case WRITE: mzed_write_elem(D, i, j, x); break;
  case ADDEL: mzed_add_elem(D, i, j, x); break;
  case SETUI: mzed_set_ui(D, x); break;
  case ECH: switch (o->v) { case 0: q = mzed_echelonize(D, 1); break; case 1: q = mzed_echelonize_naive(D, 1); break; case 2: q = mzed_echelonize_newton_john(D, 1); break; default: t = mzed_copy(NULL, D); q = mzed_echelonize_ple(t, 1); adopt_p(r, Dp, t); }
    CHECK(q == rank, "rank %d returned, must be %d", q, rank); break;
  case ECHREF: t = mzed_copy(NULL, D); switch (o->v) { case 0: q = mzed_echelonize(t, 0); break; case 1: q = mzed_echelonize_naive(t, 0); break; case 2: q = mzed_echelonize_newton_john(t, 0); break; default: q = mzed_echelonize_ple(t, 0); }
    CHECK(q == rank, "rank %d returned, must be %d", q, rank); q = mzed_echelonize_naive(t, 1); CHECK(q == rank, "rank %d returned, must be %d", q, rank); adopt_p(r, Dp, t); break;
  case INV: t = mzed_invert_newton_john(NULL, D); CHECK(t, "no inverse returned"); adopt_p(r, Dp, t); break;
  case TRSMU: switch (o->v) { case 0: mzed_trsm_upper_left(S, D); break; case 1: mzed_trsm_upper_left_naive(S, D); break; default: mzed_trsm_upper_left_newton_john(S, D); } break;
  case TRSML: switch (o->v) { case 0: mzed_trsm_lower_left(S, D); break; case 1: mzed_trsm_lower_left_naive(S, D); break; default: mzed_trsm_lower_left_newton_john(S, D); } break;
  case PERM: switch (o->v) { case 0: mzed_apply_p_left(D, r->P); break; case 1: mzed_apply_p_left_trans(D, r->P); break; case 2: mzed_apply_p_right(D, r->P); break; default: mzed_apply_p_right_trans(D, r->P); } break;
  case GLUE: { mzed_t *a = mzed_copy(NULL, D), *b = mzed_copy(NULL, S), *c = o->v ? mzed_concat(NULL, a, b) : mzed_stack(NULL, a, b);
    if (o->v == 0) t = mzed_submatrix(NULL, c, 1, 0, n + 1, n); else t = mzed_submatrix(NULL, c, 0, o->v == 1 ? n : 0, n, o->v == 1 ? 2 * n : n); mzed_free(a); mzed_free(b); mzed_free(c); adopt_p(r, Dp, t); break; }
  case SUBWIN: { mzed_t *w = mzed_init_window(D, 1, 0, n, n), *v = mzed_init_window(S, 0, 0, n - 1, n); mzed_add(w, w, v); mzed_free_window(v); mzed_free_window(w); break; }
  case CONV: { mzd_slice_t *u = mzed_slice(NULL, D); mzed_set_ui(D, 1); mzed_cling(D, u); mzd_slice_free(u); break; }
  }
}
static void sliced(Re *r, const Op *o, int rank) {
  SM *Ds = r->s[o->d]; mzd_slice_t *D = Ds->m, *S = r->s[!o->d]->m, *A = r->s[0]->m, *B = r->s[1]->m, *t; int n = r->n, i = o->i, j = o->j, q; E x = o->x;
  switch (o->kind) {
  case COPY: t = mzd_slice_copy(D, S); CHECK(t == D, "another object returned"); break;
  case ADD: mzd_slice_add(D, D, S); break;
  case ADDR: mzd_slice_add(D, S, D); break;
  case ADDSELF: mzd_slice_add(D, D, D); break;
  case MUL: switch (o->v) { case 0: t = mzd_slice_mul(NULL, A, B); break; case 5: t = mzd_slice_mul_blm(NULL, A, B, r->blm); break; case 1: t = mzd_slice_init(A->finite_field, n, n); _mzd_slice_addmul_naive(t, A, B); break; default: t = mzd_slice_mul_karatsuba(NULL, A, B); } adopt_s(r, Ds, t); break;
  case ADDMUL: t = mzd_slice_copy(NULL, D); switch (o->v) { case 0: mzd_slice_addmul(t, A, B); break; case 5: mzd_slice_addmul_blm(t, A, B, r->blm); break; case 1: _mzd_slice_addmul_naive(t, A, B); break; default: mzd_slice_addmul_karatsuba(t, A, B); } adopt_s(r, Ds, t); break;
  case SQADD: switch (o->v) { case 0: mzd_slice_addmul(D, S, S); break; case 1: _mzd_slice_addmul_naive(D, S, S); break; default: mzd_slice_addmul_karatsuba(D, S, S); } break;
  case SCAL: mzd_slice_mul_scalar(D, x, S); break;
  case ADDSCAL: mzd_slice_addmul_scalar(D, x, S); break;
  case RESC: mzd_slice_rescale_row(D, i, j, x); break;
  case ROWADD: mzd_slice_row_add(D, i, j); break;
  case RSWAP: mzd_slice_row_swap(D, i, j); break;
  case CSWAP: mzd_slice_col_swap(D, i, j); break;
  case CSWAPR: mzd_slice_col_swap_in_rows(D, i, j, 1, n); break;
  case CPROW: mzd_slice_copy_row(D, i, S, j); break;
  case WRITE: mzd_slice_write_elem(D, i, j, x); break;
  case ADDEL: mzd_slice_add_elem(D, i, j, x); break;
  case SETUI: mzd_slice_set_ui(D, x); break;
  case ECH: t = mzd_slice_copy(NULL, D); q = mzd_slice_echelonize_ple(t, 1); CHECK(q == rank, "rank %d returned, must be %d", q, rank); adopt_s(r, Ds, t); break;
  case ECHREF: t = mzd_slice_copy(NULL, D); q = mzd_slice_echelonize_ple(t, 0); CHECK(q == rank, "rank %d returned, must be %d", q, rank); q = mzd_slice_echelonize_ple(t, 1); CHECK(q == rank, "rank %d returned, must be %d", q, rank); adopt_s(r, Ds, t); break;
  case TRSMU: switch (o->v) { case 0: mzd_slice_trsm_upper_left(S, D); break; case 1: mzd_slice_trsm_upper_left_naive(S, D); break; default: mzd_slice_trsm_upper_left_newton_john(S, D); } break;
  case TRSML: switch (o->v) { case 0: mzd_slice_trsm_lower_left(S, D); break; case 1: mzd_slice_trsm_lower_left_naive(S, D); break; default: mzd_slice_trsm_lower_left_newton_john(S, D); } break;
  case PERM: switch (o->v) { case 0: mzd_slice_apply_p_left(D, r->P); break; case 1: mzd_slice_apply_p_left_trans(D, r->P); break; case 2: mzd_slice_apply_p_right(D, r->P); break; default: mzd_slice_apply_p_right_trans(D, r->P); } break;
  case GLUE: { mzd_slice_t *a = mzd_slice_copy(NULL, D), *b = mzd_slice_copy(NULL, S), *c = o->v ? mzd_slice_concat(NULL, a, b) : mzd_slice_stack(NULL, a, b);
    if (o->v == 0) t = mzd_slice_submatrix(NULL, c, 1, 0, n + 1, n); else t = mzd_slice_submatrix(NULL, c, 0, o->v == 1 ? n : 0, n, o->v == 1 ? 2 * n : n); mzd_slice_free(a); mzd_slice_free(b); mzd_slice_free(c); adopt_s(r, Ds, t); break; }
  case SUBWIN: { mzd_slice_t *w = mzd_slice_init_window(D, 1, 0, n, n), *v = mzd_slice_init_window(S, 0, 0, n - 1, n); mzd_slice_add(w, w, v); mzd_slice_free_window(v); mzd_slice_free_window(w); break; }
  case CONV: { mzed_t *u = mzed_cling(NULL, D); mzd_slice_set_ui(D, 1); mzed_slice(D, u); mzed_free(u); break; }
  default: { /* only packed: through a conversion and back */
    mzed_t *a = mzed_cling(NULL, D), *b = mzed_cling(NULL, S), *c = NULL;
    if (o->kind == INV) { c = mzed_invert_newton_john(NULL, a); CHECK(c, "no inverse returned"); mzed_slice(D, c); mzed_free(c); } else { mzed_add_multiple_of_row(a, i, b, n - 1 - i, x, j); mzed_slice(D, a); }
    mzed_free(a); mzed_free(b); }
  }
}
/* everything that can be observed */
static void observe(Re *r, const St *z) {
  const Mat *A = z->X[0], *B = z->X[1]; int eq = mat_eq(A, B), za = mat_iszero(A), n = r->n;
  for (int d = 0; d < 2; d++) { pm_check(r->p[d], z->X[d], d ? "packed B" : "packed A"); sm_check(r->s[d], z->X[d], d ? "sliced B" : "sliced A"); }
  CHECK((mzed_cmp(r->p[0]->m, r->p[1]->m) == 0) == eq && (mzd_slice_cmp(r->s[0]->m, r->s[1]->m) == 0) == eq, "comparison is wrong");
  CHECK(!!mzed_is_zero(r->p[0]->m) == za && !!mzd_slice_is_zero(r->s[0]->m) == za, "zero test is wrong");
  for (int i = 0; i < n; i += n - 1) for (int j = 0; j < n; j += n - 1) CHECK(mzed_read_elem(r->p[1]->m, i, j) == AT(B, i, j) && mzd_slice_read_elem(r->s[1]->m, i, j) == AT(B, i, j), "reading element (%d,%d)", i, j);
}
static void put_state(Re *r, const St *z) {
  const Fld *F = r->F;
  for (int d = 0; d < 2; d++) for (int i = 0; i < r->n; i++) {
    word *row = r->p[d]->m->x->rows[i]; for (int j = 0; j < r->n; j++) { int s = j % F->epw * F->w; word m = (F->w == 64 ? ~0ull : (1ull << F->w) - 1) << s; row[j / F->epw] = (row[j / F->epw] & ~m) | (word)AT(z->X[d], i, j) << s; }
    for (int e = 0; e < F->k; e++) { word *sr = r->s[d]->m->x[e]->rows[i]; for (int j = 0; j < r->n; j++) sr[j / 64] = (sr[j / 64] & ~(1ull << j % 64)) | (word)(AT(z->X[d], i, j) >> e & 1) << j % 64; } }
}
static void open_re(Re *r, const Fld *F, const St *z, int place) {
  memset(r, 0, sizeof *r); r->F = F; r->n = z->X[0]->r;
  for (int d = 0; d < 2; d++) { r->p[d] = pm_new(F, z->X[d], (place + d) % NPLACE); r->s[d] = sm_new(F, z->X[d], (place + 1 + d) % NPLACE); }
  r->P = mzp_init(r->n); for (int i = 0; i < r->n; i++) r->P->values[i] = i + (r->n - i) / 2 < r->n ? i + (r->n - i) / 2 : i;
}
static void close_re(Re *r) { for (int d = 0; d < 2; d++) { pm_free(r->p[d]); sm_free(r->s[d]); } mzp_free(r->P); if (r->blm) blm_free(r->blm); }
static void step(Re *r, St *z, const Op *o) {
  int rank = 0; if (o->kind == ECH || o->kind == ECHREF) { Mat *R = mat_dup(z->X[o->d]); rank = mat_rref(r->F, R); }
  packed(r, o, rank); sliced(r, o, rank); model(r->F, z, o); mc_trans(2);
}
/* ---------------------------------------------------------------- alphabet */
static int nj_op(const Op *o) { return (o->v == 2 && (o->kind == MUL || o->kind == ADDMUL || o->kind == SQADD || o->kind == ECH || o->kind == TRSMU || o->kind == TRSML)) || o->kind == INV; }
static int alphabet(const Fld *F, int n, Op *O, int rich, int slow) {
  int m = 0, l = n - 1; E g = F->q > 2 ? 2 : 1, h = F->q - 1;
#define OP(K, V, I, J, X) do { for (int d = 0; d < 2; d++) O[m++] = (Op){K, d, V, I, J, X}; } while (0)
  OP(COPY, 0, 0, 0, 0); OP(ADD, 0, 0, 0, 0); OP(ADDR, 0, 0, 0, 0); OP(ADDSELF, 0, 0, 0, 0);
  for (int v = 0; v < (slow ? 6 : 5); v++) { if (rich || v == 0 || v == 2 || v == 4) { OP(MUL, v, 0, 0, 0); OP(ADDMUL, v, 0, 0, 0); } if (v < 4 && (rich || v != 1)) OP(SQADD, v, 0, 0, 0); }
  OP(SCAL, 0, 0, 0, h); OP(ADDSCAL, 0, 0, 0, g); if (rich) { OP(SCAL, 0, 0, 0, 0); OP(SCAL, 0, 0, 0, 1); OP(ADDSCAL, 0, 0, 0, 0); OP(ADDSCAL, 0, 0, 0, 1); OP(ADDSCAL, 0, 0, 0, h); }
  OP(RESC, 0, l, 0, h); OP(RESC, 0, 0, l, g); OP(ROWMUL, 0, l, 0, h); OP(ROWMUL, 0, 0, 1, g); if (rich) { OP(RESC, 0, 0, 1, 0); OP(ROWMUL, 0, 0, 0, 0); OP(ROWMUL, 0, l, l, 1); }
  OP(ROWADD, 0, 0, l, 0); OP(RSWAP, 0, 0, l, 0); OP(CSWAP, 0, 0, l, 0); OP(CSWAPR, 0, 0, l, 0); OP(CPROW, 0, l, 0, 0); if (rich) { OP(ROWADD, 0, l, 0, 0); OP(RSWAP, 0, 1, 1, 0); OP(CSWAP, 0, l, l, 0); OP(CPROW, 0, 0, 0, 0); }
  OP(WRITE, 0, l, l, h); OP(ADDEL, 0, 0, l, g); OP(SETUI, 0, 0, 0, h); if (rich) { OP(WRITE, 0, 0, 0, 1); OP(WRITE, 0, 0, l, 0); OP(ADDEL, 0, l, 0, h); OP(SETUI, 0, 0, 0, 0); }
  for (int v = 0; v < 4; v++) { if (rich || v == 0 || v == 2) OP(ECH, v, 0, 0, 0); if (rich || v == 1 || v == 3) OP(ECHREF, v, 0, 0, 0); OP(PERM, v, 0, 0, 0); }
  OP(INV, 0, 0, 0, 0); for (int v = 0; v < 3; v++) if (rich || v != 1) { OP(TRSMU, v, 0, 0, 0); OP(TRSML, v, 0, 0, 0); }
  for (int v = 0; v < 3; v++) if (rich || v < 2) OP(GLUE, v, 0, 0, 0);
  OP(SUBWIN, 0, 0, 0, 0); OP(CONV, 0, 0, 0, 0);
  /* tables have 2^k rows: in the large fields not in every quick enumeration */
  if (F->k > 8 && mc_tier < 2 && !slow) { int t = 0; for (int a = 0; a < m; a++) if (!nj_op(O + a)) O[t++] = O[a]; m = t; }
  return m;
}
static const char *opname(const Op *o) { static char b[4][96]; static int t; char *s = b[t++ & 3]; snprintf(s, 96, "%c: %s/%d(%d,%d,0x%x)", "AB"[o->d], KN[o->kind], o->v, o->i, o->j, o->x); return s; }

/* ------------------------------------------------ (1) the whole state space */
static void decode(const Fld *F, int n, uint64_t code, St *z, int nreg) { for (int d = 0; d < 2; d++) { z->X[d] = mat_new(n, n); for (int i = 0; i < n * n; i++) { if (d >= nreg) { z->X[d]->v[i] = (i * 7 + 3 + F->k) % F->q; continue; } z->X[d]->v[i] = code & (F->q - 1); code >>= F->k; } } }
static void whole(const Fld *F, int n, int nreg, uint64_t from, uint64_t to, uint64_t stride, int rich) {
  Op O[256]; int no = alphabet(F, n, O, rich, 0); St z; decode(F, n, 0, &z, nreg); Re R; open_re(&R, F, &z, (from / (to - from)) % NPLACE); size_t mark = ar_mark();
  for (uint64_t c = from; c < to; c++) { uint64_t code = c * stride; decode(F, n, code, &z, nreg); size_t m1 = ar_mark();
    for (int a = 0; a < no; a++) { if (!enabled(F, &z, O + a)) { ar_release(m1); continue; } St y = z;
      mc_sub("%s in state %llx", opname(O + a), (unsigned long long)code); put_state(&R, &z); step(&R, &y, O + a); observe(&R, &y); ar_release(m1); }
    ar_release(mark); }
  close_re(&R); mc_note("states of which all successors were checked", to - from);
}
/* every state is reachable by the alphabet itself: search on the model */
static void reachable(const Fld *F, int n) {
  Op O[256]; int no = alphabet(F, n, O, 1, 0); uint64_t N = 1ull << (2 * n * n * F->k); uint8_t *seen = ar_zalloc(N); uint32_t *q = ar_alloc(N * 4); uint64_t h = 0, t = 0; seen[0] = 1; q[t++] = 0; size_t mark = ar_mark();
  while (h < t) { uint32_t c = q[h++]; for (int a = 0; a < no; a++) { St z; decode(F, n, c, &z, 2); if (O[a].kind == MUL && O[a].v) { ar_release(mark); continue; } if (enabled(F, &z, O + a)) { model(F, &z, O + a); uint64_t y = 0; for (int d = 1; d >= 0; d--) for (int i = n * n - 1; i >= 0; i--) y = y << F->k | z.X[d]->v[i]; if (!seen[y]) { seen[y] = 1; q[t++] = y; } } ar_release(mark); } }
  CHECK(t == N, "harness: only %llu of %llu states reachable", (unsigned long long)t, (unsigned long long)N); mc_note("reachable states found by search from zero", t);
}
/* -------------------------------- (2) breadth first, states merged by content */
typedef struct { uint64_t key; E *v; } Node;
static uint64_t key_of(const St *z) { uint64_t h = 0x811c9dc5; for (int d = 0; d < 2; d++) for (int i = 0; i < z->X[d]->r * z->X[d]->c; i++) h = mc_hash(h, z->X[d]->v[i], i, d); return h | 1; }
static void bfs(const Fld *F, int n, const St *init, int depth, long limit, int place) {
  Op O[256]; int no = alphabet(F, n, O, 0, 0); Re R; open_re(&R, F, init, place);
  long cap = 1; while (cap < 4 * limit) cap <<= 1; uint64_t *tab = ar_zalloc(cap * 8); E **fr = ar_alloc(limit * sizeof(E *)), **nx = ar_alloc(limit * sizeof(E *)); long nf = 0, total = 1; int nn = n * n;
  E *v0 = ar_alloc(2 * nn * sizeof(E)); memcpy(v0, init->X[0]->v, nn * sizeof(E)); memcpy(v0 + nn, init->X[1]->v, nn * sizeof(E)); fr[nf++] = v0; uint64_t k0 = key_of(init); tab[k0 & (cap - 1)] = k0;
  for (int lev = 0; lev < depth; lev++) { long nn2 = 0;
    for (long f = 0; f < nf; f++) for (int a = 0; a < no; a++) { size_t mark = ar_mark(); St z; for (int d = 0; d < 2; d++) { z.X[d] = mat_new(n, n); memcpy(z.X[d]->v, fr[f] + d * nn, nn * sizeof(E)); }
      if (!enabled(F, &z, O + a)) { ar_release(mark); continue; }
      mc_sub("%s at depth %d", opname(O + a), lev); put_state(&R, &z); step(&R, &z, O + a); observe(&R, &z);
      uint64_t k = key_of(&z); long h = k & (cap - 1); while (tab[h] && tab[h] != k) h = (h + 1) & (cap - 1);
      if (tab[h] || total >= limit) { if (!tab[h]) mc_note("states not expanded (limit)", 1); ar_release(mark); continue; } tab[h] = k; total++;
      E *sv = (E *)malloc(2 * nn * sizeof(E)); memcpy(sv, z.X[0]->v, nn * sizeof(E)); memcpy(sv + nn, z.X[1]->v, nn * sizeof(E)); ar_release(mark); E *av = sv; if (lev + 1 < depth) { av = ar_alloc(2 * nn * sizeof(E)); memcpy(av, sv, 2 * nn * sizeof(E)); nx[nn2++] = av; } free(sv); }
    memcpy(fr, nx, nn2 * sizeof(E *)); nf = nn2; }
  close_re(&R); mc_note("distinct states reached breadth first", total);
}
/* ------------------------------------------- (3) all sequences, live objects */
static void paths(const Fld *F, int n, const St *init, int depth, int first, int stride, int place, int slow) {
  Op O[256]; int no = alphabet(F, n, O, 0, slow); if (first >= no) return; long tot = 1; for (int i = 1; i < depth; i++) tot *= no; size_t mark = ar_mark();
  for (long c = 0; c < tot; c += stride) { long x = c; const Op *s[8]; s[0] = O + first; for (int i = 1; i < depth; i++) { s[i] = O + x % no; x /= no; }
    St z = *init; Re R; open_re(&R, F, init, (place + c) % NPLACE); int len = 0; if (slow) { int *p = crt_init(F->k, F->k); R.blm = blm_init_crt(F->ff, F->k, F->k, p, c & 1); m4ri_mm_free(p); }
    for (int i = 0; i < depth; i++) { if (!enabled(F, &z, s[i])) break; mc_sub("%s%s%s%s%s%s%s", i > 2 ? opname(s[i - 3]) : "", i > 2 ? "; " : "", i > 1 ? opname(s[i - 2]) : "", i > 1 ? "; " : "", i ? opname(s[i - 1]) : "", i ? "; " : "", opname(s[i])); step(&R, &z, s[i]); observe(&R, &z); len++; }
    if (len) mc_traces(1); close_re(&R); ar_release(mark); }
}
static void start(const Fld *F, int n, int which, St *z) {
  if (which == 0) { z->X[0] = mat_new(n, n); z->X[1] = mat_new(n, n); }
  else if (which == 1) { z->X[0] = mat_pat(F, n, n, 4); z->X[1] = mat_pat(F, n, n, 5); for (int i = 0; i < n; i++) { if (!AT(z->X[0], i, i)) AT(z->X[0], i, i) = 1; if (!AT(z->X[1], i, i)) AT(z->X[1], i, i) = F->q - 1; } }
  else { int piv[64]; int g = piv_family(2, n, n / 2 + 1, piv); z->X[0] = mat_rank(F, n, n, g, piv, 5, 1); z->X[1] = mat_pat(F, n, n, 2); }
}
PROPERTY(C22) {
  Fld *F2 = field(2, 0);
  if (mc_tier && CASE("2x2 over GF(4): reachability")) reachable(F2, 2);
  { int parts = 256; uint64_t N = 65536 / TIER(64, 1, 1); for (int c = 0; c < parts; c++) if (CASE("every pair of 2x2 matrices over GF(4), part %d", c)) whole(F2, 2, 2, N * c / parts, N * (c + 1) / parts, TIER(64, 1, 1), 1); }
  { Fld *F = field(3, 1); uint64_t N = 4096; for (int c = 0; c < 32; c++) if (CASE("every 2x2 matrix over GF(8), part %d", c)) whole(F, 2, 1, N * c / 32 / TIER(8, 1, 1), N * (c + 1) / 32 / TIER(8, 1, 1), TIER(8, 1, 1), 1); }
  { Fld *F = field(4, -1); uint64_t st = TIER(509, 5, 1), N = 65536 / st; for (int c = 0; c < 64; c++) if (CASE("2x2 matrices over GF(16), part %d", c)) whole(F, 2, 1, N * c / 64, N * (c + 1) / 64, st, 1); }
  { uint64_t st = TIER(2003, 7, 1), N = 262144 / st; for (int c = 0; c < 64; c++) if (CASE("3x3 matrices over GF(4), part %d", c)) whole(F2, 3, 1, N * c / 64, N * (c + 1) / 64, st, 1); }
  for (int k = 2; k <= 16; k++) { Fld *F = field(k, k % 2 ? 0 : -1); int e = F->epw, ns[3] = {2, e + 1, k < 4 ? e - 1 : 2 * e + 1};
    for (int s = 0; s < 3; s++) for (int w = 0; w < 3; w++) { int n = ns[s]; if (mc_tier == 0 && (w != 1 || s == 2 || k % 4 != 1)) continue; if (mc_tier == 1 && s == 2 && w != 2) continue;
      for (int pl = 0; pl < TIER(1, 2, 4); pl++) if (CASE("k=%d n=%d from start %d, breadth first, placement %d", k, n, w, pl)) { St z; start(F, n, w, &z); long lim = TIER(50, n > 8 ? 400 : 1500, n > 8 ? 1500 : 12000) / (k > 8 ? TIER(2, 5, 2) : 1); bfs(F, n, &z, TIER(2, 4, 6), lim, pl * 2 + w); } }
    if (mc_tier) { Op O[256]; int no = alphabet(F, 3, O, 0, 1);
      for (int f = 0; f < no; f++) for (int w = 1; w < 3; w++) { int n = (k % 4 == 1 || w == 2) ? 3 : e + 1; if (n > 20 && mc_tier == 1) n = 9;
        if (CASE("k=%d n=%d every sequence of %d starting with %s", k, n, TIER(2, 2, 3), opname(O + f))) { St z; start(F, n, w, &z); paths(F, n, &z, 2, f, mc_tier == 1 && k > 6 ? (k > 8 ? 5 : 2) : 1, f + w, k < 9 || f % 16 == 0); if (mc_tier == 2 || k == 2 || k == 5) paths(F, n < 10 ? n : 3, &z, 3, f, mc_tier == 2 && k <= 8 ? 1 : 7, f, 0); } } }
  }
}

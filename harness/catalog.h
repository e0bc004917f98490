/* A catalogue of operations of the public interface. Every operation builds
 * its arguments, calls the library inside LIB(), registers what came back and
 * checks that operands it does not document as output are unchanged. Used
 * for leak/allocation-failure checking (C25) and history checking (C23). */
#ifndef CATALOG_H
#define CATALOG_H
#include "mc.h"
#include <m4rie/newton_john.h>

typedef struct {
  const Fld *F; int m, l, n, place, pat;
  uint64_t h;                    /* hash of everything observable the operation produced */
  long delta, allocs, remaining; /* live blocks, allocations, allocation still to come that shall fail */
  int refused;
  jmp_buf out;
  struct { PM *p; SM *s; Mat *X; } arg[24]; int na, np, ns;
} Ctx;
static void lib_in(Ctx *z, long *l0, long *a0) { *l0 = mc_live_blocks; *a0 = mc_alloc_count; mc_alloc_fail_at = z->remaining; }
static void lib_out(Ctx *z, long l0, long a0) { z->remaining = mc_alloc_fail_at; mc_alloc_fail_at = 0; z->delta += mc_live_blocks - l0; z->allocs += mc_alloc_count - a0; }
#define LIB(stmt) do { volatile long _l, _a; long _x, _y; lib_in(z, &_x, &_y); _l = _x; _a = _y;                              \
    if (z->remaining) { volatile int _r = REFUSES(stmt); mc_alloc_fail_at = _r ? 0 : mc_alloc_fail_at; lib_out(z, _l, _a); \
      if (_r) { z->refused = 1; longjmp(z->out, 1); } }                                                              \
    else { stmt; lib_out(z, _l, _a); } } while (0)
static void put(Ctx *z, uint64_t v) { z->h = mc_hash(z->h, v, 0x51, 0x17); }
static void put_mat(Ctx *z, const Mat *A) { put(z, A->r); put(z, A->c); for (int i = 0; i < A->r * A->c; i++) z->h = (z->h ^ A->v[i]) * 0x100000001b3ull; put(z, 3); }
/* With cat_pool the operands of an operation are the objects of its previous run, holding other contents. */
static int cat_pool; static PM *pool_p[32]; static SM *pool_s[32];
static PM *cp_new(Ctx *z, Mat *X, int place) {
  if (!cat_pool) return pm_new(z->F, X, place);
  CHECK(z->np < 32, "harness: pool"); PM **p = pool_p + z->np++; if (*p) pm_fill(*p, X); else *p = pm_new(z->F, X, place); return *p; }
static SM *cs_new(Ctx *z, Mat *X, int place) {
  if (!cat_pool) return sm_new(z->F, X, place);
  CHECK(z->ns < 32, "harness: pool"); SM **p = pool_s + z->ns++; if (*p) sm_fill(*p, X); else *p = sm_new(z->F, X, place); return *p; }
static void cp_free(PM *p) { if (!cat_pool) pm_free(p); }
static void cs_free(SM *p) { if (!cat_pool) sm_free(p); }
static void pool_start(void) { memset(pool_p, 0, sizeof pool_p); memset(pool_s, 0, sizeof pool_s); cat_pool = 1; }
static void pool_end(void) { for (int i = 0; i < 32; i++) { if (pool_p[i]) pm_free(pool_p[i]); if (pool_s[i]) sm_free(pool_s[i]); } cat_pool = 0; }
/* operands that must stay as they are */
static mzed_t *in_p(Ctx *z, Mat *X) { PM *p = cp_new(z, X, (z->place + z->na) % NPLACE); z->arg[z->na].p = p; z->arg[z->na].s = NULL; z->arg[z->na++].X = X; return p->m; }
static mzd_slice_t *in_s(Ctx *z, Mat *X) { SM *p = cs_new(z, X, (z->place + z->na) % NPLACE); z->arg[z->na].s = p; z->arg[z->na].p = NULL; z->arg[z->na++].X = X; return p->m; }
/* operands that are changed: registered without a model; their bits are an output */
static mzed_t *io_p(Ctx *z, Mat *X) { mzed_t *m = in_p(z, X); z->arg[z->na - 1].X = NULL; return m; }
static mzd_slice_t *io_s(Ctx *z, Mat *X) { mzd_slice_t *m = in_s(z, X); z->arg[z->na - 1].X = NULL; return m; }
static void done(Ctx *z) {
  for (int i = 0; i < z->na; i++) {
    Mat *X = z->arg[i].X, *R = X;
    if (z->arg[i].p) { if (!X) put_mat(z, R = pm_read(z->arg[i].p)); pm_check(z->arg[i].p, R, X ? "input operand" : "changed operand"); cp_free(z->arg[i].p); }
    else { if (!X) put_mat(z, R = sm_read(z->arg[i].s)); sm_check(z->arg[i].s, R, X ? "input operand" : "changed operand"); cs_free(z->arg[i].s); }
  }
}
/* results the library returned */
static void res_p(Ctx *z, mzed_t *x, int r, int c) { CHECK(x && x->nrows == r && x->ncols == c, "result has the wrong shape"); PM *p = pm_wrap(z->F, x, r, c); Mat *R = pm_read(p); pm_check(p, R, "result"); put_mat(z, R); LIB(mzed_free(x)); }
static void res_s(Ctx *z, mzd_slice_t *x, int r, int c) { CHECK(x && x->nrows == r && x->ncols == c, "result has the wrong shape"); SM *p = sm_wrap(z->F, x, r, c); Mat *R = sm_read(p); sm_check(p, R, "result"); put_mat(z, R); LIB(mzd_slice_free(x)); }
static void res_b(Ctx *z, const mzd_t *x) { put(z, x->nrows); put(z, x->ncols); for (int i = 0; i < x->nrows; i++) for (int j = 0; j < x->width; j++) put(z, x->rows[i][j]); }

static E cat_e(const Ctx *z) { return z->pat < 8 ? z->F->q - 1 : z->pat * 5 % (z->F->q - 1) + 1; }
static Mat *pa(Ctx *z) { return mat_pat(z->F, z->m, z->l, z->pat); }
static Mat *pb(Ctx *z) { return mat_pat(z->F, z->l, z->n, z->pat + 1); }
static Mat *pc(Ctx *z) { return mat_pat(z->F, z->m, z->n, z->pat + 2); }
static Mat *psq(Ctx *z, int n) { Mat *A = mat_pat(z->F, n, n, z->pat); for (int i = 0; i < n; i++) if (!AT(A, i, i)) AT(A, i, i) = 1; return A; }
static Mat *plow(Ctx *z, int n) { Mat *A = psq(z, n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) AT(A, i, j) = i == j; return A; }
static Mat *pup(Ctx *z, int n) { Mat *A = psq(z, n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) AT(A, i, j) = 0; return A; }
static Mat *preg(Ctx *z, int n) { int piv[1024]; for (int i = 0; i < n; i++) piv[i] = i; return mat_rank(z->F, n, n, n, piv, z->pat, 1); }
static Mat *prank(Ctx *z, int m, int n) { int mn = m < n ? m : n, r = mn * 2 / 3, fam = 2, piv[1024];
  if (z->pat >= 12) { int q = z->pat % 5; r = q == 0 ? mn : q == 1 ? 0 : q == 2 ? 1 : q == 3 ? mn - 1 : mn / 2; fam = q == 0 ? z->pat % 2 : z->pat % NPIVFAM; }
  int g = piv_family(fam, n, r, piv); return mat_rank(z->F, m, n, g, piv, z->pat, 2); }

#define MULP(NAME, CALL, NUL) \
  static void NAME(Ctx *z) { mzed_t *a = in_p(z, pa(z)), *b = in_p(z, pb(z)), *c = io_p(z, pc(z)); mzed_t *x; LIB(x = CALL(c)); CHECK(x == c, "another object returned"); \
    if (NUL) { LIB(x = CALL(NULL)); res_p(z, x, z->m, z->n); } done(z); }
#define C_(f) f
#define CALL_mul(c) mzed_mul(c, a, b)
#define CALL_addmul(c) mzed_addmul(c, a, b)
#define CALL_muln(c) mzed_mul_naive(c, a, b)
#define CALL_addmuln(c) mzed_addmul_naive(c, a, b)
#define CALL_mulnj(c) mzed_mul_newton_john(c, a, b)
#define CALL_addmulnj(c) mzed_addmul_newton_john(c, a, b)
#define CALL_mulst(c) mzed_mul_strassen(c, a, b, 64)
#define CALL_addmulst(c) mzed_addmul_strassen(c, a, b, 64)
#define CALL_mulst0(c) mzed_mul_strassen(c, a, b, 0)
#define CALL_mulka(c) mzed_mul_karatsuba(c, a, b)
#define CALL_addmulka(c) mzed_addmul_karatsuba(c, a, b)
#define CALL_mulblm(c) mzed_mul_blm(c, a, b)
#define CALL_addmulblm(c) mzed_addmul_blm(c, a, b)
MULP(o_mul, CALL_mul, 1) MULP(o_addmul, CALL_addmul, 0) MULP(o_muln, CALL_muln, 1) MULP(o_addmuln, CALL_addmuln, 0) MULP(o_mulnj, CALL_mulnj, 1) MULP(o_addmulnj, CALL_addmulnj, 0)
MULP(o_mulst, CALL_mulst, 1) MULP(o_addmulst, CALL_addmulst, 0) MULP(o_mulst0, CALL_mulst0, 1) MULP(o_mulka, CALL_mulka, 1) MULP(o_addmulka, CALL_addmulka, 0) MULP(o_mulblm, CALL_mulblm, 1) MULP(o_addmulblm, CALL_addmulblm, 0)
static void o_nj0(Ctx *z) { mzed_t *a = in_p(z, pa(z)), *b = in_p(z, pb(z)), *c = io_p(z, mat_new(z->m, z->n)); LIB(_mzed_mul_newton_john0(c, a, b)); LIB(mzed_set_ui(c, 0)); LIB(_mzed_mul_newton_john(c, a, b)); done(z); }
#define MULS(NAME, CALL, NUL) \
  static void NAME(Ctx *z) { mzd_slice_t *a = in_s(z, pa(z)), *b = in_s(z, pb(z)), *c = io_s(z, pc(z)); mzd_slice_t *x; LIB(x = CALL(c)); CHECK(x == c, "another object returned"); \
    if (NUL) { LIB(x = CALL(NULL)); res_s(z, x, z->m, z->n); } done(z); }
#define CALS_mul(c) mzd_slice_mul(c, a, b)
#define CALS_addmul(c) mzd_slice_addmul(c, a, b)
#define CALS_blm(c) mzd_slice_mul_blm(c, a, b, NULL)
#define CALS_addblm(c) mzd_slice_addmul_blm(c, a, b, NULL)
#define CALS_naive(c) _mzd_slice_addmul_naive(c, a, b)
#define CALS_kar(c) _mzd_slice_addmul_karatsuba(c, a, b)
MULS(o_smul, CALS_mul, 1) MULS(o_saddmul, CALS_addmul, 0) MULS(o_sblm, CALS_blm, 1) MULS(o_saddblm, CALS_addblm, 0) MULS(o_snaive, CALS_naive, 1) MULS(o_skar, CALS_kar, 1)
static void o_blmplan(Ctx *z) { /* a bilinear map that is reused, compiled and not compiled */
  mzd_slice_t *a = in_s(z, pa(z)), *b = in_s(z, pb(z)), *c = io_s(z, pc(z)); int k = z->F->k;
  for (int djb = 0; djb < 2; djb++) { int *p; LIB(p = crt_init(k, k)); CHECK(p, "no plan"); for (int i = 0; i < M4RIE_CRT_LEN; i++) put(z, p[i]); blm_t *f; LIB(f = blm_init_crt(z->F->ff, k, k, p, djb)); res_b(z, f->F); res_b(z, f->G); res_b(z, f->H); LIB(mzd_slice_mul_blm(c, a, b, f)); LIB(mzd_slice_mul_blm(c, a, b, f)); LIB(blm_free(f)); LIB(m4ri_mm_free(p)); }
  done(z); }
/* linear operations */
static void o_add(Ctx *z) { mzed_t *a = in_p(z, pa(z)), *b = in_p(z, mat_pat(z->F, z->m, z->l, z->pat + 3)), *c = io_p(z, mat_pat(z->F, z->m, z->l, 10)), *x; LIB(mzed_add(c, a, b)); LIB(x = mzed_add(NULL, a, b)); res_p(z, x, z->m, z->l); done(z); }
static void o_sadd(Ctx *z) { mzd_slice_t *a = in_s(z, pa(z)), *b = in_s(z, mat_pat(z->F, z->m, z->l, z->pat + 3)), *c = io_s(z, mat_pat(z->F, z->m, z->l, 10)), *x; LIB(mzd_slice_add(c, a, b)); LIB(x = mzd_slice_add(NULL, a, b)); res_s(z, x, z->m, z->l); done(z); }
static void o_scal(Ctx *z) { E e = cat_e(z); mzed_t *a = in_p(z, pa(z)), *c = io_p(z, mat_pat(z->F, z->m, z->l, 10)), *x; LIB(mzed_mul_scalar(c, e, a)); LIB(x = mzed_mul_scalar(NULL, e, a)); res_p(z, x, z->m, z->l); done(z); }
static void o_scalbig(Ctx *z) { E e = cat_e(z); mzed_t *a = in_p(z, mat_pat(z->F, 1024, 128, z->pat)), *x; LIB(x = mzed_mul_scalar(NULL, e, a)); res_p(z, x, 1024, 128); done(z); }
static void o_sscal(Ctx *z) { E e = cat_e(z); mzd_slice_t *a = in_s(z, pa(z)), *c = io_s(z, mat_pat(z->F, z->m, z->l, 10)), *x; LIB(mzd_slice_mul_scalar(c, e, a)); LIB(mzd_slice_addmul_scalar(c, 2, a)); LIB(x = mzd_slice_mul_scalar(NULL, e, a)); res_s(z, x, z->m, z->l); done(z); }
/* structure */
static void o_init(Ctx *z) { mzed_t *x; LIB(x = mzed_init(z->F->ff, z->m, z->n)); res_p(z, x, z->m, z->n); mzd_slice_t *y; LIB(y = mzd_slice_init(z->F->ff, z->m, z->n)); res_s(z, y, z->m, z->n); done(z); }
static void o_copy(Ctx *z) { mzed_t *a = in_p(z, pa(z)), *c = io_p(z, mat_pat(z->F, z->m, z->l, 10)), *x; LIB(mzed_copy(c, a)); LIB(x = mzed_copy(NULL, a)); res_p(z, x, z->m, z->l); done(z); }
static void o_scopy(Ctx *z) { mzd_slice_t *a = in_s(z, pa(z)), *c = io_s(z, mat_pat(z->F, z->m, z->l, 10)), *x; LIB(mzd_slice_copy(c, a)); LIB(x = mzd_slice_copy(NULL, a)); res_s(z, x, z->m, z->l); done(z); }
static void o_glue(Ctx *z) { int pl = z->place; z->place = 0; Mat *A = pa(z), *B = mat_pat(z->F, z->m, z->l, z->pat + 1); PM *a = cp_new(z, A, OWN), *b = cp_new(z, B, OWN); mzed_t *x;
  LIB(x = mzed_concat(NULL, a->m, b->m)); res_p(z, x, z->m, 2 * z->l); LIB(x = mzed_stack(NULL, a->m, b->m)); res_p(z, x, 2 * z->m, z->l); LIB(x = mzed_submatrix(NULL, a->m, z->m / 2, z->l / 2, z->m, z->l)); res_p(z, x, z->m - z->m / 2, z->l - z->l / 2);
  pm_check(a, A, "operand"); pm_check(b, B, "operand"); cp_free(a); cp_free(b); z->place = pl; done(z); }
static void o_sglue(Ctx *z) { Mat *A = pa(z), *B = mat_pat(z->F, z->m, z->l, z->pat + 1); SM *a = cs_new(z, A, OWN), *b = cs_new(z, B, OWN); mzd_slice_t *x;
  LIB(x = mzd_slice_concat(NULL, a->m, b->m)); res_s(z, x, z->m, 2 * z->l); LIB(x = mzd_slice_stack(NULL, a->m, b->m)); res_s(z, x, 2 * z->m, z->l); LIB(x = mzd_slice_submatrix(NULL, a->m, z->m / 2, z->l / 2, z->m, z->l)); res_s(z, x, z->m - z->m / 2, z->l - z->l / 2);
  sm_check(a, A, "operand"); sm_check(b, B, "operand"); cs_free(a); cs_free(b); done(z); }
static void o_window(Ctx *z) { mzed_t *a = in_p(z, pa(z)), *w; LIB(w = mzed_init_window(a, z->m / 2, 0, z->m, z->l)); for (int i = 0; i < w->nrows; i++) for (int j = 0; j < w->ncols; j++) put(z, mzed_read_elem(w, i, j)); LIB(mzed_free_window(w));
  mzd_slice_t *b = in_s(z, pa(z)), *v; LIB(v = mzd_slice_init_window(b, z->m / 2, 0, z->m, z->l)); for (int i = 0; i < v->nrows; i++) for (int j = 0; j < v->ncols; j++) put(z, mzd_slice_read_elem(v, i, j)); LIB(mzd_slice_free_window(v)); done(z); }
static void o_setui(Ctx *z) { mzed_t *a = io_p(z, pa(z)); LIB(mzed_set_ui(a, z->F->q - 2)); mzd_slice_t *b = io_s(z, pa(z)); LIB(mzd_slice_set_ui(b, z->F->q - 2)); done(z); }
static void o_elems(Ctx *z) { mzed_t *a = io_p(z, pa(z)); mzd_slice_t *b = io_s(z, pa(z)); E e = cat_e(z); int i = z->m - 1, j = z->l - 1; LIB(mzed_write_elem(a, i, j, e)); LIB(mzed_add_elem(a, 0, j, e)); LIB(mzd_slice_write_elem(b, i, j, e)); LIB(mzd_slice_add_elem(b, 0, j, e)); put(z, mzed_read_elem(a, i, 0)); put(z, mzd_slice_read_elem(b, i, 0)); done(z); }
static void o_cmp(Ctx *z) { mzed_t *a = in_p(z, pa(z)), *b = in_p(z, pa(z)), *c = in_p(z, mat_pat(z->F, z->m, z->l, 10)); int r; LIB(r = mzed_cmp(a, b)); put(z, r); LIB(r = mzed_cmp(a, c) != 0); put(z, r); LIB(r = mzed_is_zero(a)); put(z, r); LIB(r = mzed_first_zero_row(a)); put(z, r);
  mzd_slice_t *u = in_s(z, pa(z)), *v = in_s(z, pa(z)); LIB(r = mzd_slice_cmp(u, v)); put(z, r); LIB(r = mzd_slice_is_zero(u)); put(z, r); done(z); }
static void o_rows(Ctx *z) { mzed_t *a = io_p(z, pa(z)), *b = in_p(z, mat_pat(z->F, z->m, z->l, z->pat + 1)); E e = cat_e(z); int r = z->m - 1, c = z->l - 1;
  LIB(mzed_row_swap(a, 0, r)); LIB(mzed_copy_row(a, r, b, 0)); LIB(mzed_col_swap(a, 0, c)); LIB(mzed_col_swap_in_rows(a, 0, c, z->m / 2, z->m)); if (r) LIB(mzed_row_add(a, 0, r)); LIB(mzed_add_row(a, 0, b, r, c / 2)); LIB(mzed_rescale_row(a, r, c / 2, e)); LIB(mzed_add_multiple_of_row(a, 0, b, r, e, c / 3)); done(z); }
static void o_srows(Ctx *z) { mzd_slice_t *a = io_s(z, pa(z)), *b = in_s(z, mat_pat(z->F, z->m, z->l, z->pat + 1)); E e = cat_e(z); int r = z->m - 1, c = z->l - 1;
  LIB(mzd_slice_row_swap(a, 0, r)); LIB(mzd_slice_copy_row(a, r, b, 0)); LIB(mzd_slice_col_swap(a, 0, c)); LIB(mzd_slice_col_swap_in_rows(a, 0, c, z->m / 2, z->m)); if (r) LIB(mzd_slice_row_add(a, 0, r)); LIB(mzd_slice_rescale_row(a, r, c / 2, e)); done(z); }
static void o_slice(Ctx *z) { mzed_t *a = in_p(z, pa(z)); mzd_slice_t *t = io_s(z, mat_pat(z->F, z->m, z->l, 10)), *x; LIB(mzed_slice(t, a)); LIB(x = mzed_slice(NULL, a)); res_s(z, x, z->m, z->l); done(z); }
static void o_cling(Ctx *z) { mzd_slice_t *a = in_s(z, pa(z)); mzed_t *t = io_p(z, mat_pat(z->F, z->m, z->l, 10)), *x; LIB(mzed_cling(t, a)); LIB(x = mzed_cling(NULL, a)); res_p(z, x, z->m, z->l); done(z); }
static void o_perm(Ctx *z) { mzp_t *P = mzp_init(z->m), *Q = mzp_init(z->l); for (int i = 0; i < z->m; i++) P->values[i] = i + (z->m - i) / 2 < z->m ? i + (z->m - i) / 2 : i; for (int i = 0; i < z->l; i++) Q->values[i] = i + (z->l - i) / 3 < z->l ? i + (z->l - i) / 3 : i;
  mzed_t *a = io_p(z, pa(z)); mzd_slice_t *b = io_s(z, pa(z)), *t = io_s(z, psq(z, z->l)); LIB(mzed_apply_p_left(a, P)); LIB(mzed_apply_p_right(a, Q)); LIB(mzd_slice_apply_p_left(b, P)); LIB(mzd_slice_apply_p_right(b, Q)); LIB(mzd_slice_apply_p_right_trans_tri(t, Q)); LIB(mzed_apply_p_left_trans(a, P)); LIB(mzd_slice_apply_p_left_trans(b, P)); LIB(mzed_apply_p_right_trans(a, Q)); LIB(mzd_slice_apply_p_right_trans(b, Q));
  for (int i = 0; i < z->m; i++) put(z, P->values[i]); for (int i = 0; i < z->l; i++) put(z, Q->values[i]); mzp_free(P); mzp_free(Q); done(z); }
/* elimination */
#define ECH(NAME, CALL) static void NAME(Ctx *z) { int r; mzed_t *a = io_p(z, prank(z, z->m, z->n)); LIB(r = CALL(a, 1)); put(z, r); mzed_t *b = io_p(z, prank(z, z->m, z->n)); LIB(r = CALL(b, 0)); put(z, r); done(z); }
ECH(o_ech, mzed_echelonize) ECH(o_echn, mzed_echelonize_naive) ECH(o_echnj, mzed_echelonize_newton_john) 
/* libm4ri's recursive compression touches neighbours of windows: see known findings; owned matrices here */
static void o_echple(Ctx *z) { int r; z->place = OWN; for (int f = 0; f < 2; f++) { Mat *A = prank(z, z->m, z->n); PM *a = cp_new(z, A, OWN); SM *b = cs_new(z, A, OWN); LIB(r = mzed_echelonize_ple(a->m, f)); put(z, r); LIB(r = mzd_slice_echelonize_ple(b->m, f)); put(z, r); Mat *R = pm_read(a); pm_check(a, R, "echelon form"); put_mat(z, R); R = sm_read(b); sm_check(b, R, "echelon form"); put_mat(z, R); cp_free(a); cs_free(b); } done(z); }
static void o_ple(Ctx *z) { for (int v = 0; v < 5; v++) { Mat *A = prank(z, z->m, z->n); mzp_t *P, *Q; LIB(P = mzp_init(z->m)); LIB(Q = mzp_init(z->n)); int r; 
    if (v < 3) { PM *a = cp_new(z, A, OWN); if (v == 0) LIB(r = mzed_ple(a->m, P, Q)); else if (v == 1) LIB(r = mzed_ple_naive(a->m, P, Q)); else LIB(r = mzed_ple_newton_john(a->m, P, Q)); Mat *R = pm_read(a); pm_check(a, R, "decomposition"); put_mat(z, R); cp_free(a); }
    else { SM *a = cs_new(z, A, OWN); if (v == 3) LIB(r = mzd_slice_ple(a->m, P, Q)); else LIB(r = mzd_slice_pluq(a->m, P, Q)); Mat *R = sm_read(a); sm_check(a, R, "decomposition"); put_mat(z, R); cs_free(a); }
    put(z, r); for (int i = 0; i < z->m; i++) put(z, P->values[i]); for (int i = 0; i < z->n; i++) put(z, Q->values[i]); LIB(mzp_free(P)); LIB(mzp_free(Q)); } done(z); }
static void o_plerec(Ctx *z) { Mat *A = prank(z, z->m, z->n); mzp_t *P, *Q; LIB(P = mzp_init(z->m)); LIB(Q = mzp_init(z->n)); int r; SM *a = cs_new(z, A, OWN); LIB(r = _mzd_slice_ple(a->m, P, Q, 64)); Mat *R = sm_read(a); sm_check(a, R, "decomposition"); put_mat(z, R); cs_free(a); PM *b = cp_new(z, A, OWN); LIB(_mzed_ple(b->m, P, Q, 64)); R = pm_read(b); pm_check(b, R, "decomposition"); put_mat(z, R); cp_free(b); put(z, r); LIB(mzp_free(P)); LIB(mzp_free(Q)); done(z); }
static void o_trsm(Ctx *z) { mzed_t *L = in_p(z, plow(z, z->m)), *U = in_p(z, pup(z, z->m)); 
  mzed_t *b = io_p(z, pc(z)); LIB(mzed_trsm_lower_left(L, b)); LIB(mzed_trsm_upper_left(U, b)); LIB(mzed_trsm_lower_left_naive(L, b)); LIB(mzed_trsm_upper_left_naive(U, b)); LIB(mzed_trsm_lower_left_newton_john(L, b)); LIB(mzed_trsm_upper_left_newton_john(U, b)); LIB(_mzed_trsm_lower_left(L, b, 64)); LIB(_mzed_trsm_upper_left(U, b, 64)); done(z); }
static void o_strsm(Ctx *z) { mzd_slice_t *L = in_s(z, plow(z, z->m)), *U = in_s(z, pup(z, z->m)); 
  mzd_slice_t *b = io_s(z, pc(z)); LIB(mzd_slice_trsm_lower_left(L, b)); LIB(mzd_slice_trsm_upper_left(U, b)); LIB(mzd_slice_trsm_lower_left_naive(L, b)); LIB(mzd_slice_trsm_upper_left_naive(U, b)); LIB(mzd_slice_trsm_lower_left_newton_john(L, b)); LIB(mzd_slice_trsm_upper_left_newton_john(U, b)); LIB(_mzd_slice_trsm_lower_left(L, b, 64)); LIB(_mzd_slice_trsm_upper_left(U, b, 64)); done(z); }
static void o_inv(Ctx *z) { mzed_t *a = in_p(z, preg(z, z->m)), *t = io_p(z, mat_pat(z->F, z->m, z->m, 10)), *x; LIB(mzed_invert_newton_john(t, a)); LIB(x = mzed_invert_newton_john(NULL, a)); res_p(z, x, z->m, z->m); done(z); }
static void o_table(Ctx *z) { mzed_t *a = in_p(z, pa(z)), *b = io_p(z, mat_pat(z->F, z->m, z->l, z->pat + 1)); njt_mzed_t *T; LIB(T = mzed_make_table(NULL, a, 0, 0)); LIB(mzed_process_rows(b, 0, z->m, 0, T)); LIB(mzed_make_table(T, a, z->m - 1, z->l / 2)); LIB(mzed_process_rows(b, 0, z->m, z->l / 2, T)); LIB(njt_mzed_free(T));
  if (z->l >= 6) { njt_mzed_t *t[6]; for (int i = 0; i < 6; i++) { LIB(t[i] = njt_mzed_init(z->F->ff, z->l)); LIB(mzed_make_table(t[i], a, i % z->m, i)); }
    LIB(mzed_process_rows2(b, 0, z->m, 0, t[0], t[1])); LIB(mzed_process_rows3(b, 0, z->m, 0, t[0], t[1], t[2])); LIB(mzed_process_rows4(b, 0, z->m, 0, t[0], t[1], t[2], t[3])); LIB(mzed_process_rows5(b, 0, z->m, 0, t[0], t[1], t[2], t[3], t[4])); LIB(mzed_process_rows6(b, 0, z->m, 0, t[0], t[1], t[2], t[3], t[4], t[5])); for (int i = 0; i < 6; i++) LIB(njt_mzed_free(t[i])); }
  done(z); }
static void o_field(Ctx *z) { gf2e *ff; LIB(ff = gf2e_init(z->F->poly)); put(z, ff->minpoly); for (int i = 0; i < 64; i++) put(z, gf2e_mul(ff, (i * 5 + 1) & (z->F->q - 1), (i * 3 + 2) & (z->F->q - 1))); put(z, gf2e_inv(ff, z->F->q - 1)); word *t = NULL; if (z->F->k <= 8) { LIB(t = gf2e_t16_init(ff, z->F->q - 1)); for (int i = 0; i < 65536; i += 7) put(z, t[i]); LIB(gf2e_t16_free(t)); } LIB(gf2e_free(ff)); done(z); }
static long cat_random_n; static long cat_random(void) { return (long)(mc_hash(cat_random_n++, 5, 6, 7) >> 33); }
static void o_rand(Ctx *z) { mzed_t *a = io_p(z, pa(z)); mzd_slice_t *b = io_s(z, pa(z)); cat_random_n = 0; mc_random_hook = cat_random; LIB(mzed_randomize(a)); LIB(mzd_slice_randomize(b)); mc_random_hook = NULL; done(z); }
/* polynomials */
static mzd_poly_t *mkpoly(Ctx *z, int d, int r, int c, int salt) { mzd_poly_t *A; LIB(A = mzd_poly_init(d - 1, r, c)); for (int i = 0; i < A->depth; i++) for (int y = 0; y < r; y++) for (int x = 0; x < c; x++) mzd_write_bit(A->x[i], y, x, mc_hash(i, y, x, salt) & 1); return A; }
static void res_poly(Ctx *z, mzd_poly_t *A) { put(z, A->depth); for (int i = 0; i < A->depth; i++) res_b(z, A->x[i]); LIB(mzd_poly_free(A)); }
static void o_poly(Ctx *z) { int d = z->F->k; mzd_poly_t *A = mkpoly(z, d, z->m, z->l, 1), *B = mkpoly(z, d, z->l, z->n, 2), *C, *D; int da = A->depth, r;
  LIB(C = _mzd_poly_addmul_naive(NULL, A, B)); LIB(D = mzd_poly_init(C->depth - 1, z->m, z->n)); LIB(_mzd_poly_addmul_naive(D, A, B)); LIB(r = mzd_poly_cmp(C, D)); put(z, r);
  LIB(_mzd_poly_addmul_karatsubs_balanced(D, A, B)); put(z, A->depth == da); res_poly(z, D); LIB(D = _mzd_poly_addmul_karatsubs_balanced(NULL, A, B)); res_poly(z, D); LIB(D = _mzd_poly_addmul_ext1(NULL, A, B)); res_poly(z, D); LIB(D = _mzd_poly_addmul_crt(NULL, A, B)); res_poly(z, D);
  LIB(D = mzd_poly_init(C->depth, z->m, z->n)); LIB(mzd_poly_add(D, C, C)); res_poly(z, D); LIB(_mzd_poly_adapt_depth(C, C->depth + 3)); put(z, C->depth); LIB(_mzd_poly_adapt_depth(C, 2)); res_poly(z, C); res_poly(z, A); res_poly(z, B); done(z); }
static void o_ptr(Ctx *z) { int k = z->F->k; mzd_slice_t *a = in_s(z, pa(z)), *b = in_s(z, pb(z)), *c = io_s(z, pc(z)); const mzd_t **A = (const mzd_t **)a->x, **B = (const mzd_t **)b->x;
  static void (*const f[])(const gf2e *, mzd_t **, const mzd_t **, const mzd_t **) = {_mzd_ptr_addmul_karatsuba2, _mzd_ptr_addmul_karatsuba3, _mzd_ptr_addmul_karatsuba4, _mzd_ptr_addmul_karatsuba5, _mzd_ptr_addmul_karatsuba6, _mzd_ptr_addmul_karatsuba7, _mzd_ptr_addmul_karatsuba8, _mzd_ptr_addmul_karatsuba9, _mzd_ptr_addmul_karatsuba10, _mzd_ptr_addmul_karatsuba11, _mzd_ptr_addmul_karatsuba12, _mzd_ptr_addmul_karatsuba13, _mzd_ptr_addmul_karatsuba14, _mzd_ptr_addmul_karatsuba15, _mzd_ptr_addmul_karatsuba16};
  LIB(f[k - 2](z->F->ff, c->x, A, B)); done(z); }

typedef struct { const char *name; void (*run)(Ctx *); int slow; } Op;
static const Op CAT[] = {
  {"mzed_init, mzd_slice_init", o_init, 0}, {"gf2e_init", o_field, 0}, {"mzed_mul", o_mul, 0}, {"mzed_addmul", o_addmul, 0}, {"mzed_mul_naive", o_muln, 0}, {"mzed_addmul_naive", o_addmuln, 0}, {"mzed_mul_newton_john", o_mulnj, 0}, {"mzed_addmul_newton_john", o_addmulnj, 0}, {"_mzed_mul_newton_john0", o_nj0, 0},
  {"mzed_mul_strassen", o_mulst, 0}, {"mzed_addmul_strassen", o_addmulst, 0}, {"mzed_mul_strassen, automatic", o_mulst0, 0}, {"mzed_mul_karatsuba", o_mulka, 0}, {"mzed_addmul_karatsuba", o_addmulka, 0}, {"mzed_mul_blm", o_mulblm, 1}, {"mzed_addmul_blm", o_addmulblm, 1},
  {"mzd_slice_mul", o_smul, 0}, {"mzd_slice_addmul", o_saddmul, 0}, {"mzd_slice_mul_blm", o_sblm, 1}, {"mzd_slice_addmul_blm", o_saddblm, 1}, {"_mzd_slice_addmul_naive", o_snaive, 0}, {"_mzd_slice_addmul_karatsuba", o_skar, 0}, {"blm_init_crt", o_blmplan, 1}, {"_mzd_ptr_addmul_karatsuba", o_ptr, 0},
  {"mzed_add", o_add, 0}, {"mzd_slice_add", o_sadd, 0}, {"mzed_mul_scalar", o_scal, 0}, {"mzed_mul_scalar, large", o_scalbig, 2}, {"mzd_slice_mul_scalar", o_sscal, 0},
  {"mzed_copy", o_copy, 0}, {"mzd_slice_copy", o_scopy, 0}, {"mzed_concat, stack, submatrix", o_glue, 0}, {"mzd_slice_concat, stack, submatrix", o_sglue, 0}, {"windows", o_window, 0}, {"mzed_set_ui, mzd_slice_set_ui", o_setui, 0}, {"element access", o_elems, 0}, {"comparison", o_cmp, 0}, {"mzed row and column operations", o_rows, 0}, {"mzd_slice row and column operations", o_srows, 0},
  {"mzed_slice", o_slice, 0}, {"mzed_cling", o_cling, 0}, {"permutations", o_perm, 0},
  {"mzed_echelonize", o_ech, 0}, {"mzed_echelonize_naive", o_echn, 0}, {"mzed_echelonize_newton_john", o_echnj, 0}, {"echelonize_ple", o_echple, 0}, {"ple, pluq", o_ple, 0}, {"ple, recursive", o_plerec, 0}, {"mzed_trsm", o_trsm, 0}, {"mzd_slice_trsm", o_strsm, 0}, {"mzed_invert_newton_john", o_inv, 0}, {"Newton-John tables", o_table, 0},
  {"mzed_randomize, mzd_slice_randomize", o_rand, 0}, {"polynomials", o_poly, 1}};
#define NCAT ((int)(sizeof CAT / sizeof *CAT))

static void run_op(const Op *o, Ctx *z, const Fld *F, int m, int l, int n, int place, int pat, long fail_at) {
  memset(z, 0, sizeof *z); z->F = F; z->m = m; z->l = l; z->n = n; z->place = place; z->pat = pat; z->remaining = fail_at;
  if (setjmp(z->out) == 0) o->run(z);
}
#endif

/* Explicit-state checking core: claim/replay of enumerated cases, a boring
 * reference model of matrices over GF(2^e), and bridges that put a model
 * matrix into a real mzed_t / mzd_slice_t (owned, or a window into a larger
 * guarded matrix) and afterwards compare EVERY BIT of the backing store
 * with what the model says.
 *
 * Written in C on purpose: the checks must keep compiling whatever C-only
 * construct a maintainer puts into the headers. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <m4rie/m4rie.h>
#include <m4rie/blm.h>

/* ---------------------------------------------------------------- engine */
extern int mc_tier, mc_vary;            /* 0 mini (sanitizer runs), 1 quick, 2 thorough */
int  mc_claim(void);
int  mc_label(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CASE(...) (mc_claim() && mc_label(__VA_ARGS__))
void mc_sub(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* detail inside a case */
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void mc_trans(uint64_t n);     /* n executions of library operations were checked */
void mc_states(uint64_t n);    /* n extra states were visited (beyond 1 per case) */
void mc_traces(uint64_t n);    /* n extra model traces were validated */
void mc_note(const char *name, uint64_t value); /* named counter, added up */
#define CHECK(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
/* degrees for which shapes longer than 2^16 are run */
#define LONG(k) (mc_tier && ((k) == 2 || ((k) + mc_vary) % 4 == 0))
#define TIER(mini, quick, thorough) (mc_tier == 0 ? (mini) : mc_tier == 1 ? (quick) : (thorough))

/* expect the library to refuse: returns 1 when it called m4ri_die (or assert) */
extern jmp_buf mc_die_jmp;
extern volatile int mc_die_armed;
extern char mc_die_msg[512];
#define REFUSES(stmt) __extension__({ volatile int _r = 0; mc_die_armed = 1;            \
    if (setjmp(mc_die_jmp) == 0) { stmt; } else _r = 1; mc_die_armed = 0; _r; })

/* allocation accounting / fault injection (plain builds only) */
extern volatile long mc_live_blocks;   /* live heap blocks, data + headers */
extern volatile long mc_alloc_count;   /* allocations since last reset */
extern volatile long mc_alloc_fail_at; /* >0: that allocation returns NULL (once) */
extern const int mc_have_alloc_hooks;
extern volatile int mc_djb_may_fail, mc_djb_spared; /* libm4ri's unchecked allocations */
extern volatile int mc_junk_byte, mc_free_byte;     /* content of fresh and of released memory */

/* random() is owned by the harness */
extern long (*mc_random_hook)(void);

/* arena, emptied at the end of every case */
void *ar_alloc(size_t n);
void *ar_zalloc(size_t n);
size_t ar_mark(void);          /* release everything allocated since */
void ar_release(size_t mark);

/* ------------------------------------------------------------ field model */
typedef uint16_t E;
typedef struct {
  int k, q, w, epw;      /* degree, 2^k, storage width, elements per word */
  int idx;               /* index in the list of irreducibles of degree k */
  uint32_t poly;
  uint32_t *lg; E *ex;
  gf2e *ff;              /* the library's field object */
} Fld;
extern uint32_t *mdl_irr[17]; extern int mdl_nirr[17];
void mdl_init(void);
uint32_t mdl_clmul_mod(uint32_t a, uint32_t b, uint32_t poly, int k); /* shift and xor */
Fld *field(int k, int idx);            /* cached; idx<0 counts from the end */
static inline E fe_mul(const Fld *F, E a, E b) { return F->ex[F->lg[a] + F->lg[b]]; }
E fe_inv(const Fld *F, E a);

/* ----------------------------------------------------------- matrix model */
typedef struct { int r, c; E *v; } Mat;
#define AT(M, i, j) ((M)->v[(size_t)(i) * (M)->c + (j)])
Mat *mat_new(int r, int c);
Mat *mat_dup(const Mat *A);
Mat *mat_pat(const Fld *F, int r, int c, int pat);  /* enumerated fillings */
#define NPAT 12
#define NSTRUCT 24    /* patterns 12..23: structured contents (one row, one column, zero border, high or low coefficients only, equal rows, equal columns, diagonal, triangular, permutation, 2I, blocks) */
#define P_BIT 1000    /* P_BIT + (i * c + j) * k + e: the single coefficient e of element (i, j) */
extern const char *pat_name[NPAT];
/* four blocks split at row hr, column hc; each is 0, X, Y or X+Y (two bits of code, top left first) */
Mat *mat_quad(const Fld *F, int r, int c, int hr, int hc, int code);
Mat *mat_mul(const Fld *F, const Mat *A, const Mat *B);
Mat *mat_add(const Mat *A, const Mat *B);
Mat *mat_sub(const Mat *A, int lr, int lc, int hr, int hc);
Mat *mat_scale(const Fld *F, E a, const Mat *A);
Mat *mat_id(int n);
int  mat_eq(const Mat *A, const Mat *B);
int  mat_rref(const Fld *F, Mat *A);    /* in place, returns rank */
int  mat_iszero(const Mat *A);
void mat_rowswap(Mat *A, int i, int j);
void mat_colswap(Mat *A, int i, int j);
void mat_show(const Mat *A, char *buf, size_t n);
uint64_t mc_hash(uint64_t a, uint64_t b, uint64_t c, uint64_t d);
/* L (r x r, unit lower) * E  with chosen pivots, rows permuted: rank known */
Mat *mat_rank(const Fld *F, int m, int n, int r, const int *piv, int pat, int perm);
/* enumerated pivot-column families; returns number of pivots, fills piv */
int  piv_family(int fam, int n, int r, int *piv);
#define NPIVFAM 8
int  mat_is_ref(const Mat *A, int rank);

/* -------------------------------------------------------- packed matrices */
enum { OWN = 0, WINMID = 1, WINLEFT = 2, WINEND = 3, NPLACE = 4 };
extern const char *place_name[NPLACE];
typedef struct { mzed_t *m, *par; const Fld *F; int r, c, pr, ro, co; word *snap; int pw; int lib; } PM;
PM  *pm_new(const Fld *F, const Mat *A, int place);
PM  *pm_wrap(const Fld *F, mzed_t *m, int r, int c);  /* object returned by the library */
void pm_check(PM *p, const Mat *exp, const char *what);
void pm_free(PM *p);
void pm_fill(PM *p, const Mat *A);   /* other contents in the same object, as a user would write them */
/* known m4ri weakness: in this mode differences right of the last column,
 * inside the last word of a row, are counted in mc_loose_hits, not reported */
extern int mc_loose; extern uint64_t mc_loose_hits;
Mat *pm_read(const PM *p);   /* raw read of the backing words (no library accessor) */

/* -------------------------------------------------------- sliced matrices */
typedef struct { mzd_slice_t *m, *par; const Fld *F; int r, c, pr, ro, co, depth; word **snap; int pw; int lib; } SM;
SM  *sm_new(const Fld *F, const Mat *A, int place);
SM  *sm_wrap(const Fld *F, mzd_slice_t *m, int r, int c);
void sm_check(SM *p, const Mat *exp, const char *what);
void sm_free(SM *p);
void sm_fill(SM *p, const Mat *A);
Mat *sm_read(const SM *p);

/* ------------------------------------------------- GF(2) matrices (mzd_t) */
typedef struct { int r, c; uint8_t *v; } BMat;
#define BAT(M, i, j) ((M)->v[(size_t)(i) * (M)->c + (j)])

/* shapes */
int  edges(int n, int w, int *out);    /* <= 24 indices below n around 0, w, 2w, 4w, n/2 and n */
int  cols_small(const Fld *F, int *out, int maxwords);  /* word-boundary column counts */

int  fld_vals(const Fld *F, E *out);   /* all elements (q<=16) or a covering set, <= 64 */

/* properties */
typedef struct { const char *id; void (*run)(void); } Prop;
#define PROPERTY(ID) static void mc_run_##ID(void);                                   \
  __attribute__((constructor)) static void mc_reg_##ID(void) { mc_register(#ID, mc_run_##ID); } \
  static void mc_run_##ID(void)
void mc_register(const char *id, void (*run)(void));
#endif

#define _GNU_SOURCE
#include <sys/prctl.h>
#include "mc.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>
#include <fcntl.h>

/* ======================================================= allocation hooks */
volatile long mc_live_blocks = 0, mc_alloc_count = 0, mc_alloc_fail_at = 0;
#ifdef MC_ASAN
const int mc_have_alloc_hooks = 0;
#else
const int mc_have_alloc_hooks = 1;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
/* libm4ri's djb.c does not check its own malloc/realloc calls (see
 * known_findings.txt); they are told apart here and only made to fail on request */
static volatile int in_djb;
volatile int mc_djb_may_fail = 0, mc_djb_spared = 0;
static int alloc_fault(void) {
  mc_alloc_count++;
  return mc_alloc_fail_at > 0 && --mc_alloc_fail_at == 0;
}
static int alloc_fault_raw(void) {
  if (!alloc_fault()) return 0;
  if (in_djb && !mc_djb_may_fail) { mc_djb_spared = 1; return 0; }
  return 1;
}
#ifdef MC_FENCE
/* every block of the process in pages of its own, ending at an inaccessible
 * page; released blocks become inaccessible. Unlike compile-time
 * instrumentation this sees what libm4ri does with the arguments it is given. */
#define FPG 4096ul
#define FNC 512                      /* size classes, each with a ring of released slots */
static struct { char *end[32]; unsigned h, t; } fq[FNC];
static char *freg, *fbump; static long flive; static size_t fregn = (size_t)1 << 39;
typedef struct { size_t size, data; uint64_t magic; int cls; } FMeta;
static int fenced(const void *p) { return freg && (char *)p >= freg && (char *)p < freg + fregn; }
static FMeta *fmeta(void *p) { return (FMeta *)(((uintptr_t)p & ~(FPG - 1)) - 2 * FPG); }
static void *raw_memalign(size_t al, size_t n) {
  if (!freg) { freg = mmap(NULL, fregn, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (freg == MAP_FAILED) abort(); fbump = freg; }
  size_t u = (n + 15) & ~15ul; if (!u) u = 16; if (al > 64) u = (u + al - 1) & ~(al - 1); size_t d = (u + FPG - 1) & ~(FPG - 1), c = d / FPG;
  if (n > (size_t)1 << 36 || al > FPG || flive > 9000) return __libc_memalign(al, n); /* the kernel limits the number of mappings */
  int cls = c; size_t cap = c; if (c >= 64) { int sh = 60 - __builtin_clzl(c); cap = ((c - 1) >> sh) + 1; cls = 64 + sh * 16 + cap; cap <<= sh; }
  char *end; int q = c < 64 ? 16 : 2;
  if (fq[cls].t - fq[cls].h >= q) end = fq[cls].end[fq[cls].h++ % 32];
  else { end = fbump + (cap + 3) * FPG; if (end > freg + fregn) return __libc_memalign(al, n); fbump = end; }
  char *b = end - FPG - d;
  if (mprotect(b - 2 * FPG, FPG, PROT_READ | PROT_WRITE) || mprotect(b, d, PROT_READ | PROT_WRITE)) return __libc_memalign(al, n); /* no more mappings */
  FMeta *m = (FMeta *)(b - 2 * FPG); m->size = n; m->data = d; m->magic = 0xfe9ce; m->cls = cls;
  flive++; char *p = b + d - u; memset(p + n, 0xc3, u - n); return p;
}
static void *raw_malloc(size_t n) { return raw_memalign(16, n); }
static void *raw_calloc(size_t a, size_t b) { if (b && a > ((size_t)1 << 40) / b) return NULL; void *p = raw_memalign(16, a * b); if (p) memset(p, 0, a * b); return p; }
static size_t raw_size(void *p) { return fenced(p) ? fmeta(p)->size : malloc_usable_size(p); }
static void raw_free(void *p) {
  if (!fenced(p)) { __libc_free(p); return; }
  FMeta *m = fmeta(p); if (m->magic != 0xfe9ce) { static const char e[] = "block released twice or never allocated\n"; write(2, e, sizeof e - 1); abort(); }
  for (unsigned char *c = (unsigned char *)p + m->size; (uintptr_t)c & 15; c++) if (*c != 0xc3) { static const char e[] = "written past the end of a block\n"; write(2, e, sizeof e - 1); abort(); }
  flive--; size_t d = m->data; int cls = m->cls; char *b = (char *)m; m->magic = 0; int keep = fq[cls].t - fq[cls].h < 32; if (d >= 64 * FPG || !keep) madvise(b, d + 2 * FPG, MADV_DONTNEED); mprotect(b, d + 2 * FPG, PROT_NONE);
  if (keep) fq[cls].end[fq[cls].t++ % 32] = b + d + 3 * FPG;
}
static void *raw_realloc(void *p, size_t n) { void *q = raw_malloc(n); if (q && p) { size_t o = raw_size(p); memcpy(q, p, o < n ? o : n); raw_free(p); } return q; }
#else
#define raw_malloc __libc_malloc
#define raw_calloc __libc_calloc
#define raw_realloc __libc_realloc
#define raw_memalign __libc_memalign
#define raw_free __libc_free
#define raw_size malloc_usable_size
#endif
/* released memory changes at once: whoever still looks at it sees junk */
volatile int mc_junk_byte = 0xa7, mc_free_byte = 0x5b;
/* fresh memory is never conveniently zero: whoever relies on it gets junk */
static void *junk(void *p, size_t n) {
  if (p) { mc_live_blocks++; memset(p, mc_junk_byte, n < (1u << 20) ? n : (1u << 20)); }
  return p;
}
void *malloc(size_t n) { if (alloc_fault_raw()) { errno = ENOMEM; return NULL; } return junk(raw_malloc(n), n); }
void *calloc(size_t a, size_t b) {
  if (alloc_fault()) { errno = ENOMEM; return NULL; }
  void *p = raw_calloc(a, b); if (p) mc_live_blocks++; return p;
}
void *realloc(void *p, size_t n) {
  if (alloc_fault_raw()) { errno = ENOMEM; return NULL; }
  void *q = raw_realloc(p, n); if (q && !p) mc_live_blocks++; return q;
}
void *memalign(size_t al, size_t n) { if (alloc_fault()) { errno = ENOMEM; return NULL; } return junk(raw_memalign(al, n), n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n) {
  if (alloc_fault()) return ENOMEM;
  void *p = junk(raw_memalign(al, n), n); if (!p) return ENOMEM; *out = p; return 0;
}
void free(void *p) { if (p) { size_t n = raw_size(p); memset(p, mc_free_byte, n < 4096 ? n : 4096); mc_live_blocks--; raw_free(p); } }
#endif
#ifdef MC_ASAN
volatile int mc_djb_may_fail = 0, mc_djb_spared = 0, mc_junk_byte = 0, mc_free_byte = 0; static volatile int in_djb;
#endif
djb_t *__real_djb_compile(mzd_t *A);
djb_t *__wrap_djb_compile(mzd_t *A) { in_djb = 1; djb_t *r = __real_djb_compile(A); in_djb = 0; return r; }

/* m4ri keeps freed blocks in a cache; bypass it so that every matrix is a
 * real heap block (linked with --wrap). */
void *__wrap_m4ri_mmc_malloc(size_t n) { return m4ri_mm_malloc(n); }
void __wrap_m4ri_mmc_free(void *p, size_t n) { (void)n; m4ri_mm_free(p); }

/* =========================================================== shared state */
typedef struct {
  _Atomic uint64_t cases, trans, states, traces;
  _Atomic uint64_t cur_idx;
  _Atomic uint64_t case_start_ms;
  char label[512], sub[256];
  int failed; uint64_t fail_idx; char fail_label[512], fail_sub[256], fail_msg[1024];
  char sample[3][512]; int nsample;
  _Atomic int busy;
} Worker;
#define MAXW 32
#define MAXNOTE 40
typedef struct { char name[48]; _Atomic uint64_t v; } Note;
typedef struct { _Atomic uint64_t next; Worker w[MAXW]; _Atomic int nnote; _Atomic int lock; Note note[MAXNOTE]; } Shared;
static Shared *sh; static Worker *me;
static uint64_t my_next, idx_now; static int running;
static int64_t only = -1, upto = -1;
int mc_tier = 1, mc_vary = 0;   /* mc_vary: which choice of minimal polynomials and of pseudo-random contents */

static uint64_t now_ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }

/* arena */
static char *ar; static size_t ar_pos, ar_hi, ar_cap = (size_t)12 << 30;
void *ar_alloc(size_t n) {
  n = (n + 63) & ~(size_t)63;
  if (ar_pos + n > ar_cap) mc_fail("harness: arena exhausted");
  void *p = ar + ar_pos; ar_pos += n; if (ar_pos > ar_hi) ar_hi = ar_pos;
  return p;
}
size_t ar_mark(void) { return ar_pos; }
void ar_release(size_t m) { ar_pos = m; }
void *ar_zalloc(size_t n) { void *p = ar_alloc(n); memset(p, 0, n); return p; }
static void ar_reset(void) {
  if (ar_hi > ((size_t)64 << 20)) { madvise(ar, ar_hi, MADV_DONTNEED); ar_hi = 0; }
  ar_pos = 0;
}

static void end_case(void) { if (running) { running = 0; if (getenv("MC_SLOW") && now_ms() - me->case_start_ms >= (uint64_t)atol(getenv("MC_SLOW"))) fprintf(stderr, "%6llu ms  %s\n", (unsigned long long)(now_ms() - me->case_start_ms), me->label); ar_reset(); me->sub[0] = 0; me->busy = 0; } }
int mc_claim(void) {
  end_case();
  uint64_t i = idx_now++;
  if (only >= 0) { if ((int64_t)i != only) return 0; }
  else if (upto >= 0 && (int64_t)i > upto) return 0;
  else if (i != my_next) return 0;
  if (only < 0) my_next = atomic_fetch_add(&sh->next, 1);
  me->cur_idx = i; me->case_start_ms = now_ms(); running = 1; me->busy = 1;
  me->cases++; me->traces++;
  return 1;
}
int mc_label(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(me->label, sizeof me->label, fmt, ap); va_end(ap);
  if (me->nsample < 3) { uint64_t n = me->cases; if (n == 1 || n == 40 || n == 1500) strcpy(me->sample[me->nsample++], me->label); }
  return 1;
}
void mc_sub(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(me->sub, sizeof me->sub, fmt, ap); va_end(ap); }
void mc_trans(uint64_t n) { me->trans += n; }
void mc_states(uint64_t n) { me->states += n; }
void mc_traces(uint64_t n) { me->traces += n; }
void mc_note(const char *name, uint64_t v) {
  int n = sh->nnote;
  for (int i = 0; i < n; i++) if (!strcmp(sh->note[i].name, name)) { sh->note[i].v += v; return; }
  while (atomic_exchange(&sh->lock, 1)) ;
  n = sh->nnote; int i;
  for (i = 0; i < n; i++) if (!strcmp(sh->note[i].name, name)) break;
  if (i == n && n < MAXNOTE) { snprintf(sh->note[n].name, 48, "%s", name); sh->nnote = n + 1; }
  if (i < MAXNOTE) sh->note[i].v += v;
  atomic_store(&sh->lock, 0);
}
void mc_fail(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (!me->failed) {
    vsnprintf(me->fail_msg, sizeof me->fail_msg, fmt, ap);
    strcpy(me->fail_label, me->label); strcpy(me->fail_sub, me->sub); me->fail_idx = me->cur_idx; me->failed = 1;
  }
  va_end(ap);
  _exit(3);
}

/* ================================================================ refusal */
jmp_buf mc_die_jmp; volatile int mc_die_armed = 0; char mc_die_msg[512];
void __wrap_m4ri_die(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(mc_die_msg, sizeof mc_die_msg, fmt, ap); va_end(ap);
  mc_alloc_fail_at = 0; in_djb = 0;
  if (mc_die_armed) { mc_die_armed = 0; longjmp(mc_die_jmp, 1); }
  mc_fail("library called m4ri_die on valid input: %s", mc_die_msg);
}
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *fn) {
  snprintf(mc_die_msg, sizeof mc_die_msg, "assert(%s)", a);
  (void)f; (void)l;
  mc_alloc_fail_at = 0; in_djb = 0;
  if (mc_die_armed) { mc_die_armed = 0; longjmp(mc_die_jmp, 1); }
  mc_fail("assertion %s failed in %s on valid input", a, fn);
}

long (*mc_random_hook)(void) = NULL;
static uint64_t rnd_state = 88172645463325252ull;
long __wrap_random(void) {
  if (mc_random_hook) return mc_random_hook();
  rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17;
  return (long)(rnd_state & 0x7fffffff);
}

/* ============================================================ field model */
uint32_t *mdl_irr[17]; int mdl_nirr[17];
uint32_t mdl_clmul_mod(uint32_t a, uint32_t b, uint32_t poly, int k) {
  uint32_t r = 0;
  for (int i = k - 1; i >= 0; i--) {
    r <<= 1; if (r >> k & 1) r ^= poly;
    if (b >> i & 1) r ^= a;
  }
  return r;
}
static uint32_t clmul(uint32_t a, uint32_t b) { uint32_t r = 0; while (b) { if (b & 1) r ^= a; a <<= 1; b >>= 1; } return r; }
void mdl_init(void) {
  /* sieve: every product of two polynomials of positive degree is reducible */
  uint8_t *comp = calloc(1 << 17, 1);
  for (uint32_t p = 2; p < 512; p++) if (!comp[p]) {
    int dp = 31 - __builtin_clz(p);
    for (uint32_t m = 2; m < (1u << (17 - dp)); m++) { uint32_t x = clmul(p, m); if (x < (1u << 17)) comp[x] = 1; }
  }
  for (int k = 1; k <= 16; k++) {
    mdl_irr[k] = malloc(sizeof(uint32_t) << k); mdl_nirr[k] = 0;
    for (uint32_t p = 1u << k; p < 2u << k; p++) if (!comp[p]) mdl_irr[k][mdl_nirr[k]++] = p;
  }
  free(comp);
}
static Fld *fcache[17][4096];
Fld *field(int k, int idx) {
  if (idx < 0) idx += mdl_nirr[k];
  idx = (idx + mc_vary * (mdl_nirr[k] <= 30 ? 1 : mdl_nirr[k] * 5 / 13 | 1)) % mdl_nirr[k];
  if (fcache[k][idx]) return fcache[k][idx];
  Fld *F = calloc(1, sizeof *F);
  F->k = k; F->q = 1 << k; F->idx = idx; F->poly = mdl_irr[k][idx];
  F->w = k == 2 ? 2 : k <= 4 ? 4 : k <= 8 ? 8 : 16; F->epw = 64 / F->w;
  F->lg = malloc(sizeof(uint32_t) * F->q); F->ex = calloc((size_t)F->q * 4, sizeof(E));
  for (uint32_t g = 1; g < (uint32_t)F->q; g++) {   /* first generator by trial */
    uint32_t x = 1; int n = 0;
    do { F->ex[n] = x; F->lg[x] = n; n++; x = mdl_clmul_mod(x, g, F->poly, k); } while (x != 1 && n < F->q);
    if (n == F->q - 1) break;
  }
  for (int i = 0; i < F->q - 1; i++) F->ex[i + F->q - 1] = F->ex[i];
  for (int i = 2 * F->q - 2; i < 4 * F->q; i++) F->ex[i] = 0;
  F->lg[0] = 2 * F->q - 2;
  F->ff = gf2e_init(F->poly);
  return fcache[k][idx] = F;
}
E fe_inv(const Fld *F, E a) { return a == 0 ? 0 : F->ex[F->q - 1 - F->lg[a]]; }

/* =========================================================== matrix model */
Mat *mat_new(int r, int c) { Mat *M = ar_alloc(sizeof *M); M->r = r; M->c = c; M->v = ar_zalloc((size_t)r * c * sizeof(E) + 2); return M; }
Mat *mat_dup(const Mat *A) { Mat *M = ar_alloc(sizeof *M); M->r = A->r; M->c = A->c; size_t n = (size_t)A->r * A->c * sizeof(E); M->v = ar_alloc(n + 2); memcpy(M->v, A->v, n); return M; }
uint64_t mc_hash(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull) * 0xC2B2AE3D27D4EB4Full ^ (c + 77) * 0x165667B19E3779F9ull ^ (d + 5 + (uint64_t)mc_vary * 1000003) * 0xD6E8FEB86659FD93ull;
  x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32; return x;
}
const char *pat_name[NPAT] = {"zero", "ident", "allmax", "expo", "dense", "sparse", "binary", "dense2", "topbit", "lastcol", "nonzero", "ramp"};
Mat *mat_pat(const Fld *F, int r, int c, int pat) {
  Mat *M = mat_new(r, c); int q = F->q;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
    uint64_t h; E x = 0;
    switch (pat) {
    case 0: break;
    case 1: x = i == j; break;
    case 2: x = q - 1; break;
    case 3: x = F->ex[((uint64_t)i * 7 + j * 3 + (uint64_t)i * j * 5 + (uint64_t)i * i) % (q - 1)]; if ((i + 2 * j) % 11 == 3) x = 0; break;
    case 4: x = mc_hash(i, j, pat, F->k) & (q - 1); break;
    case 5: h = mc_hash(i, j, pat, F->k); x = (h >> 40) % 4 ? 0 : h & (q - 1); break;
    case 6: x = mc_hash(i, j, pat, F->k) & 1; break;
    case 7: x = mc_hash(i, j, pat, F->poly) & (q - 1); break;
    case 8: x = q >> 1; break;
    case 9: x = j == c - 1 ? (E)(1 + mc_hash(i, j, pat, 1) % (q - 1)) : 0; break;
    case 10: x = 1 + mc_hash(i, j, pat, F->poly) % (q - 1); break;
    case 11: x = (i * c + j) & (q - 1); break;
    case 12: x = i == r / 2 ? mc_hash(i, j, pat, F->k) & (q - 1) : 0; break;
    case 13: x = j == c / 2 ? mc_hash(i, j, pat, F->k) & (q - 1) : 0; break;
    case 14: x = i && j && i < r - 1 && j < c - 1 ? mc_hash(i, j, pat, F->k) & (q - 1) : 0; break;
    case 15: x = mc_hash(i, j, pat, F->k) & (q - 1) & ~(E)((1u << (F->k / 2)) - 1); break;
    case 16: x = mc_hash(i, j, pat, F->k) & ((1u << ((F->k + 1) / 2)) - 1); break;
    case 17: x = mc_hash(0, j, pat, F->k) & (q - 1); break;
    case 18: x = mc_hash(i, 0, pat, F->k) & (q - 1); break;
    case 19: x = i == j ? (E)(1 + mc_hash(i, j, pat, F->k) % (q - 1)) : 0; break;
    case 20: x = i <= j ? (E)(mc_hash(i, j, pat, F->k) & (q - 1)) : 0; break;
    case 21: x = i == (j * 5 + 1) % (r > c ? r : c); break;
    case 22: x = i == j ? 2 : 0; break;
    case 23: x = (i / 8 + j / 16) % 2 ? mc_hash(i, j, pat, F->k) & (q - 1) : 0; break;
    default: { uint64_t t = pat - P_BIT; x = t / F->k == (uint64_t)i * c + j ? 1u << t % F->k : 0; } break; /* one bit of one element */
    }
    AT(M, i, j) = x;
  }
  return M;
}
Mat *mat_quad(const Fld *F, int r, int c, int hr, int hc, int code) {
  Mat *M = mat_new(r, c); int q = F->q;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
    int b = code >> 2 * ((i >= hr) * 2 + (j >= hc)); E x = 0;
    if (b & 1) x ^= mc_hash(i % hr, j % hc, 31, F->k) & (q - 1);
    if (b & 2) x ^= mc_hash(i % hr, j % hc, 37, F->poly) & (q - 1);
    AT(M, i, j) = x;
  }
  return M;
}
Mat *mat_mul(const Fld *F, const Mat *A, const Mat *B) {
  Mat *C = mat_new(A->r, B->c);
  for (int i = 0; i < A->r; i++) for (int k = 0; k < A->c; k++) {
    E a = AT(A, i, k); if (!a) continue;
    const E *ex = F->ex + F->lg[a], *b = &AT(B, k, 0); E *c = &AT(C, i, 0); const uint32_t *lg = F->lg;
    for (int j = 0; j < B->c; j++) c[j] ^= ex[lg[b[j]]];
  }
  return C;
}
Mat *mat_add(const Mat *A, const Mat *B) { Mat *C = mat_dup(A); for (size_t i = 0; i < (size_t)A->r * A->c; i++) C->v[i] ^= B->v[i]; return C; }
Mat *mat_sub(const Mat *A, int lr, int lc, int hr, int hc) { Mat *C = mat_new(hr - lr, hc - lc); for (int i = lr; i < hr; i++) for (int j = lc; j < hc; j++) AT(C, i - lr, j - lc) = AT(A, i, j); return C; }
Mat *mat_scale(const Fld *F, E a, const Mat *A) { Mat *C = mat_dup(A); for (size_t i = 0; i < (size_t)A->r * A->c; i++) C->v[i] = fe_mul(F, a, C->v[i]); return C; }
Mat *mat_id(int n) { Mat *C = mat_new(n, n); for (int i = 0; i < n; i++) AT(C, i, i) = 1; return C; }
int mat_eq(const Mat *A, const Mat *B) { return A->r == B->r && A->c == B->c && !memcmp(A->v, B->v, (size_t)A->r * A->c * sizeof(E)); }
int mat_iszero(const Mat *A) { for (size_t i = 0; i < (size_t)A->r * A->c; i++) if (A->v[i]) return 0; return 1; }
void mat_rowswap(Mat *A, int i, int j) { for (int c = 0; c < A->c; c++) { E t = AT(A, i, c); AT(A, i, c) = AT(A, j, c); AT(A, j, c) = t; } }
void mat_colswap(Mat *A, int i, int j) { for (int r = 0; r < A->r; r++) { E t = AT(A, r, i); AT(A, r, i) = AT(A, r, j); AT(A, r, j) = t; } }
int mat_rref(const Fld *F, Mat *A) {
  int rk = 0;
  for (int c = 0; c < A->c && rk < A->r; c++) {
    int p = rk; while (p < A->r && !AT(A, p, c)) p++;
    if (p == A->r) continue;
    if (p != rk) mat_rowswap(A, p, rk);
    E iv = fe_inv(F, AT(A, rk, c));
    if (iv != 1) for (int j = c; j < A->c; j++) AT(A, rk, j) = fe_mul(F, iv, AT(A, rk, j));
    for (int i = 0; i < A->r; i++) {
      E x = AT(A, i, c); if (i == rk || !x) continue;
      const E *ex = F->ex + F->lg[x]; const E *s = &AT(A, rk, 0); E *d = &AT(A, i, 0);
      for (int j = c; j < A->c; j++) d[j] ^= ex[F->lg[s[j]]];
    }
    rk++;
  }
  return rk;
}
int mat_is_ref(const Mat *A, int rank) {   /* echelon with leading ones, zero rows last */
  int last = -1;
  for (int i = 0; i < A->r; i++) {
    int l = 0; while (l < A->c && !AT(A, i, l)) l++;
    if (i >= rank) { if (l < A->c) return 0; continue; }
    if (l >= A->c || l <= last || AT(A, i, l) != 1) return 0;
    last = l;
  }
  return 1;
}
int piv_family(int fam, int n, int r, int *piv) {
  if (r > n) r = n;
  int k = 0;
  switch (fam) {
  case 0: for (; k < r; k++) piv[k] = k; break;                       /* leading */
  case 1: for (; k < r; k++) piv[k] = n - r + k; break;               /* trailing */
  case 2: for (int c = 1; c < n && k < r; c += 2) piv[k++] = c; break;  /* every other */
  case 3: for (int c = 0; c < n && k < r; c++) if (c % 5 == 0 || c % 5 == 3) piv[k++] = c; break;
  case 4: for (int c = 0; c < n && k < r; c++) if (c % 64 >= 60 || c % 64 < 3) piv[k++] = c; break; /* around word edges */
  case 5: for (int c = n / 3; c < n && k < r; c++) if (mc_hash(c, n, 3, 4) & 1) piv[k++] = c; break;
  case 6: for (int c = 0; c < n && k < r; c++) if (c % 7 != 2 && c % 64 != 63) piv[k++] = c; break; /* nearly all */
  case 7: { int skip = n - r; for (int c = 0; c < n && k < r; c++) if (c >= n / 4 && skip > 0) skip--; else piv[k++] = c; break; } /* one gap after the first quarter */
  }
  return k;
}
Mat *mat_rank(const Fld *F, int m, int n, int r, const int *piv, int pat, int perm) {
  if (r > m) r = m;
  Mat *Ech = mat_new(r, n), *P = mat_pat(F, r, n, pat), *L = mat_new(m, r), *Q = mat_pat(F, m, r, 7);
  for (int i = 0; i < r; i++) { AT(Ech, i, piv[i]) = 1 + mc_hash(i, pat, 5, 6) % (F->q - 1); for (int j = piv[i] + 1; j < n; j++) AT(Ech, i, j) = AT(P, i, j); }
  for (int i = 0; i < m; i++) for (int j = 0; j < r && j <= i; j++) AT(L, i, j) = i == j ? 1 : AT(Q, i, j);
  Mat *A = mat_mul(F, L, Ech);
  if (perm == 1) for (int i = 0; i < m / 2; i++) mat_rowswap(A, i, m - 1 - i);            /* reversed */
  if (perm == 2) for (int i = 0; i < m; i++) mat_rowswap(A, i, (int)(mc_hash(i, m, n, 9) % m)); /* mixed */
  return A;
}
void mat_show(const Mat *A, char *buf, size_t n) {
  size_t p = 0; p += snprintf(buf, n, "%dx%d[", A->r, A->c);
  for (int i = 0; i < A->r && p + 12 < n; i++) { for (int j = 0; j < A->c && p + 12 < n; j++) p += snprintf(buf + p, n - p, "%x ", AT(A, i, j)); p += snprintf(buf + p, n - p, "; "); }
  snprintf(buf + p, n - p, "]");
}

/* ================================================================ bridges */
const char *place_name[NPLACE] = {"own", "win-mid", "win-left", "win-end"};
static void place_geom(int place, int epw, int r, int c, int *pr, int *pc, int *ro, int *co) {
  switch (place) {
  default:     *pr = r; *pc = c; *ro = 0; *co = 0; break;
  case WINMID: *pr = r + 3; *pc = c + epw + 2; *ro = 1; *co = epw; break;   /* both neighbours, shared last word */
  case WINLEFT:*pr = r + 1; *pc = c + epw + 1; *ro = 0; *co = 0; break;     /* whole extra word to the right */
  case WINEND: *pr = r + 2; *pc = c + 2 * epw; *ro = 2; *co = 2 * epw; break; /* flush with the parent's end */
  }
}
static void pm_put(PM *p, const Mat *A, int clear) {
  const Fld *F = p->F; int pc = p->par->ncols;
  for (int i = 0; i < p->pr; i++) {
    word *row = p->par->x->rows[i]; if (clear) memset(row, 0, p->pw * sizeof(word));
    for (int j = 0; j < pc; j++) {
      int ii = i - p->ro, jj = j - p->co; word v;
      if (ii >= 0 && ii < A->r && jj >= 0 && jj < A->c) v = AT(A, ii, jj);
      else v = mc_hash(i, j, 99, F->k) & (F->q - 1);      /* neighbours: valid elements */
      row[j / F->epw] |= v << (j % F->epw * F->w);
    }
  }
  for (int i = 0; i < p->pr; i++) memcpy(p->snap + (size_t)i * p->pw, p->par->x->rows[i], p->pw * sizeof(word));
}
void pm_fill(PM *p, const Mat *A) { CHECK(A->r == p->r && A->c == p->c, "harness: pm_fill"); pm_put(p, A, 1); }
PM *pm_new(const Fld *F, const Mat *A, int place) {
  PM *p = ar_zalloc(sizeof *p); int pc;
  p->F = F; p->r = A->r; p->c = A->c;
  place_geom(place, F->epw, A->r, A->c, &p->pr, &pc, &p->ro, &p->co);
  p->par = mzed_init(F->ff, p->pr, pc);
  p->pw = p->par->x->width;
  p->snap = ar_alloc((size_t)p->pr * p->pw * sizeof(word) + 8);
  CHECK(p->par->ncols == pc, "mzed_init: wrong shape");
  pm_put(p, A, 0);
  p->m = place == OWN ? p->par : mzed_init_window(p->par, p->ro, p->co, p->ro + A->r, p->co + A->c);
  return p;
}
PM *pm_wrap(const Fld *F, mzed_t *m, int r, int c) {
  CHECK(m != NULL, "library returned NULL where a %dx%d matrix was due", r, c);
  CHECK(m->nrows == r && m->ncols == c, "returned matrix is %dx%d, expected %dx%d", m->nrows, m->ncols, r, c);
  CHECK(m->x->nrows == r && m->x->ncols == c * F->w, "returned storage is %dx%d bits", m->x->nrows, m->x->ncols);
  CHECK(m->finite_field == F->ff, "returned matrix has the wrong field");
  PM *p = ar_zalloc(sizeof *p);
  p->F = F; p->r = r; p->c = c; p->pr = r; p->m = p->par = m; p->pw = m->x->width; p->lib = 1;
  p->snap = ar_zalloc((size_t)r * p->pw * sizeof(word) + 8);
  return p;
}
static void clear_bits(word *e, int lo, int hi) {
  for (int b = lo / 64; b * 64 < hi; b++) {
    word m = ~0ull; if (b * 64 < lo) m &= ~0ull << (lo - b * 64); if (hi - b * 64 < 64) m &= (1ull << (hi - b * 64)) - 1;
    e[b] &= ~m;
  }
}
int mc_loose = 0; uint64_t mc_loose_hits = 0;
void pm_check(PM *p, const Mat *exp, const char *what) {
  const Fld *F = p->F; mc_states(1);
  CHECK(exp->r == p->r && exp->c == p->c, "harness: shape mismatch in pm_check(%s)", what);
  CHECK(p->m->nrows == p->r && p->m->ncols == p->c && p->m->finite_field == F->ff && p->m->w == F->w, "%s: header changed", what);
  word *e = ar_alloc((size_t)p->pw * sizeof(word));
  size_t mark = ar_pos;
  for (int i = 0; i < p->pr; i++) {
    memcpy(e, p->snap + (size_t)i * p->pw, p->pw * sizeof(word));
    int ii = i - p->ro;
    if (ii >= 0 && ii < p->r && p->c > 0) {
      clear_bits(e, p->co * F->w, (p->co + p->c) * F->w);
      const E *a = &AT(exp, ii, 0); const int ls = __builtin_ctz(F->epw), lw = __builtin_ctz(F->w), em = F->epw - 1;
      for (int jj = 0; jj < p->c; jj++) { int j = jj + p->co; e[j >> ls] |= (word)a[jj] << ((j & em) << lw); }
    }
    const word *got = p->par->x->rows[i];
    for (int b = 0; b < p->pw; b++) if (got[b] != e[b]) {
      word d = got[b] ^ e[b];
      if (mc_loose && ii >= 0 && ii < p->r && b == (p->co + p->c - 1) / F->epw) { int in = ((p->co + p->c - 1) % F->epw + 1) * F->w; if (in < 64 && !(d & ((1ull << in) - 1))) { mc_loose_hits++; continue; } } int bit = __builtin_ctzll(d), j = b * F->epw + bit / F->w - p->co;
      if (ii >= 0 && ii < p->r && j >= 0 && j < p->c)
        mc_fail("%s: element (%d,%d) is 0x%llx, must be 0x%x", what, ii, j,
                (unsigned long long)(got[b] >> (bit / F->w * F->w) & ((1ull << F->w) - 1)), AT(exp, ii, j));
      mc_fail("%s: bits outside the matrix changed (parent row %d word %d xor 0x%llx)", what, i, b, (unsigned long long)d);
    }
  }
  ar_pos = mark;
}
Mat *pm_read(const PM *p) {
  const Fld *F = p->F; Mat *M = mat_new(p->r, p->c);
  for (int i = 0; i < p->r; i++) { const word *row = p->par->x->rows[i + p->ro];
    for (int j = 0; j < p->c; j++) { int jj = j + p->co; word v = row[jj / F->epw] >> (jj % F->epw * F->w) & ((1ull << F->w) - 1);
      CHECK(v < (word)F->q, "element (%d,%d) holds 0x%llx: not an element of the field", i, j, (unsigned long long)v);
      AT(M, i, j) = v; } }
  return M;
}
void pm_free(PM *p) { if (p->m != p->par) mzed_free_window(p->m); mzed_free(p->par); p->m = p->par = NULL; }

static void sm_put(SM *p, const Mat *A, int clear) {
  const Fld *F = p->F; int pc = p->par->ncols;
  if (clear) for (int e = 0; e < p->depth; e++) for (int i = 0; i < p->pr; i++) memset(p->par->x[e]->rows[i], 0, p->pw * sizeof(word));
  for (int i = 0; i < p->pr; i++) for (int j = 0; j < pc; j++) {
    int ii = i - p->ro, jj = j - p->co; word v;
    if (ii >= 0 && ii < A->r && jj >= 0 && jj < A->c) v = AT(A, ii, jj); else v = mc_hash(i, j, 98, F->k) & (F->q - 1);
    for (int e = 0; e < p->depth; e++) p->par->x[e]->rows[i][j / 64] |= (v >> e & 1) << (j % 64);
  }
  for (int e = 0; e < p->depth; e++)
    for (int i = 0; i < p->pr; i++) memcpy(p->snap[e] + (size_t)i * p->pw, p->par->x[e]->rows[i], p->pw * sizeof(word));
}
void sm_fill(SM *p, const Mat *A) { CHECK(A->r == p->r && A->c == p->c, "harness: sm_fill"); sm_put(p, A, 1); }
SM *sm_new(const Fld *F, const Mat *A, int place) {
  SM *p = ar_zalloc(sizeof *p); int pc;
  p->F = F; p->r = A->r; p->c = A->c; p->depth = F->k;
  place_geom(place, 64, A->r, A->c, &p->pr, &pc, &p->ro, &p->co);
  p->par = mzd_slice_init(F->ff, p->pr, pc);
  p->pw = p->par->x[0]->width;
  CHECK(p->par->ncols == pc, "mzd_slice_init: wrong shape");
  p->snap = ar_alloc(sizeof(word *) * p->depth);
  for (int e = 0; e < p->depth; e++) p->snap[e] = ar_alloc((size_t)p->pr * p->pw * sizeof(word) + 8);
  sm_put(p, A, 0);
  p->m = place == OWN ? p->par : mzd_slice_init_window(p->par, p->ro, p->co, p->ro + A->r, p->co + A->c);
  return p;
}
Mat *sm_read(const SM *p) {
  Mat *A = mat_new(p->r, p->c);
  for (int e = 0; e < p->depth; e++) for (int i = 0; i < p->r; i++) for (int j = 0; j < p->c; j++) { int jj = j + p->co; AT(A, i, j) |= (p->par->x[e]->rows[i + p->ro][jj / 64] >> jj % 64 & 1) << e; }
  return A;
}
SM *sm_wrap(const Fld *F, mzd_slice_t *m, int r, int c) {
  CHECK(m != NULL, "library returned NULL where a %dx%d sliced matrix was due", r, c);
  CHECK(m->nrows == r && m->ncols == c, "returned sliced matrix is %dx%d, expected %dx%d", m->nrows, m->ncols, r, c);
  CHECK((int)m->depth == F->k, "returned depth %u, expected %d", m->depth, F->k);
  CHECK(m->finite_field == F->ff, "returned sliced matrix has the wrong field");
  SM *p = ar_zalloc(sizeof *p);
  p->F = F; p->r = r; p->c = c; p->pr = r; p->depth = F->k; p->m = p->par = m; p->pw = m->x[0]->width; p->lib = 1;
  p->snap = ar_alloc(sizeof(word *) * p->depth);
  for (int e = 0; e < p->depth; e++) {
    CHECK(m->x[e]->nrows == r && m->x[e]->ncols == c, "slice %d is %dx%d", e, m->x[e]->nrows, m->x[e]->ncols);
    p->snap[e] = ar_zalloc((size_t)r * p->pw * sizeof(word) + 8);
  }
  return p;
}
void sm_check(SM *p, const Mat *exp, const char *what) {
  mc_states(1);
  CHECK(exp->r == p->r && exp->c == p->c, "harness: shape mismatch in sm_check(%s)", what);
  CHECK(p->m->nrows == p->r && p->m->ncols == p->c && p->m->finite_field == p->F->ff && (int)p->m->depth == p->depth, "%s: header changed", what);
  size_t mark = ar_pos;
  word *ex = ar_alloc((size_t)p->pw * p->depth * sizeof(word));
  for (int i = 0; i < p->pr; i++) {
    int ii = i - p->ro;
    for (int e = 0; e < p->depth; e++) memcpy(ex + (size_t)e * p->pw, p->snap[e] + (size_t)i * p->pw, p->pw * sizeof(word));
    if (ii >= 0 && ii < p->r && p->c > 0) {
      for (int e = 0; e < p->depth; e++) clear_bits(ex + (size_t)e * p->pw, p->co, p->co + p->c);
      for (int jj = 0; jj < p->c; jj++) {
        int j = jj + p->co; unsigned v = AT(exp, ii, jj); word bit = 1ull << (j % 64), *b = ex + j / 64;
        while (v) { b[(size_t)__builtin_ctz(v) * p->pw] |= bit; v &= v - 1; }
      }
    }
    for (int e = 0; e < p->depth; e++) { const word *got = p->par->x[e]->rows[i];
      for (int b = 0; b < p->pw; b++) if (got[b] != ex[(size_t)e * p->pw + b]) {
        word d = got[b] ^ ex[(size_t)e * p->pw + b];
        if (mc_loose && ii >= 0 && ii < p->r && b == (p->co + p->c - 1) / 64) { int in = (p->co + p->c - 1) % 64 + 1; if (in < 64 && !(d & ((1ull << in) - 1))) { mc_loose_hits++; continue; } } int j = b * 64 + __builtin_ctzll(d) - p->co;
        if (ii >= 0 && ii < p->r && j >= 0 && j < p->c) mc_fail("%s: coefficient %d of element (%d,%d) is wrong; the element must be 0x%x", what, e, ii, j, AT(exp, ii, j));
        mc_fail("%s: bits outside the sliced matrix changed (slice %d parent row %d word %d xor 0x%llx)", what, e, i, b, (unsigned long long)d);
      } }
  }
  ar_pos = mark;
}
void sm_free(SM *p) { if (p->m != p->par) mzd_slice_free_window(p->m); mzd_slice_free(p->par); p->m = p->par = NULL; }

int edges(int n, int w, int *out) {
  int c[] = {0, 1, 2, w - 1, w, w + 1, 2 * w - 1, 2 * w, 4 * w - 1, 4 * w, n / 2, n / 2 + 1, n / w * w - 1, n / w * w, n / w * w - w, n - 4, n - 3, n - 2, n - 1}, m = 0;
  for (int i = 0; i < (int)(sizeof c / sizeof *c); i++) { int dup = c[i] < 0 || c[i] >= n; for (int j = 0; j < m; j++) dup |= out[j] == c[i]; if (!dup) out[m++] = c[i]; }
  return m;
}
int cols_small(const Fld *F, int *out, int maxwords) {
  int n = 0, e = F->epw;
  out[n++] = 1; out[n++] = 2; if (e > 4) out[n++] = 3;
  for (int w = 1; w <= maxwords; w++) { out[n++] = w * e - 1; out[n++] = w * e; out[n++] = w * e + 1; }
  int m = 0; for (int i = 0; i < n; i++) { int dup = 0; for (int j = 0; j < m; j++) if (out[j] == out[i]) dup = 1; if (!dup) out[m++] = out[i]; }
  return m;
}

int fld_vals(const Fld *F, E *out) {
  int n = 0;
  if (F->q <= 16) { for (int i = 0; i < F->q; i++) out[n++] = i; return n; }
  for (int i = 0; i < F->k; i++) out[n++] = 1u << i;
  out[n++] = 0; out[n++] = F->q - 1; out[n++] = 0x5555 & (F->q - 1); out[n++] = 0xaaaa & (F->q - 1); out[n++] = 3; out[n++] = (F->q >> 1) | 1;
  for (int i = 0; i < 5; i++) out[n++] = 1 + mc_hash(i, F->k, 4, 4) % (F->q - 1);
  return n;
}

/* ================================================================= driver */
static Prop props[64]; static int nprops;
void mc_register(const char *id, void (*run)(void)) { props[nprops].id = id; props[nprops++].run = run; }

static void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}
int main(int argc, char **argv) {
  const char *id = NULL, *out = NULL; int jobs = 8; int case_limit = 100;
  prctl(PR_SET_PDEATHSIG, SIGKILL);   /* no orphans when the driver is ended */
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--tier")) mc_tier = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--vary")) mc_vary = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--only")) only = atoll(argv[++i]);
    else if (!strcmp(argv[i], "--to")) upto = atoll(argv[++i]);
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--case-limit")) case_limit = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--list")) { for (int j = 0; j < nprops; j++) puts(props[j].id); return 0; }
    else id = argv[i];
  }
  Prop *P = NULL;
  for (int i = 0; i < nprops; i++) if (id && !strcmp(props[i].id, id)) P = &props[i];
  if (!P || jobs > MAXW) { fprintf(stderr, "usage: mc PROP [--tier T] [--jobs N] [--only I] [--out F]\n"); return 2; }
  if (only >= 0) jobs = 1;
  m4ri_init();
  sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  mdl_init();
  uint64_t t0 = now_ms();
  pid_t pid[MAXW]; int alive = jobs, st[MAXW], done[MAXW] = {0};
  for (int w = 0; w < jobs; w++) {
    if ((pid[w] = fork()) == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL);
      me = &sh->w[w];
      ar = mmap(NULL, ar_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (ar == MAP_FAILED) mc_fail("harness: mmap");
      my_next = only >= 0 ? 0 : atomic_fetch_add(&sh->next, 1);
      P->run(); end_case();
      _exit(0);
    }
    if (pid[w] < 0) { perror("fork"); return 2; }
  }
  int bad = -1; char why[256] = ""; const char *kind = "none";
  while (alive > 0) {
    int s; pid_t p = waitpid(-1, &s, WNOHANG);
    if (p > 0) {
      for (int w = 0; w < jobs; w++) if (pid[w] == p) {
        done[w] = 1; st[w] = s; alive--;
        if (bad < 0 && !(WIFEXITED(s) && WEXITSTATUS(s) == 0)) {
          bad = w;
          if (sh->w[w].failed) { kind = "wrong"; }
          else if (WIFSIGNALED(s)) { kind = WTERMSIG(s) == SIGKILL ? "killed" : "crash"; snprintf(why, sizeof why, "killed by signal %d", WTERMSIG(s)); }
          else { kind = "crash"; snprintf(why, sizeof why, "process ended with status %d", WEXITSTATUS(s)); }
          for (int v = 0; v < jobs; v++) if (!done[v]) kill(pid[v], SIGKILL);
        }
      }
      continue;
    }
    uint64_t t = now_ms();
    for (int w = 0; w < jobs && bad < 0; w++) if (!done[w] && sh->w[w].busy && t > sh->w[w].case_start_ms + (uint64_t)case_limit * 1000) {
      bad = w; kind = "hang"; snprintf(why, sizeof why, "no answer within %d s", case_limit);
      for (int v = 0; v < jobs; v++) if (!done[v]) kill(pid[v], SIGKILL);
    }
    usleep(3000);
  }
  (void)st;
  uint64_t cases = 0, trans = 0, states = 0, traces = 0;
  for (int w = 0; w < jobs; w++) { cases += sh->w[w].cases; trans += sh->w[w].trans; states += sh->w[w].states; traces += sh->w[w].traces; }
  FILE *f = out ? fopen(out, "w") : stdout;
  if (!f) { perror(out); return 2; }
  fprintf(f, "{\"property\": \"%s\", \"tier\": %d, \"cases\": %llu, \"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"wall_ms\": %llu,\n",
          P->id, mc_tier, (unsigned long long)cases, (unsigned long long)states, (unsigned long long)trans, (unsigned long long)traces, (unsigned long long)(now_ms() - t0));
  fprintf(f, " \"notes\": {"); for (int i = 0; i < sh->nnote; i++) { if (i) fprintf(f, ", "); json_str(f, sh->note[i].name); fprintf(f, ": %llu", (unsigned long long)sh->note[i].v); } fprintf(f, "},\n");
  fprintf(f, " \"samples\": ["); int c = 0;
  for (int w = 0; w < jobs; w++) for (int s = 0; s < sh->w[w].nsample && c < 8; s++) { if (c++) fprintf(f, ", "); json_str(f, sh->w[w].sample[s]); }
  fprintf(f, "],\n \"result\": \"%s\"", bad < 0 ? "ok" : kind);
  if (bad >= 0) {
    Worker *W = &sh->w[bad];
    fprintf(f, ", \"index\": %llu, \"case\": ", (unsigned long long)(W->failed ? W->fail_idx : W->cur_idx)); json_str(f, W->failed ? W->fail_label : W->label);
    fprintf(f, ", \"detail\": "); json_str(f, W->failed ? W->fail_sub : W->sub);
    fprintf(f, ", \"message\": "); json_str(f, W->failed ? W->fail_msg : why);
  }
  fprintf(f, "}\n"); if (out) fclose(f);
  return bad < 0 ? 0 : 1;
}

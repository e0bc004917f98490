/* C20: printing shows exactly the elements. Standard output is a memory file
 * that is compared byte for byte with the text the model prints. */
#define _GNU_SOURCE
#include "mc.h"
#include <sys/mman.h>
#include <unistd.h>

static int mem = -1, save = -1;
static void cap_begin(void) {
  if (mem < 0) { mem = memfd_create("out", 0); CHECK(mem >= 0, "harness: no memory file"); save = dup(1); }
  fflush(stdout); CHECK(!ftruncate(mem, 0) && lseek(mem, 0, SEEK_SET) == 0, "harness: memory file"); dup2(mem, 1);
}
static char *cap_end(size_t *n) {
  fflush(stdout); dup2(save, 1); off_t l = lseek(mem, 0, SEEK_END); char *b = ar_alloc(l + 1);
  CHECK(pread(mem, b, l, 0) == l, "harness: memory file"); b[l] = 0; *n = l; return b;
}
static char *model(const Fld *F, const Mat *A, size_t *n) {
  int w = F->w < 4 ? 1 : F->w / 4; char *b = ar_alloc((size_t)A->r * (A->c * (w + 1) + 4) + 8), *p = b;
  for (int i = 0; i < A->r; i++) { *p++ = '['; for (int j = 0; j < A->c; j++) { if (j) *p++ = ' ';
      char t[8]; int l = 0; unsigned v = AT(A, i, j); do { t[l++] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v);
      for (int s = l; s < w; s++) *p++ = ' '; while (l) *p++ = t[--l]; }
    *p++ = ']'; *p++ = '\n'; }
  *p = 0; *n = p - b; return b;
}
static void same(const char *what, const char *g, size_t gn, const char *x, size_t xn) {
  size_t i = 0; while (i < gn && i < xn && g[i] == x[i]) i++;
  if (i < gn || i < xn) { int row = 0; for (size_t t = 0; t < i; t++) row += x[t] == '\n';
    mc_fail("%s printed %zu bytes, %zu expected; line %d, byte %zu of the output: \"%.24s\" instead of \"%.24s\"", what, gn, xn, row, i, g + (i > 6 ? i - 6 : 0), x + (i > 6 ? i - 6 : 0)); }
}
static void one(const Fld *F, const Mat *A, int place, int which) {
  size_t xn, gn; char *x = model(F, A, &xn); mc_trans(1); mc_states(1);
  if (which != 1) { PM *p = pm_new(F, A, place); cap_begin(); mzed_print(p->m); char *g = cap_end(&gn); same("mzed_print", g, gn, x, xn); pm_check(p, A, "printed matrix"); pm_free(p); }
  if (which != 0) { SM *p = sm_new(F, A, place); cap_begin(); mzd_slice_print(p->m); char *g = cap_end(&gn); same("mzd_slice_print", g, gn, x, xn); sm_check(p, A, "printed sliced matrix"); sm_free(p); }
}
PROPERTY(C20) {
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0); int cs[64], n = cols_small(F, cs, TIER(1, 3, 6));
    for (int ci = 0; ci < n; ci++) for (int r = 1; r <= 5; r += 2) for (int which = 0; which < 2; which++) if (CASE("k=%d %s %dx%d", k, which ? "sliced" : "packed", r, cs[ci]))
      for (int place = 0; place < NPLACE; place++) for (int pat = 0; pat < NPAT; pat++) { mc_sub("%s %s", pat_name[pat], place_name[place]); one(F, mat_pat(F, r, cs[ci], pat), place, which); }
    /* every element of the field at every position of the word */
    for (int base = 0; base < F->q; base += 4096) if (CASE("k=%d every element from 0x%x", k, base)) {
      int e = F->epw, rot = TIER(2, e < 4 ? e : 4, e); for (int s = 0; s < rot; s++) { int m = F->q - base < 4096 ? F->q - base : 4096; Mat *A = mat_new(1, m + s); for (int j = 0; j < m; j++) AT(A, 0, j + s) = base + j; mc_sub("shifted by %d", s); one(F, A, s % NPLACE, 2); } }
    /* one nonzero element, everywhere */
    if (CASE("k=%d single elements", k)) { E v[64]; int nv = fld_vals(F, v); int c = 2 * F->epw + 1; if (c > 40) c = 40; for (int i = 0; i < 2; i++) for (int j = 0; j < c; j++) for (int t = 0; t < nv; t += mc_tier == 2 ? 1 : 1 + nv / 8) { Mat *A = mat_new(2, c); AT(A, i, j) = v[t]; mc_sub("0x%x at (%d,%d)", v[t], i, j); one(F, A, (i + j + t) % NPLACE, 2); } }
    /* all matrices of two elements of small fields: different matrices, different texts */
    if (k <= TIER(2, 4, 6) && CASE("k=%d all 1x2 and 2x1", k)) for (int a = 0; a < F->q; a++) for (int b = 0; b < F->q; b++) for (int s = 0; s < 2; s++) { Mat *A = mat_new(1 + s, 2 - s); A->v[0] = a; A->v[1] = b; mc_sub("%x %x", a, b); one(F, A, (a + b) % NPLACE, 2); }
    /* structured contents and large outputs */
    if (CASE("k=%d structured contents", k)) for (int pat = NPAT; pat < NSTRUCT; pat++) for (int s = 0; s < TIER(1, 4, 12); s++) { int m = 1 + (s * 5 + pat) % 11, c = 1 + (s * 13 + pat * 7) % (3 * F->epw); mc_sub("pattern %d %dx%d", pat, m, c); one(F, mat_pat(F, m, c, pat), s % NPLACE, 2); one(F, mat_pat(F, m, c, P_BIT + (int)((long)m * c * F->k * (s + 1) / 13)), s % NPLACE, 2); }
    { static const int lg[][2] = {{1, 1100}, {1, 5000}, {1030, 3}, {70, 130}, {300, 65}}; for (int s = 0; s < 5; s++) if ((mc_tier || (s + k) % 5 == 0) && CASE("k=%d large %dx%d", k, lg[s][0], lg[s][1])) { one(F, mat_pat(F, lg[s][0], lg[s][1], 4), s % NPLACE, 2); one(F, mat_pat(F, lg[s][0], lg[s][1], 0), (s + 1) % NPLACE, 2); } }
  }
}

/* C18: the catalogue of operations over the shapes at every internal switch
 * (word boundaries, groups of words of the bit-interleaving code, table
 * counts, recursion cutoffs), run in the instrumented builds: address and
 * undefined-behaviour instrumentation with assertions, and the build in which
 * every heap block ends at an inaccessible page. The verdict is the process
 * status; values are compared elsewhere. */
#include "catalog.h"
#include <m4rie/echelonform.h>
static int nsz(const Fld *F, int *o) { int e = F->epw, v[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, e - 1, e, e + 1, 2 * e - 1, 2 * e, 2 * e + 1, 3 * e + 1, 4 * e - 1, 4 * e, 4 * e + 1, 63, 64, 65, 127, 128, 129, 192, 193, 255, 256, 257}, n = 0;
  for (unsigned i = 0; i < sizeof v / sizeof *v; i++) { int d = v[i] > 0; for (int j = 0; j < n; j++) if (o[j] == v[i]) d = 0; if (d) o[n++] = v[i]; } return n; }
static uint64_t budget(const Op *o, int k) { uint64_t b = TIER(20000, 100000, 4000000); if (o->slow) b /= 16; if (k > 8) b /= 2; return b; }
/* numbers of bits and elements that no longer fit an int: one non-zero row, everything else zero (the elements are not modelled) */
static void huge(int which) {
  Fld *F = field(which == 0 ? 8 : 2, 0); int m = which == 0 ? 128 : which == 1 ? 65536 : 520, n = which == 0 ? 1 << 21 : which == 1 ? 32768 : 2900000;
  mc_sub("%dx%d", m, n); mzed_t *A = mzed_init(F->ff, m, n); for (int j = 0; j < 5; j++) mzed_write_elem(A, m / 2, n - 1 - j * 70, 1 + j % 3); mc_trans(1); mc_states(1);
  if (which == 1) { CHECK(mzed_mul_scalar(A, 2, A) == A, "another object"); for (int j = 0; j < 5; j++) CHECK(mzed_read_elem(A, m / 2, n - 1 - j * 70) == fe_mul(F, 2, 1 + j % 3), "element %d of the scaled matrix", j); }
  else { int r = which ? mzed_echelonize_newton_john(A, 1) : mzed_echelonize(A, 1); CHECK(r == 1, "rank %d", r); E d = fe_inv(F, 1 + 4 % 3); for (int j = 0; j < 5; j++) CHECK(mzed_read_elem(A, 0, n - 1 - j * 70) == fe_mul(F, d, 1 + j % 3), "element %d of the echelon form", j); }
  mzed_free(A);
}
PROPERTY(C18) {
  static const char *hn[] = {"echelonize 2^31 bits", "scale 2^31 elements", "echelonize 2.9 million columns"}; for (int i = 0; i < 3; i++) if (mc_tier && CASE("%s", hn[i])) huge(i);
  for (int k = 2; k <= 16; k++) { Fld *F = field(k, k & 1 ? 0 : -1); int s[40], ns = nsz(F, s);
    for (int i = 0; i < NCAT; i++) for (int b = 0; b < ns; b++) {
      if (CAT[i].slow == 2) { if (b || (k > 8 && mc_tier < 2)) continue; }
      else if (CAT[i].slow && (mc_tier < 2 && (b * 3 + i + k) % (k > 8 ? 16 : 6))) continue;
      else if (mc_tier == 0 && (i + b + k) % 7) continue;
      else if (mc_tier == 1 && k > 8 && (i + b + k) % 3) continue;
      if (CASE("k=%d %s inner size %d", k, CAT[i].name, s[b])) {
        Ctx z; int n0 = 0;
        for (int a = 0; a < ns; a++) for (int c = 0; c < ns; c++) { uint64_t vol = (uint64_t)s[a] * s[b] * s[c] + 64 * (s[a] + s[b] + s[c]); int id = a * 7 + b * 11 + c * 13 + i;
          if (vol > budget(CAT + i, k) / 2) { if (vol > 4 * budget(CAT + i, k) || id % 23) continue; }
          if (id % (CAT[i].slow ? TIER(97, 89, 29) : k > 8 ? TIER(61, 97, 7) : TIER(41, 29, 2))) continue;
          if (CAT[i].slow == 2 && n0) continue;
          n0++; mc_sub("%dx%dx%d", s[a], s[b], s[c]); size_t m = ar_mark(); run_op(CAT + i, &z, F, s[a], s[b], s[c], id % 4, 4 + id % 5, 0); ar_release(m); mc_trans(1); mc_states(1); } } } }
}

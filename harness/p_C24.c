/* C24: random filling. The random source belongs to the harness and answers
 * enumerated sequences: constants, one-hot deviations, walking patterns. */
#include "mc.h"

static long val, other; static long at, calls; static uint64_t st; static int mode;
static long hook(void) {
  long n = calls++;
  switch (mode) {
  case 0: return val;                                       /* constant */
  case 1: return n == at ? val : other;                     /* one deviating answer */
  case 2: return (n & 1) ? val : other;                     /* alternating */
  case 3: return (n * 0x01010101l + val) & 0x7fffffff;      /* counting */
  default: return (long)(mc_hash(st, n, 24, 7) >> 33);
  }
}
static void arm(int m, long v, long o, long a, uint64_t s) { mode = m; val = v; other = o; at = a; calls = 0; st = s; mc_random_hook = hook; }
static Mat *fill_p(const Fld *F, int r, int c, int place, int dirty) {
  PM *p = pm_new(F, mat_pat(F, r, c, dirty), place); mzed_randomize(p->m); mc_random_hook = NULL; mc_trans(1);
  Mat *X = pm_read(p); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) CHECK(AT(X, i, j) < F->q, "element (%d,%d) is 0x%x, which is not in the field", i, j, AT(X, i, j));
  CHECK(p->m->nrows == r && p->m->ncols == c && p->m->finite_field == F->ff, "header changed");
  pm_check(p, X, "mzed_randomize"); pm_free(p); return X;
}
static Mat *fill_s(const Fld *F, int r, int c, int place, int dirty) {
  SM *p = sm_new(F, mat_pat(F, r, c, dirty), place); mzd_slice_randomize(p->m); mc_random_hook = NULL; mc_trans(1);
  CHECK(p->m->nrows == r && p->m->ncols == c && p->m->finite_field == F->ff && p->m->depth == F->k, "header changed");
  Mat *X = sm_read(p); sm_check(p, X, "mzd_slice_randomize"); sm_free(p); return X;
}
static Mat *fill(const Fld *F, int sliced, int r, int c, int place, int dirty) { return sliced ? fill_s(F, r, c, place, dirty) : fill_p(F, r, c, place, dirty); }
static const long ext[] = {0, 0x7fffffff, 1, 0x40000000, 0x55555555, 0x2aaaaaaa, 0x0000ffff, 0x7fff0000, 0x00010000, 0x00ff00ff};

static void poly(int d, int r, int c) {
  uint8_t *saw = ar_zalloc((size_t)(d + 2) * r * c); int deps = 0;
  for (int s = 0; s < 60; s++) { mc_sub("polynomial of depth %d, %dx%d, sequence %d", d, r, c, s); mzd_poly_t *A = mzd_poly_init(d - 1, r, c); int dep = A->depth, zero = 0; deps = dep; CHECK(dep <= d + 1, "depth %d", dep); 
    for (int i = 0; i < dep; i++) if (s & 1) for (int y = 0; y < r; y++) for (int x = 0; x < c; x++) mzd_write_bit(A->x[i], y, x, (x + y + i) & 1);
    if (s < 10) arm(0, ext[s], 0, 0, 0); else arm(4, 0, 0, 0, s * 77 + 1);
    mzd_poly_randomize(A); mc_random_hook = NULL; mc_trans(1); CHECK(A->depth == dep, "depth changed");
    for (int i = 0; i < dep; i++) { CHECK(A->x[i]->nrows == r && A->x[i]->ncols == c, "shape changed"); int any = 0; for (int y = 0; y < r; y++) { for (int x = 0; x < c; x++) { int b = mzd_read_bit(A->x[i], y, x); any |= b; saw[(i * r + y) * c + x] |= 1 << b; } if (c % 64) CHECK(!(A->x[i]->rows[y][A->x[i]->width - 1] >> c % 64), "padding of coefficient %d row %d set", i, y);
      }
      zero += !any; }
    if (s >= 10 && r * c >= 64) CHECK(!zero, "a coefficient stayed zero"); mzd_poly_free(A); }
  for (int p = 0; p < deps * r * c; p++) CHECK(saw[p] == 3, "coefficient %d (%d,%d) is never %d", p / (r * c), p / c % r, p % c, saw[p] & 1);
}
PROPERTY(C24) {
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0); int cs[64], n = cols_small(F, cs, TIER(1, 3, 6));
    for (int sl = 0; sl < 2; sl++) {
      const char *sn = sl ? "sliced" : "packed";
      for (int ci = 0; ci < n; ci++) for (int r = 1; r <= 5; r += 2) if (CASE("k=%d %s %dx%d", k, sn, r, cs[ci])) for (int place = 0; place < NPLACE; place++) {
        int c = cs[ci], dirty = 2 + (ci + r + place) % 6;
        for (int i = 0; i < 10; i++) for (int j = 0; j < 10; j += 3) { mc_sub("%s, answers alternate 0x%lx and 0x%lx", place_name[place], ext[i], ext[j]); arm(2, ext[i], ext[j], 0, 0); fill(F, sl, r, c, place, dirty); }
        for (int i = 0; i < 31; i++) { mc_sub("%s, constant answer with bit %d", place_name[place], i); arm(0, 1l << i, 0, 0, 0); fill(F, sl, r, c, place, dirty); arm(0, 0x7fffffff ^ 1l << i, 0, 0, 0); fill(F, sl, r, c, place, dirty); }
        mc_sub("%s, constant zero", place_name[place]); arm(0, 0, 0, 0, 0); Mat *Z = fill(F, sl, r, c, place, 10);  /* old content must not survive */
        arm(0, 0, 0, 0, 0); Mat *Z2 = fill(F, sl, r, c, place, 4); CHECK(mat_eq(Z, Z2), "the result depends on the old content"); mc_states(1);
        for (uint64_t s = 1; s <= 8; s++) { mc_sub("%s, sequence %d", place_name[place], (int)s); arm(4, 0, 0, 0, s); Mat *X = fill(F, sl, r, c, place, 10); arm(4, 0, 0, 0, s); Mat *Y = fill(F, sl, r, c, place, 4); CHECK(mat_eq(X, Y), "the result depends on the old content"); } }
      /* one deviating answer, at every call */
      for (int ci = 0; ci < n; ci += 2) if (CASE("k=%d %s %dx%d, one deviating answer", k, sn, 2, cs[ci])) { int c = cs[ci]; arm(0, 0, 0, 0, 0); fill(F, sl, 2, c, OWN, 4); long total = calls; mc_note("calls", total);
        for (long a = 0; a < total; a++) for (int i = 1; i < 10; i += mc_tier == 2 ? 1 : 3) for (int z = 0; z < 2; z++) { mc_sub("answer %ld is 0x%lx, the others 0x%x", a, ext[i], z ? 0x7fffffff : 0); arm(1, ext[i], z ? 0x7fffffff : 0, a, 0); fill(F, sl, 2, c, (a + i) % NPLACE, 4); mc_states(1); } }
      /* reachability: every element (small fields) or every pair of bits, at every position; and positions differ */
      if (CASE("k=%d %s reaches every element", k, sn)) {
        int c = 2 * F->epw + 1; if (c > 40) c = 40; int r = 2, N = r * c, S = F->q <= 256 ? TIER(16, 40, 64) * F->q : 512; uint8_t *seen = F->q <= 256 ? ar_zalloc((size_t)N * F->q) : NULL, *pair = ar_zalloc((size_t)N * 256), *ne = ar_zalloc(N);
        for (int s = 0; s < S; s++) { mc_sub("sequence %d of %d", s, S); arm(4, 0, 0, 0, 0x9e3779b97f4a7c15ull * (s + 1)); Mat *X = fill(F, sl, r, c, OWN, 0); mc_states(1);
          for (int p = 0; p < N; p++) { E v = X->v[p]; if (seen) seen[p * F->q + v] = 1; for (int b = 0; b < k; b++) for (int d = 0; d < b; d++) pair[p * 256 + b * 16 + d] |= 1 << ((v >> b & 1) * 2 + (v >> d & 1)); if (X->v[(p + 1) % N] != v) ne[p] = 1; } }
        for (int p = 0; p < N; p++) { CHECK(ne[p], "positions (%d,%d) and the next always get the same element", p / c, p % c); for (int b = 0; b < k; b++) for (int d = 0; d < b; d++) CHECK(pair[p * 256 + b * 16 + d] == 15, "bits %d and %d of element (%d,%d) never take some combination", b, d, p / c, p % c);
          if (seen) for (int v = 0; v < F->q; v++) CHECK(seen[p * F->q + v], "element 0x%x is never produced at (%d,%d)", v, p / c, p % c); } }
      for (int b = 0; b < 2; b++) if (LONG(k) && CASE("k=%d %s fills long shapes, %d", k, sn, b)) { int r = b ? 2 : 70000, c = b ? 70000 : 2, N = r * c; uint8_t *bit = ar_zalloc((size_t)N * k); for (int q = 0; q < 40; q++) { mc_sub("%dx%d, sequence %d", r, c, q); size_t mark = ar_mark(); arm(4, 0, 0, 0, 0x9e3779b97f4a7c15ull * (q + 7)); Mat *X = fill(F, sl, r, c, q % 2, q % NPAT); mc_states(1); for (int p = 0; p < N; p++) for (int x = 0; x < k; x++) bit[(size_t)p * k + x] |= 1 << (X->v[p] >> x & 1); ar_release(mark); }
        for (int p = 0; p < N; p++) for (int x = 0; x < k; x++) CHECK(bit[(size_t)p * k + x] == 3, "bit %d of the element at (%d,%d) is always %d", x, p / c, p % c, bit[(size_t)p * k + x] >> 1); }
      /* larger shapes: every position takes both values of every bit, every element is produced somewhere */
      for (int s = 0; s < TIER(1, 3, 3); s++) if (CASE("k=%d %s reaches every element of larger shapes, %d", k, sn, s)) { static const int sh[][2] = {{33, 65}, {70, 150}, {3, 600}}; int r = sh[s][0], c = sh[s][1], N = r * c;
        long S = 40 + (long)F->q * 40 / N; uint8_t *seen = ar_zalloc(F->q), *bit = ar_zalloc((size_t)N * k);
        for (long q = 0; q < S; q++) { mc_sub("%dx%d, sequence %ld of %ld", r, c, q, S); arm(4, 0, 0, 0, 0x9e3779b97f4a7c15ull * (q + 7)); Mat *X = fill(F, sl, r, c, q % NPLACE, q % NPAT); mc_states(1);
          for (int p = 0; p < N; p++) { seen[X->v[p]] = 1; for (int b = 0; b < k; b++) bit[p * k + b] |= 1 << (X->v[p] >> b & 1); } }
        for (int v = 0; v < F->q; v++) CHECK(seen[v], "element 0x%x is never produced", v);
        for (int p = 0; p < N; p++) for (int b = 0; b < k; b++) CHECK(bit[p * k + b] == 3, "bit %d of the element at (%d,%d) is always %d", b, p / c, p % c, bit[p * k + b] >> 1); }
    }
    if (CASE("k=%d fresh sequences", k)) { /* consecutive calls continue the sequence */ arm(3, 0, 0, 0, 0); PM *p = pm_new(F, mat_new(3, 70), OWN); mzed_randomize(p->m); Mat *X = pm_read(p); mzed_randomize(p->m); mc_random_hook = NULL; CHECK(!mat_eq(X, pm_read(p)), "the second filling repeats the first"); pm_free(p); }
  }
  for (int d = 1; d <= 17; d++) for (int c = 1; c <= 130; c += 43) if (CASE("polynomial depth %d, %d columns", d, c)) { poly(d, 1, c); poly(d, 3, c); poly(d, 2, 64); poly(d, 3, 65); }
}

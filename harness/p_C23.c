/* C23: operations keep no hidden state. The reference for every operation is
 * its result in a process that has not called anything before; then every
 * ordered pair of operations of the catalogue, under several contents of
 * fresh and released memory, within one field and across fields. */
#include "catalog.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#define NSH 4
#define NV 5
static const int SHP[NSH][3] = {{5, 7, 6}, {3, 66, 17}, {17, 9, 70}, {130, 129, 131}}, VPAT[NV] = {0, 8, 11, 12 + 6, 12 + 19};
static const int JUNK[4][2] = {{0xa7, 0x5b}, {0x00, 0x00}, {0xff, 0xff}, {0x01, 0xfe}};
typedef struct { uint64_t h[17][2][NCAT][NSH], v[17][NV][NCAT][NSH]; } Base;
static Base *B;
static void gov(const Op *o, const Fld *F, int s, int v, Ctx *z) { run_op(o, z, F, SHP[s][0], SHP[s][1], SHP[s][2], s, v ? VPAT[v] : 4 + s, 0); }
static void go(const Op *o, const Fld *F, int s, Ctx *z) { run_op(o, z, F, SHP[s][0], SHP[s][1], SHP[s][2], s, 4 + s, 0); }
static uint64_t fhash(const gf2e *ff) {
  uint64_t h = mc_hash(ff->degree, ff->minpoly, (uintptr_t)ff->mul, (uintptr_t)ff->inv); int q = 1 << ff->degree;
  for (int i = 0; i < q; i++) h = (h ^ ff->red[i]) * 0x100000001b3ull; for (int i = 0; i < 2 * ff->degree - 1; i++) h = (h ^ ff->pow_gen[i]) * 0x100000001b3ull;
  if (ff->_mul) for (int i = 0; i < q; i++) for (int j = 0; j < q; j++) h = (h ^ ff->_mul[i][j]) * 0x100000001b3ull;
  return h;
}
static int use_k(int k) { return mc_tier == 2 || (mc_tier == 1 ? k <= 9 || k == 12 || k == 16 : k == 2 || k == 5 || k == 9); }
static int shapes_for(const Op *o, int k) { return o->slow == 2 ? 1 : o->slow || k > (mc_tier == 2 ? 9 : 5) || k == 4 || mc_tier == 0 ? 3 : NSH; }
/* one process per operation, field and shape; nothing was called before */
static void baseline(void) {
  B = mmap(NULL, sizeof *B, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); CHECK(B != MAP_FAILED, "harness: mmap");
  for (int k = 2; k <= 16; k++) if (use_k(k)) for (int f = 0; f < 2; f++) for (int i = 0; i < NCAT; i++) {
    if (CAT[i].slow == 2 && k > 8) continue;
    for (int s = 0; s < shapes_for(CAT + i, k); s++) { pid_t c = fork(); CHECK(c >= 0, "harness: fork");
      if (!c) { Ctx z; Fld *F = field(k, f ? -1 : 0); go(CAT + i, F, s, &z); B->h[k][f][i][s] = z.h ? z.h : 1; _exit(0); }
      int st; waitpid(c, &st, 0); }
    for (int s = 0; s < shapes_for(CAT + i, k); s++) for (int v = 1; v < NV; v++) { if (f || CAT[i].slow == 2) continue; pid_t c = fork(); CHECK(c >= 0, "harness: fork");
      if (!c) { Ctx z; Fld *F = field(k, 0); gov(CAT + i, F, s, v, &z); B->v[k][v][i][s] = z.h ? z.h : 1; _exit(0); }
      int st; waitpid(c, &st, 0); } }
}
static void chk(const Op *o, int k, int f, int i, int s, const Ctx *z, const char *after) {
  uint64_t want = B->h[k][f][i][s]; CHECK(want, "%s did not finish in a fresh process", o->name);
  CHECK((z->h ? z->h : 1) == want, "%s (%dx%dx%d over GF(2^%d)) gives another result after %s than in a fresh process", o->name, SHP[s][0], SHP[s][1], SHP[s][2], k, after);
  mc_trans(1);
}
PROPERTY(C23) {
  if (!mc_have_alloc_hooks) { mc_junk_byte = 0; }
  if (!B) baseline();
  for (int k = 2; k <= 16; k++) if (use_k(k)) {
    for (int i = 0; i < NCAT; i++) { if (CAT[i].slow == 2 && k > 8) continue;
      /* every ordered pair within the field; second run of the same */
      if (CASE("k=%d after %s", k, CAT[i].name)) {
        Fld *F = field(k, 0), *G = field(k, -1); uint64_t fh = fhash(F->ff), gh = fhash(G->ff); Ctx z;
        for (int j = 0; j < NCAT; j++) { if (CAT[j].slow == 2 && (k > 8 || i % 8)) continue; if (CAT[j].slow == 1 && mc_tier < 2 && k > 6 && (i + j + k) % 5) continue;
          int nj = mc_tier == 2 ? 4 : 2; for (int t = 0; t < nj; t++) { int J = (i + j + t) % 4; mc_junk_byte = JUNK[J][0]; mc_free_byte = JUNK[J][1];
            int s1 = (i + j + t) % shapes_for(CAT + i, k), s2 = (j + t * 2 + i / 3) % shapes_for(CAT + j, k); int f = (t + i) & 1, g = (j + t) & 1;
            mc_sub("%s, then %s, memory %02x/%02x", CAT[i].name, CAT[j].name, JUNK[J][0], JUNK[J][1]); mc_states(1);
            go(CAT + i, f ? G : F, s1, &z); chk(CAT + i, k, f, i, s1, &z, j ? CAT[j - 1].name : "itself");
            go(CAT + j, g ? G : F, s2, &z); chk(CAT + j, k, g, j, s2, &z, CAT[i].name); } }
        mc_junk_byte = 0xa7; mc_free_byte = 0x5b;
        CHECK(fhash(F->ff) == fh && fhash(G->ff) == gh, "a field object changed"); }
      /* across fields: other degree before and in between; then back */
      if (CASE("k=%d %s between other fields", k, CAT[i].name)) { Ctx z; Fld *F = field(k, 0);
        for (int k2 = 2; k2 <= 16; k2++) if (k2 != k && use_k(k2)) for (int s = 0; s < shapes_for(CAT + i, k) && s < shapes_for(CAT + i, k2); s++) { if (CAT[i].slow && (k2 + s) % 3 && mc_tier < 2) continue; Fld *H = field(k2, 0); if (CAT[i].slow == 2 && k2 > 8) continue; uint64_t fh = fhash(F->ff);
          mc_sub("%s over GF(2^%d), then over GF(2^%d), then again", CAT[i].name, k, k2); mc_states(1);
          go(CAT + i, F, s, &z); chk(CAT + i, k, 0, i, s, &z, "other fields"); go(CAT + i, H, s, &z); chk(CAT + i, k2, 0, i, s, &z, "the same in another field"); go(CAT + i, F, s, &z); chk(CAT + i, k, 0, i, s, &z, "the same in another field"); CHECK(fhash(F->ff) == fh, "a field object changed"); } }
      /* the same objects, at the same addresses, holding other contents; and the same contents in other objects */
      if (CAT[i].slow < 2 && CASE("k=%d %s on the same objects with other contents", k, CAT[i].name)) { Ctx z; Fld *F = field(k, 0);
        static const int seq[] = {0, 1, 2, 1, 3, 0, 4, 4, 2, 3, 1, 0};
        for (int s = 0; s < shapes_for(CAT + i, k); s++) { pool_start(); int prev = -1;
          for (size_t t = 0; t < sizeof seq / sizeof *seq; t++) { int v = seq[t]; mc_sub("%s %dx%dx%d, contents %d after contents %d", CAT[i].name, SHP[s][0], SHP[s][1], SHP[s][2], v, prev); mc_states(1);
            gov(CAT + i, F, s, v, &z); uint64_t want = v ? B->v[k][v][i][s] : B->h[k][0][i][s]; CHECK(want, "%s did not finish in a fresh process", CAT[i].name); mc_trans(1);
            CHECK((z.h ? z.h : 1) == want, "%s (%dx%dx%d over GF(2^%d)), contents %d in the objects that held contents %d before, gives another result than in a fresh process", CAT[i].name, SHP[s][0], SHP[s][1], SHP[s][2], k, v, prev); prev = v; }
          pool_end(); } }
      /* a field is freed and another one created in its place */
      if (CASE("k=%d %s in a recycled field object", k, CAT[i].name)) { Ctx z; Fld *F = field(k, 0), *G = field(k, -1);
        for (int r = 0; r < 4; r++) for (int s = 0; s < shapes_for(CAT + i, k); s++) { Fld X = r & 1 ? *F : *G, Y = r & 1 ? *G : *F; X.ff = gf2e_init(X.poly); void *old = X.ff; mc_sub("%s, field 0x%x then 0x%x", CAT[i].name, X.poly, Y.poly); mc_states(1);
          go(CAT + i, &X, s, &z); chk(CAT + i, k, !(r & 1), i, s, &z, "creating a field"); gf2e_free(X.ff); Y.ff = gf2e_init(Y.poly); if ((void *)Y.ff == old) mc_note("recycled field addresses", 1);
          go(CAT + i, &Y, s, &z); chk(CAT + i, k, r & 1, i, s, &z, "the same in a field that was freed"); gf2e_free(Y.ff); } }
    }
    /* histories of three: repeated use with everything else in between */
    for (int i = 0; i < NCAT; i++) { if (CAT[i].slow == 2) continue; if (mc_tier < 2 && k > 5 && (i + k) % 4) continue;
      if (CASE("k=%d %s after every history of two", k, CAT[i].name)) { Ctx z; Fld *F = field(k, 0); for (int a = 0; a < NCAT; a++) for (int b = 0; b < NCAT; b++) { if (CAT[a].slow || CAT[b].slow || (mc_tier < 2 && (a * 7 + b * 3 + i) % (k > 4 ? 41 : 13))) continue; int s = (a + b) % shapes_for(CAT + i, k);
        mc_sub("%s, %s, then %s", CAT[a].name, CAT[b].name, CAT[i].name); mc_states(1); go(CAT + a, F, (a + i) % 3, &z); go(CAT + b, F, (b + i) % 3, &z); go(CAT + i, F, s, &z); chk(CAT + i, k, 0, i, s, &z, CAT[b].name); } } }
  }
}

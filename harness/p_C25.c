/* C25: memory is returned; a failing allocation is reported. For every
 * operation of the catalogue: live blocks before and after, then one run per
 * allocation the operation makes, with exactly that allocation failing. */
#include "catalog.h"
#include <sys/wait.h>
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>

static int many;
static void leak(const Op *o, const Fld *F, int m, int l, int n, int place, int pat) {
  Ctx z; long d[4];
  for (int t = 0; t < 4; t++) { mc_sub("%s %dx%dx%d %s, run %d", o->name, m, l, n, place_name[place], t); run_op(o, &z, F, m, l, n, place, pat, 0); d[t] = z.delta; mc_trans(1); }
  mc_note("allocations", z.allocs);
  /* libm4ri takes matrix headers from blocks of 64, so a single run may keep or return one block of headers */
  CHECK(!(d[0] > 0 && d[1] > 0 && d[2] > 0 && d[3] > 0) && !(d[1] + d[2] + d[3] > 1), "%s loses memory: %ld, %ld, %ld, %ld blocks in four runs", o->name, d[0], d[1], d[2], d[3]);
  if (many) { /* one lost header per run shows after 64 runs */
    long all = 0; mc_sub("%s %dx%dx%d %s, 200 runs", o->name, m, l, n, place_name[place]); for (int t = 0; t < 200; t++) { size_t mk = ar_mark(); run_op(o, &z, F, m, l, n, place, pat, 0); all += z.delta; ar_release(mk); }
    mc_trans(200); CHECK(all <= 1, "%s loses memory: %ld blocks in 200 runs", o->name, all); CHECK(all >= -1, "%s releases memory it does not own", o->name); }
  CHECK(!(d[0] < 0 && d[1] < 0 && d[2] < 0 && d[3] < 0), "%s releases memory it does not own", o->name);
}
static void faults(const Op *o, const Fld *F, int m, int l, int n, int place, int pat, long max) {
  Ctx z; run_op(o, &z, F, m, l, n, place, pat, 0); long total = z.allocs; mc_trans(1);
  run_op(o, &z, F, m, l, n, place, pat, 0); if (z.allocs > total) total = z.allocs; mc_note("allocations", total);
  int known = 0; long step = total > max ? total / max + 1 : 1;
  for (long i = 1; i <= total; i += i < max / 2 || total - i < max / 2 ? 1 : step) {
    mc_sub("%s %dx%dx%d %s, allocation %ld of %ld fails", o->name, m, l, n, place_name[place], i, total); mc_trans(1); mc_states(1);
    run_op(o, &z, F, m, l, n, place, pat, i);
    if (mc_djb_spared) { mc_djb_spared = 0; mc_note("unchecked allocations of libm4ri spared", 1);
      if (!known++) { pid_t c = fork(); if (!c) { struct rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc); mc_djb_may_fail = 1; signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGABRT, SIG_DFL); run_op(o, &z, F, m, l, n, place, pat, i); _exit(0); }
        int st; waitpid(c, &st, 0); if (WIFSIGNALED(st)) mc_note("known:m4ri-djb-alloc", 1); }
      continue; }
    CHECK(z.refused || z.remaining > 0, "allocation %ld of %ld failed and nothing was reported", i, total);
    mc_note("failures injected", 1);
  }
}
PROPERTY(C25) {
  if (!mc_have_alloc_hooks) return;
  static const int sh[][3] = {{3, 5, 4}, {1, 1, 1}, {17, 33, 20}, {65, 70, 66}, {9, 130, 64}, {130, 129, 131}, {200, 70, 260}, {70, 64, 64}, {130, 128, 128}, {64, 130, 192}};
  for (int k = 2; k <= 16; k++) for (int i = 0; i < NCAT; i++) {
    const Op *o = CAT + i; Fld *F = field(k, i % 2 ? -1 : 0);
    for (int s = 0; s < 10; s++) { if (o->slow == 2 && s) continue; if (k > 10 && s > 3 && mc_tier < 2) continue; if (s > 2 && mc_tier < 2 && (s + i + k) % (s > 6 && k < 6 ? 2 : 3)) continue;
      if (CASE("k=%d %s %dx%dx%d memory returned", k, o->name, sh[s][0], sh[s][1], sh[s][2])) for (int place = 0; place < (s < 3 || mc_tier == 2 ? NPLACE : 1); place++) { many = s == 0 && place < 2 && o->slow < 2; leak(o, F, sh[s][0], sh[s][1], sh[s][2], (place + s) % NPLACE, s > 6 ? 15 : 4 + s % 4); many = 0; } }
    /* contents that shortcuts look for: zero, identity, one row, one column, zero blocks, every rank, ... */
    if (o->slow < 2 && CASE("k=%d %s special contents", k, o->name)) for (int s = 0; s < 5; s++) for (int pat = 0; pat < NPAT + NSTRUCT; pat++) {
      if (mc_tier < 2 && s > 1 && (pat + i + k + s) % (s == 2 ? 3 : 24)) continue; if (mc_tier < 2 && k > 8 && (pat + i + k) % 4) continue; if (o->slow && (pat + k) % 6) continue;
      many = s == 0 && (pat + i + k) % TIER(8, 8, 1) == 0; leak(o, F, sh[s][0], sh[s][1], sh[s][2], (pat + s) % NPLACE, pat); many = 0; }
    for (int s = 0; s < 7; s++) { if (o->slow == 2 && s) continue; if (k > 8 && s > 2 && mc_tier < 2) continue; if (s > 1 && mc_tier < 2 && (s + i + k) % 5) continue; if (o->slow && k > 6 && mc_tier < 2 && s != (k + i) % 3) continue;
      if (CASE("k=%d %s %dx%dx%d allocation failures", k, o->name, sh[s][0], sh[s][1], sh[s][2])) faults(o, F, sh[s][0], sh[s][1], sh[s][2], s % NPLACE, 4 + s % 4, TIER(10, s > 2 ? 60 : 400, 3000)); }
  }
}

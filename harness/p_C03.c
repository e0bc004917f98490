/* C03: element access touches exactly one element. */
#include "mc.h"

static void packed(const Fld *F, int r, int c, int place, int pat) {
  E v[64]; int nv = fld_vals(F, v);
  Mat *M = mat_pat(F, r, c, pat); PM *p = pm_new(F, M, place);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
    word g = mzed_read_elem(p->m, i, j); mc_trans(1);
    CHECK(g == AT(M, i, j), "reading (%d,%d) gives 0x%llx, must be 0x%x", i, j, (unsigned long long)g, AT(M, i, j));
  }
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int t = 0; t < nv; t++) {
    mc_sub("write 0x%x at (%d,%d)", v[t], i, j);
    mzed_write_elem(p->m, i, j, v[t]); AT(M, i, j) = v[t];
    if (t < 4) pm_check(p, M, "after write_elem");
    word g = mzed_read_elem(p->m, i, j);
    CHECK(g == v[t], "reading back (%d,%d) gives 0x%llx, must be 0x%x", i, j, (unsigned long long)g, v[t]);
    E a = v[(t * 7 + i + j) % nv];
    mc_sub("add 0x%x at (%d,%d)", a, i, j);
    mzed_add_elem(p->m, i, j, a); AT(M, i, j) ^= a;
    if (t < 4 || t == nv - 1) pm_check(p, M, "after add_elem");
    g = mzed_read_elem(p->m, i, j);
    CHECK(g == AT(M, i, j), "reading (%d,%d) after an addition gives 0x%llx, must be 0x%x", i, j, (unsigned long long)g, AT(M, i, j));
    mc_trans(4);
  }
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) CHECK(mzed_read_elem(p->m, i, j) == AT(M, i, j), "final read of (%d,%d)", i, j);
  pm_check(p, M, "at the end"); pm_free(p);
}
static void sliced(const Fld *F, int r, int c, int place, int pat) {
  E v[64]; int nv = fld_vals(F, v); if (nv > 9) nv = 9;
  v[nv - 1] = F->q - 1; if (F->q > 16) { v[0] = 0x5555 & (F->q - 1); v[1] = F->q >> 1; }
  Mat *M = mat_pat(F, r, c, pat); SM *p = sm_new(F, M, place);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
    word g = mzd_slice_read_elem(p->m, i, j); mc_trans(1);
    CHECK(g == AT(M, i, j), "reading (%d,%d) gives 0x%llx, must be 0x%x", i, j, (unsigned long long)g, AT(M, i, j));
  }
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { if (c > 70 && j > 3 && (j & 63) > 1 && (j & 63) < 62 && j < c - 2) continue;
   for (int t = 0; t < nv; t++) {
    mc_sub("write 0x%x at (%d,%d)", v[t], i, j);
    mzd_slice_write_elem(p->m, i, j, v[t]); AT(M, i, j) = v[t];
    if (t < 3) sm_check(p, M, "after write_elem");
    word g = mzd_slice_read_elem(p->m, i, j);
    CHECK(g == v[t], "reading back (%d,%d) gives 0x%llx, must be 0x%x", i, j, (unsigned long long)g, v[t]);
    E a = v[(t * 7 + i + j) % nv];
    mc_sub("add 0x%x at (%d,%d)", a, i, j);
    mzd_slice_add_elem(p->m, i, j, a); AT(M, i, j) ^= a;
    if (t < 3 || t == nv - 1) sm_check(p, M, "after add_elem");
    g = mzd_slice_read_elem(p->m, i, j);
    CHECK(g == AT(M, i, j), "reading (%d,%d) after an addition gives 0x%llx, must be 0x%x", i, j, (unsigned long long)g, AT(M, i, j));
    mc_trans(4);
   } }
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) CHECK(mzd_slice_read_elem(p->m, i, j) == AT(M, i, j), "final read of (%d,%d)", i, j);
  sm_check(p, M, "at the end"); sm_free(p);
}
/* all sequences of writes and adds on neighbouring positions at a word edge */
static void histories(const Fld *F, int sl, int depth) {
  int epw = sl ? 64 : F->epw, c = epw + 2, pos[3] = {epw - 2, epw - 1, epw}; E val[2] = {F->q - 1, 0x6aa5 & (F->q - 1)};
  if (!val[1]) val[1] = 1;
  int n = 1; for (int i = 0; i < depth; i++) n *= 12;
  Mat *M0 = mat_pat(F, 2, c, 4);
  PM *p = sl ? NULL : pm_new(F, M0, OWN); SM *s = sl ? sm_new(F, M0, OWN) : NULL;
  Mat *M = mat_dup(M0);
  for (int h = 0; h < n; h++) {
    for (int d = 0, x = h; d < depth; d++, x /= 12) {
      int op = x % 12, j = pos[op % 3], row = 0; E v = val[op / 3 % 2]; int add = op / 6;
      if (sl) { if (add) mzd_slice_add_elem(s->m, row, j, v); else mzd_slice_write_elem(s->m, row, j, v); }
      else { if (add) mzed_add_elem(p->m, row, j, v); else mzed_write_elem(p->m, row, j, v); }
      AT(M, row, j) = add ? AT(M, row, j) ^ v : v; mc_trans(1);
    }
    mc_sub("history %d", h);
    if (sl) sm_check(s, M, "after a history"); else pm_check(p, M, "after a history");
  }
  mc_traces(n);
  if (sl) sm_free(s); else pm_free(p);
}
/* every kind of access at the edges of a matrix of many rows and words */
static void large(const Fld *F, int r, int c, int place, int sl) {
  Mat *M = mat_pat(F, r, c, 23); PM *p = sl ? NULL : pm_new(F, M, place); SM *s = sl ? sm_new(F, M, place) : NULL;
  int ri[24], ci[24], nr = edges(r, 64, ri), nc = edges(c, sl ? 64 : F->epw, ci); E v[] = {F->q - 1, 1, F->q >> 1, 0, 0x5555 & (F->q - 1)};
  for (int a = 0; a < nr; a++) for (int b = 0; b < nc; b++) for (int t = 0; t < 5; t++) { int i = ri[a], j = ci[b]; mc_sub("0x%x at (%d,%d)", v[t], i, j);
    word g0, g1, g2; if (sl) { g0 = mzd_slice_read_elem(s->m, i, j); mzd_slice_write_elem(s->m, i, j, v[t]); g1 = mzd_slice_read_elem(s->m, i, j); mzd_slice_add_elem(s->m, i, j, v[(t + 2) % 5]); g2 = mzd_slice_read_elem(s->m, i, j); }
    else { g0 = mzed_read_elem(p->m, i, j); mzed_write_elem(p->m, i, j, v[t]); g1 = mzed_read_elem(p->m, i, j); mzed_add_elem(p->m, i, j, v[(t + 2) % 5]); g2 = mzed_read_elem(p->m, i, j); }
    CHECK(g0 == AT(M, i, j) && g1 == v[t] && g2 == (v[t] ^ v[(t + 2) % 5]), "read 0x%llx, 0x%llx after writing, 0x%llx after adding", (unsigned long long)g0, (unsigned long long)g1, (unsigned long long)g2);
    AT(M, i, j) = g2; mc_trans(5); if (t == 4 && (b % 6 == a % 6)) { if (sl) sm_check(s, M, "element access"); else pm_check(p, M, "element access"); } }
  if (sl) { sm_check(s, M, "element access"); sm_free(s); } else { pm_check(p, M, "element access"); pm_free(p); }
}
PROPERTY(C03) {
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0);
    int cs[64], nc = cols_small(F, cs, TIER(1, 3, 9));
    for (int ci = 0; ci < nc; ci++) for (int place = 0; place < NPLACE; place++) for (int r = 1; r <= 3; r += 2) {
      if (mc_tier == 0 && r == 3 && place) continue;
      if (CASE("packed k=%d %dx%d %s", k, r, cs[ci], place_name[place])) packed(F, r, cs[ci], place, 4);
      if (mc_tier && place == OWN && CASE("packed k=%d %dx%d %s from all-ones", k, r, cs[ci], place_name[place])) packed(F, r, cs[ci], place, 2);
    }
    int sc[] = {1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256, 257}, ns = TIER(5, 9, 13);
    for (int ci = 0; ci < ns; ci++) for (int place = 0; place < NPLACE; place++) for (int r = 1; r <= 3; r += 2)
      if (CASE("sliced k=%d %dx%d %s", k, r, sc[ci], place_name[place])) sliced(F, r, sc[ci], place, 4);
    static const int big[][2] = {{3, 1100}, {300, 130}, {1030, 5}, {70, 530}};
    static const int gr[][2] = {{3, 3}, {5, 5}, {8, 8}, {13, 13}, {16, 16}, {24, 24}, {64, 64}, {8, 65}, {64, 1}, {64, 129}, {2, 65}, {6, 128}, {65, 64}, {32, 33}};
    for (int a = 0; a < 14; a++) if ((mc_tier || (a + k) % 3 == 0) && CASE("k=%d grid %dx%d", k, gr[a][0], gr[a][1])) for (int sl = 0; sl < 2; sl++) large(F, gr[a][0], gr[a][1], (a + k + sl) % NPLACE, sl);
    for (int sl = 0; sl < 2; sl++) for (int b = 0; b < 4; b++) for (int place = 0; place < NPLACE; place += TIER(2, 1, 1)) if (CASE("k=%d large %dx%d %s (%s)", k, big[b][0], big[b][1], place_name[place], sl ? "sliced" : "packed")) large(F, big[b][0], big[b][1], place, sl);
    /* longer than 2^16 in one direction */
    for (int sl = 0; sl < 2; sl++) for (int b = 0; b < 2; b++) if (LONG(k) && CASE("k=%d long %s (%s)", k, b ? "2x70000" : "70000x2", sl ? "sliced" : "packed")) large(F, b ? 2 : 70000, b ? 70000 : 2, (k + b) % 2, sl);
    for (int sl = 0; sl < 2; sl++) if (CASE("k=%d all histories of depth %d (%s)", k, TIER(2, 3, 4), sl ? "sliced" : "packed")) histories(F, sl, TIER(2, 3, 4));
  }
}

/* C17: Newton-John tables and the row updates that use them. */
#include "mc.h"
#include <m4rie/newton_john.h>

static E raw(const mzed_t *m, int w, int i, int j) { int b = j * w; return m->x->rows[i][b / 64] >> b % 64 & ((1u << w) - 1 ? (w == 16 ? 0xffff : (1u << w) - 1) : 0); }
static Mat *masked(const Fld *F, const Mat *A, int r, int c) { Mat *R = mat_new(1, A->c); for (int j = c; j < A->c; j++) AT(R, 0, j) = AT(A, r, j); return R; }
static void look(const Fld *F, const njt_mzed_t *T, const Mat *A, int r, int c, int every) {
  int w = F->w, n = A->c, used = n * w % 64, last = T->T->x->width - 1;
  CHECK(T->T->nrows == F->q && T->T->ncols == n, "table is %dx%d", T->T->nrows, T->T->ncols);
  uint8_t *seen = ar_zalloc(F->q);
  for (int a = 0; a < F->q; a++) { int row = T->L[a]; CHECK(row >= 0 && row < F->q && !seen[row], "index of 0x%x is %d%s", a, row, row >= 0 && row < F->q ? " (taken twice)" : ""); seen[row] = 1;
    if (a % every) continue;
    for (int j = c; j < n; j++) CHECK(raw(T->T, w, row, j) == fe_mul(F, a, AT(A, r, j)), "multiple 0x%x of row %d: column %d is 0x%x, expected 0x%x", a, r, j, raw(T->T, w, row, j), fe_mul(F, a, AT(A, r, j)));
    if (used) CHECK(!(T->T->x->rows[row][last] >> used), "padding of table row %d is not zero", row); }
  mc_states((F->q + every - 1) / every);
}
static void table(const Fld *F, int m, int n, int r, int c, int place, int pat, int every) {
  Mat *A = mat_pat(F, m, n, pat); PM *a = pm_new(F, A, place); mc_trans(1);
  mc_sub("fresh table of row %d column %d of %dx%d %s", r, c, m, n, place_name[place]);
  njt_mzed_t *T = mzed_make_table(NULL, a->m, r, c); CHECK(T, "no table"); look(F, T, A, r, c, every); pm_check(a, A, "source of the table");
  /* reuse: other row, columns further right, further left, the same */
  int cs[] = {c, n - 1, 0, c / 2, (c + n) / 2, n - 1, c};
  for (int i = 0; i < 7; i++) { int rr = (r + i) % m; mc_sub("table of row %d column %d reused for row %d column %d, %dx%d %s", (r + i - 1) % m, i ? cs[i - 1] : c, rr, cs[i], m, n, place_name[place]);
    njt_mzed_t *U = mzed_make_table(T, a->m, rr, cs[i]); CHECK(U == T, "another table returned"); look(F, T, A, rr, cs[i], F->q <= 64 ? 1 : every * 3); mc_trans(1); }
  /* the same row of the same object, with one element changed in between */
  int few = n <= 12 || (mc_tier == 2 && F->k <= 8) ? n : 7; E add = F->q - 1;
  for (int t = 0; t < few; t++) { int j = few == n ? t : t == 0 ? 0 : t == 1 ? n - 1 : t == 2 ? n - 2 : t == 3 ? c : (long)n * (t - 3) / 5; if (j < 0 || j >= n) continue;
    mc_sub("table of row %d column %d reused after element %d of the row changed, %dx%d %s", r, c, j, m, n, place_name[place]);
    AT(A, r, j) ^= add; a->m->x->rows[r][j / F->epw] ^= (word)add << j % F->epw * F->w; mzed_make_table(T, a->m, r, c); look(F, T, A, r, c, F->q <= 64 ? 1 : every * 5); mc_trans(1); }
  pm_check(a, A, "source of the table"); njt_mzed_free(T); pm_free(a);
}
/* nt tables for columns sc..sc+nt-1; every row of [s,e) gets the combination its own old entries select */
static void update(const Fld *F, int m, int n, int sc, int nt, int s, int e, int place, int pat, int history) {
  if (sc + nt > n) return;
  Mat *M = mat_pat(F, m, n, pat), *S = mat_pat(F, nt, n, 4 + (pat + nt) % 4), *X = mat_dup(M);
  PM *p = pm_new(F, M, place), *q = pm_new(F, S, (place + 1) % NPLACE); njt_mzed_t *T[6];
  mc_sub("%d tables, column %d, rows %d..%d of %dx%d %s, table history %d", nt, sc, s, e, m, n, place_name[place], history); mc_trans(1);
  for (int i = 0; i < nt; i++) { T[i] = njt_mzed_init(F->ff, n); if (history) mzed_make_table(T[i], q->m, (i + 1) % nt, history == 1 ? 0 : sc / 2); if (history == 3) mzed_make_table(T[i], q->m, i, n - 1); mzed_make_table(T[i], q->m, i, sc + i);
    Mat *R = masked(F, S, i, sc + i); for (int r = s; r < e; r++) { E x = AT(M, r, sc + i); for (int j = 0; j < n; j++) AT(X, r, j) ^= fe_mul(F, x, AT(R, 0, j)); } }
  switch (nt) {
  case 1: mzed_process_rows(p->m, s, e, sc, T[0]); break;
  case 2: mzed_process_rows2(p->m, s, e, sc, T[0], T[1]); break;
  case 3: mzed_process_rows3(p->m, s, e, sc, T[0], T[1], T[2]); break;
  case 4: mzed_process_rows4(p->m, s, e, sc, T[0], T[1], T[2], T[3]); break;
  case 5: mzed_process_rows5(p->m, s, e, sc, T[0], T[1], T[2], T[3], T[4]); break;
  default: mzed_process_rows6(p->m, s, e, sc, T[0], T[1], T[2], T[3], T[4], T[5]);
  }
  pm_check(p, X, "row update"); pm_check(q, S, "source of the tables");
  for (int i = 0; i < nt; i++) njt_mzed_free(T[i]);
  pm_free(p); pm_free(q);
}
/* the same matrix, eliminated by its own leading rows, as the echelon form does */
static void own(const Fld *F, int m, int n, int sc, int nt, int place, int pat) {
  if (sc + nt > n || nt > m) return;
  Mat *M = mat_pat(F, m, n, pat); for (int i = 0; i < nt; i++) for (int j = 0; j < nt; j++) AT(M, i, sc + j) = i == j;
  Mat *X = mat_dup(M); for (int r = nt; r < m; r++) for (int i = 0; i < nt; i++) { E x = AT(M, r, sc + i); for (int j = sc + i; j < n; j++) AT(X, r, j) ^= fe_mul(F, x, AT(M, i, j)); }
  PM *p = pm_new(F, M, place); njt_mzed_t *T[6]; mc_sub("elimination with %d own rows, column %d of %dx%d %s", nt, sc, m, n, place_name[place]); mc_trans(1);
  for (int i = 0; i < nt; i++) T[i] = mzed_make_table(NULL, p->m, i, sc + i);
  switch (nt) {
  case 1: mzed_process_rows(p->m, nt, m, sc, T[0]); break;
  case 2: mzed_process_rows2(p->m, nt, m, sc, T[0], T[1]); break;
  case 3: mzed_process_rows3(p->m, nt, m, sc, T[0], T[1], T[2]); break;
  case 4: mzed_process_rows4(p->m, nt, m, sc, T[0], T[1], T[2], T[3]); break;
  case 5: mzed_process_rows5(p->m, nt, m, sc, T[0], T[1], T[2], T[3], T[4]); break;
  default: mzed_process_rows6(p->m, nt, m, sc, T[0], T[1], T[2], T[3], T[4], T[5]);
  }
  for (int r = nt; r < m; r++) for (int i = 0; i < nt; i++) CHECK(!AT(X, r, sc + i), "model");
  pm_check(p, X, "elimination"); for (int i = 0; i < nt; i++) njt_mzed_free(T[i]); pm_free(p);
}
PROPERTY(C17) {
  for (int k = 2; k <= 16; k++) {
    Fld *F = field(k, 0), *G = field(k, -1); int e = F->epw;
    int cs[] = {1, 2, 3, e - 1, e, e + 1, 2 * e, 2 * e + 1, 3 * e, 7 * e + 1, 8 * e, 8 * e + 1, 9 * e, 10 * e - 1, 12 * e + 1};
    for (int ci = 0; ci < 15; ci++) for (int place = 0; place < NPLACE; place++) { int n = cs[ci]; if (n < 1) continue; if (k > 10 && mc_tier < 2 && (ci * 4 + place + k) % (k > 13 ? 7 : 3)) continue; if (mc_tier == 0 && (ci + place + k) % (k > 10 ? 9 : 4)) continue; if (n * F->q > 2000000 && mc_tier < 2) continue;
      if (CASE("k=%d table of %d columns %s", k, n, place_name[place])) {
        int starts[64], ns = 0; for (int c = 0; c < n && ns < 60; c++) { if (n <= TIER(3, 9, 33) || c % e == 0 || c % e == e - 1 || c == n - 1) if (k <= 10 || ns < 3 || c == n - 1) starts[ns++] = c; }
        for (int i = 0; i < ns; i++) { if (mc_tier < 2 && k > 8 && (i + place) % 2 && i) continue; table((i & 1) ? G : F, 3, n, i % 3, starts[i], place, 4 + i % 4, k > 12 ? 17 : 1); } } }
    /* row updates: number of tables, start column, row range, placement, history */
    int ws[] = {6, 7, e, e + 1, e + 5, 2 * e, 2 * e + 1, 3 * e + 2, 5 * e, 8 * e + 3, 9 * e + 1, 11 * e};
    for (int wi = 0; wi < 12; wi++) for (int nt = 1; nt <= 6; nt++) { int n = ws[wi], id = wi * 7 + nt * 3 + k; if (mc_tier == 0 && id % (k > 8 ? 31 : 5)) continue; if (k > 10 && mc_tier < 2 && id % (k > 13 ? 11 : 5)) continue; if (k > 13 && mc_tier == 2 && id % 3) continue;
      if (CASE("k=%d %d columns %d tables", k, n, nt)) {
        int scs[] = {0, 1, 2, e - 2, e - 1, e, e + 1, 2 * e - 3, 2 * e - 1, 2 * e, n - nt, n - nt - 1, n / 2, 8 * e - 1, 8 * e};
        for (int i = 0; i < 15; i++) { int sc = scs[i]; if (sc < 0 || sc + nt > n || (k > 10 && i % 4 != id % 4)) continue;
          static const int rg[][2] = {{0, 9}, {0, 1}, {8, 9}, {3, 3}, {2, 7}, {1, 8}};
          for (int g = 0; g < 6; g++) for (int pl = 0; pl < NPLACE; pl++) { if ((k > 6 || mc_tier < 2) && (g + pl + i) % (k > 10 ? 24 : k > 6 ? 8 : 3)) continue; update(F, 9, n, sc, nt, rg[g][0], rg[g][1], pl, 3 + (g + pl + i) % 6, (g + i + pl) % 4); }
          own(i % 3 ? F : G, 8 + i, n, sc, nt, (i + nt) % NPLACE, 4 + i % 4); if (k <= 10) own(F, 70, n, sc, nt, (i + nt + 1) % NPLACE, 4); } } }
    /* structured sources and targets: zero rows and coefficients, high or low coefficients only, equal rows, single coefficients; long and tall operands */
    for (int pat = NPAT - 1; pat < NSTRUCT; pat++) { if (mc_tier == 0 && (pat + k) % 6) continue; if (k > 10 && mc_tier == 1 && (pat + k) % 5) continue; if (CASE("k=%d structured %d", k, pat)) for (int s = 0; s < TIER(1, k <= 8 ? 4 : 2, 8); s++) {
      int id = pat * 7 + s * 5 + k, n = s % 4 == 0 ? 7 : s % 4 == 1 ? e + 3 : s % 4 == 2 ? 3 * e + 1 : 9 * e + 2, m = 9 + s, p = pat == NPAT - 1 ? P_BIT + (int)((long)m * n * F->k * (id % 12 + 1) / 12) - 1 : pat;
      table(F, 3, n, s % 3, id % n, id % 4, p, k > 12 ? 17 : 1);
      for (int nt = 1; nt <= 6; nt++) if (k <= 10 || nt == 1 + id % 6) { int sc = (id * nt) % (n - nt + 1); update(id % 2 ? F : G, m, n, sc, nt, nt % 2, m - nt % 3, (id + nt) % 4, p, (id + nt) % 4); own(F, m, n, sc, nt, (id + nt) % 4, p); } } }
    /* longer than 2^16 in one direction */
    if (LONG(k) && k <= 8 && CASE("k=%d long tables", k)) { table(F, 2, 70000, 1, 66000, k % 2, 4, 1 + k * k / 8); for (int nt = 1; nt <= 6; nt++) { if (k < 5 || nt % 2 == k % 2) update(F, 3, 70000, 66000, nt, 0, 3, nt % 2, 4, nt % 4); update(G, 70000, 7, 0, nt, nt % 2, 70000 - nt % 3, nt % 2, 4, nt % 4); } }
    { static const int lg[][2] = {{3, 700}, {300, 20}, {130, 150}}; for (int s = 0; s < 3; s++) if ((mc_tier == 2 || (mc_tier == 1 && (k <= 6 || (s + k) % 3 == 0))) && k <= 12 && CASE("k=%d large %dx%d", k, lg[s][0], lg[s][1])) { int m = lg[s][0], n = lg[s][1];
      if (k <= 10) table(F, m, n, m - 1, n / 3, s, 4, k > 8 ? 7 : 1);
      for (int nt = 1; nt <= 6; nt++) if (k <= 8 || nt == 1 + (k + s) % 6) { update(F, m, n, (n - nt) * nt / 6, nt, 0, m, (nt + s) % 4, 4, nt % 4); own(G, m, n, (n - nt) * (nt - 1) / 5, nt, (nt + s) % 4, 5); } } }
  }
}

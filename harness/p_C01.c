/* C01: field arithmetic against shift-and-xor multiplication. */
#include "mc.h"

/* a * x modulo f, one step */
static inline uint32_t mulx(uint32_t a, uint32_t poly, int k) { a <<= 1; if (a >> k & 1) a ^= poly; return a; }

static gf2e *mk(int k, int idx) {
  gf2e *ff = gf2e_init(mdl_irr[k][idx]); mc_trans(1);
  CHECK(ff != NULL, "gf2e_init returned NULL");
  CHECK(ff->degree == k, "degree is %d, not %d", (int)ff->degree, k);
  CHECK(ff->minpoly == mdl_irr[k][idx], "minpoly changed");
  int w = k == 2 ? 2 : k <= 4 ? 4 : k <= 8 ? 8 : 16;
  CHECK((int)gf2e_degree_to_w(ff) == w, "storage width is %d", (int)gf2e_degree_to_w(ff));
  return ff;
}
static void check_basis(const gf2e *ff, int k, int all) {
  uint32_t f = ff->minpoly, q = 1u << k;
  for (uint32_t a = 0; a < q; a++) {
    uint32_t e = a;
    for (int i = 0; i < k; i++) {
      word r = ff->mul(ff, a, 1u << i), s = all ? _gf2e_mul_arith(ff, a, 1u << i) : r, t = all ? gf2e_mul(ff, 1u << i, a) : r;
      if (r != e || s != e || t != e) mc_fail("0x%x * 0x%x modulo 0x%x: ff->mul 0x%llx, arith 0x%llx, gf2e_mul 0x%llx, must be 0x%x", a, 1u << i, f, (unsigned long long)r, (unsigned long long)s, (unsigned long long)t, e);
      e = mulx(e, f, k);
    }
  }
  mc_trans((all ? 3ull : 1ull) * q * k); mc_states((uint64_t)q * k);
  uint32_t e = 1;
  for (int i = 0; i < 2 * k - 1; i++) { CHECK(ff->pow_gen[i] == e, "X^%d reduced modulo 0x%x is tabulated as 0x%llx, must be 0x%x", i, f, (unsigned long long)ff->pow_gen[i], e); e = mulx(e, f, k); }
}
static void check_pairs(const gf2e *ff, int k, uint32_t lo, uint32_t hi) {
  uint32_t f = ff->minpoly, q = 1u << k;
  uint16_t *row = ar_alloc(q * 2);
  for (uint32_t a = lo; a < hi; a++) {
    row[0] = 0;                                   /* linear in b: build a*b by the low bit of b */
    uint32_t p[17]; p[0] = a; for (int i = 1; i < k; i++) p[i] = mulx(p[i - 1], f, k);
    for (uint32_t b = 1; b < q; b++) row[b] = row[b & (b - 1)] ^ p[__builtin_ctz(b)];
    for (uint32_t b = 0; b < q; b++) {
      word r = ff->mul(ff, a, b), s = _gf2e_mul_arith(ff, a, b), t = gf2e_mul(ff, a, b);
      if (r != row[b] || s != row[b] || t != row[b]) mc_fail("0x%x * 0x%x modulo 0x%x: ff->mul 0x%llx, arith 0x%llx, gf2e_mul 0x%llx, must be 0x%x", a, b, f, (unsigned long long)r, (unsigned long long)s, (unsigned long long)t, row[b]);
    }
    if (k <= 8) for (uint32_t b = 0; b < q; b++) CHECK(_gf2e_mul_table(ff, a, b) == row[b], "table product 0x%x * 0x%x modulo 0x%x", a, b, f);
  }
  mc_trans(3ull * q * (hi - lo)); mc_states((uint64_t)q * (hi - lo));
}
static void check_inv(const gf2e *ff, int k, uint32_t step) {
  uint32_t q = 1u << k;
  for (uint32_t a = 1; a < q; a += step) {
    word x = ff->inv(ff, a), y = gf2e_inv(ff, a);
    if (x != y || x >= q || mdl_clmul_mod(a, x, ff->minpoly, k) != 1) mc_fail("inverse of 0x%x modulo 0x%llx: ff->inv 0x%llx, gf2e_inv 0x%llx", a, (unsigned long long)ff->minpoly, (unsigned long long)x, (unsigned long long)y);
  }
  mc_trans(2ull * (q / step)); mc_states(q / step);
}
/* pairs with a relation between the operands (equal, complementary, neighbours, shifted) and a list of fixed second operands, for every first operand */
static void check_rel(const gf2e *ff, int k, uint32_t step) {
  uint32_t f = ff->minpoly, q = 1u << k, m = q - 1, fx[] = {m, m >> 1, q >> 1, (q >> 1) | 1, 0x5555 & m, 0xaaaa & m, 0x00ff & m, 0xff00 & m, 0x3333 & m, f & m, 3, 0x0f0f & m};
  for (uint32_t a = 0; a < q; a += step) { uint32_t b[32]; int n = 0; b[n++] = a; b[n++] = a ^ m; b[n++] = a ^ 1; b[n++] = a << 1 & m; b[n++] = a >> 1; b[n++] = (a + 1) & m; b[n++] = mulx(a, f, k); b[n++] = a ^ q >> 1;
    for (unsigned i = 0; i < sizeof fx / sizeof *fx; i++) b[n++] = fx[i];
    for (int i = 0; i < n; i++) { uint32_t e = mdl_clmul_mod(a, b[i], f, k); word r = ff->mul(ff, a, b[i]), s = _gf2e_mul_arith(ff, b[i], a);
      if (r != e || s != e) mc_fail("0x%x * 0x%x modulo 0x%x: ff->mul 0x%llx, arith (exchanged) 0x%llx, must be 0x%x", a, b[i], f, (unsigned long long)r, (unsigned long long)s, e); } }
  mc_trans(40ull * (q / step)); mc_states(20ull * (q / step));
}
static void check_t16(const gf2e *ff, int k, uint32_t a) {
  int w = gf2e_degree_to_w(ff); uint32_t q = 1u << k, n = 16 / w;
  word *t = gf2e_t16_init(ff, a); mc_trans(1);
  uint16_t *row = ar_alloc(q * 2); row[0] = 0;
  uint32_t p[17]; p[0] = a; for (int i = 1; i < k; i++) p[i] = mulx(p[i - 1], ff->minpoly, k);
  for (uint32_t b = 1; b < q; b++) row[b] = row[b & (b - 1)] ^ p[__builtin_ctz(b)];
  for (uint32_t i = 0; i < 65536; i++) {
    uint32_t e = 0; int ok = 1;
    for (uint32_t j = 0; j < n; j++) { uint32_t v = i >> (j * w) & ((1u << w) - 1); if (v >= q) { ok = 0; break; } e |= (uint32_t)row[v] << (j * w); }
    if (ok && t[i] != e) mc_fail("scalar table of 0x%x: entry 0x%x is 0x%llx, must be 0x%x", a, i, (unsigned long long)t[i], e);
  }
  mc_states(65536);
  gf2e_t16_free(t);
}
PROPERTY(C01) {
  for (int k = 2; k <= 16; k++) for (int idx = 0; idx < mdl_nirr[k]; idx++) {
    if (mc_tier == 0 && idx != 0 && idx != mdl_nirr[k] - 1) continue;
    if (mc_tier == 0 && k > 12 && idx) continue;
    if (CASE("k=%d minpoly=0x%x products by a basis, all inverses", k, mdl_irr[k][idx])) {
      gf2e *ff = mk(k, idx);
      check_basis(ff, k, k < 12 || mc_tier == 2 || idx % 8 == 0);
      if (k <= 8) check_pairs(ff, k, 0, 1u << k); else check_rel(ff, k, mc_tier == 2 ? 1 : mc_tier == 0 ? 101 : k > 12 ? (idx % 16 == 0 ? 1 : 7) : 1);
      if (k <= 11 || mc_tier == 2 || idx % 6 == 0) check_inv(ff, k, 1);
      else check_inv(ff, k, 61);
      gf2e_free(ff); mc_trans(1);
    }
  }
  for (int k = 9; k <= TIER(9, 16, 16); k++) for (int v = 0; v < TIER(2, k > 14 ? 1 : 2, 3); v++) {
    int idx = v == 2 ? mdl_nirr[k] / 3 : v ? mdl_nirr[k] - 1 : 0;
    for (uint32_t lo = 0; lo < 1u << k; lo += 512) if (CASE("k=%d minpoly=0x%x all products, left operand 0x%x..0x%x", k, mdl_irr[k][idx], lo, lo + 511)) {
      gf2e *ff = mk(k, idx); check_pairs(ff, k, lo, lo + 512); gf2e_free(ff);
    }
  }
  for (int k = 2; k <= 16; k++) for (int v = 0; v < 3; v++) {
    int idx = v == 0 ? 0 : v == 1 ? mdl_nirr[k] - 1 : mdl_nirr[k] / 2;
    if (v && mdl_nirr[k] == 1) continue;
    uint32_t q = 1u << k, step = k <= TIER(4, 6, 8) ? 1 : q / TIER(4, 29, 211) + 1;
    if (CASE("k=%d minpoly=0x%x scalar tables", k, mdl_irr[k][idx])) {
      gf2e *ff = mk(k, idx);
      for (uint32_t a = 0; a < q; a += step) { check_t16(ff, k, a); }
      check_t16(ff, k, q - 1); check_t16(ff, k, q >> 1);
      gf2e_free(ff);
    }
  }
  /* fields built and freed around another one leave it as it was */
  for (int k1 = 2; k1 <= 11; k1++) for (int k2 = 2; k2 <= 16; k2++)
    if (CASE("field of degree %d while fields of degree %d come and go", k1, k2)) {
      gf2e *g0 = mk(k2, 0), *ff = mk(k1, mdl_nirr[k1] - 1);
      check_basis(ff, k1, 1);
      gf2e *g1 = mk(k2, mdl_nirr[k2] - 1); check_basis(ff, k1, 1);
      gf2e_free(g0); check_basis(ff, k1, 1); check_inv(ff, k1, 1);
      gf2e_free(g1); check_basis(ff, k1, 1); if (k1 <= 8) check_pairs(ff, k1, 0, 1u << k1);
      gf2e_free(ff);
    }
  /* the same arguments again in another field: next to the first one, or built after it was freed (at the same address, as a rule) */
  for (int k = 2; k <= 16; k++) for (int how = 0; how < 3; how++) if (CASE("k=%d same arguments in one field after the other, order %d", k, how)) {
    uint32_t q = 1u << k; int n = TIER(20, 120, 1000), o = 0; E v[64]; int nv = 0; for (int i = 0; i < 24; i++) { E a = i < k ? 1u << i : i == 22 ? q - 1 : i == 23 ? 3 % q : mc_hash(i, k, how, 9) & (q - 1); if (a) v[nv++] = a; }
    for (int t = 0; t < n; t++) { int i1 = (t * 7) % mdl_nirr[k], i2 = (i1 + 1 + t % 5) % mdl_nirr[k]; E a = v[t % nv], b = v[(t * 5 + 1) % nv]; if (k == 2 || t % 11 == 10) i2 = i1;
      for (int op = 0; op < 4; op++) { gf2e *f = mk(k, i1), *g = how ? NULL : mk(k, i2), *h = f;
        for (int s = 0; s < 2 + (how < 2); s++) { if (how && s) { gf2e_free(h); h = how == 2 && s == 1 && t % 3 == 0 && k < 16 ? mk(k + 1, i1) : mk(k, s == 2 ? i1 : i2); } else if (!how) h = s == 1 ? g : f;
          uint32_t p = h->minpoly; int d = h->degree; mc_trans(1); mc_states(1); mc_sub("operation %d, 0x%x and 0x%x modulo 0x%x, step %d", op, a, b, p, s);
          if (op == 0) { word x = gf2e_inv(h, a); CHECK(x < 1u << d && mdl_clmul_mod(a, x, p, d) == 1, "inverse 0x%llx", (unsigned long long)x); }
          else if (op == 1) { word x = h->inv(h, a); CHECK(x < 1u << d && mdl_clmul_mod(a, x, p, d) == 1, "inverse 0x%llx", (unsigned long long)x); }
          else if (op == 2) { word x = h->mul(h, a, b); CHECK(x == mdl_clmul_mod(a, b, p, d), "product 0x%llx", (unsigned long long)x); }
          else if (t % 8 == 0) { check_t16(h, d, a); } else { word x = gf2e_mul(h, a, b); CHECK(x == mdl_clmul_mod(a, b, p, d), "product 0x%llx", (unsigned long long)x); x = _gf2e_mul_arith(h, a, b); CHECK(x == mdl_clmul_mod(a, b, p, d), "product 0x%llx", (unsigned long long)x); } o++; }
        if (how) gf2e_free(h); else { gf2e_free(f); gf2e_free(g); } } } }
  /* many fields alive at once: each stays what it is while others are built and freed in several orders */
  for (int ord = 0; ord < 4; ord++) if (CASE("hundreds of fields alive, order %d", ord)) {
    static gf2e *ff[600]; static int kk[600]; int n = 0;
    for (int r = 0; r < (ord == 3 ? 2 : 1); r++) for (int k0 = 2; k0 <= 16; k0++) { int k = ord == 1 ? 18 - k0 : k0; int cnt = k <= 10 ? mdl_nirr[k] : 6; for (int i = 0; i < cnt; i++) { if (ord == 2 && (i + k) % 3) continue; ff[n] = mk(k, i); kk[n++] = k; } }
    for (int i = 0; i < n; i++) check_basis(ff[i], kk[i], 1);
    for (int i = ord & 1; i < n; i += 2) { gf2e_free(ff[i]); ff[i] = NULL; }
    for (int i = n - 1; i >= 0; i--) if (ff[i]) check_basis(ff[i], kk[i], kk[i] <= 12);
    for (int i = ord & 1, t = 0; i < n; i += 2, t++) if (t % 2) ff[i] = mk(kk[i], t % (kk[i] <= 10 ? mdl_nirr[kk[i]] : 6));
    for (int i = 0; i < n; i++) if (ff[i]) check_basis(ff[i], kk[i], kk[i] <= 12);
    for (int i = 0; i < n; i++) if (ff[i]) gf2e_free(ff[i]);
  }
}

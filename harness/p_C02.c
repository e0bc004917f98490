/* C02: word polynomials over GF(2) and the table of irreducible polynomials. */
#include "mc.h"
typedef unsigned __int128 u128;
static int deg64(word a) { int d = -1; while (a) { d++; a >>= 1; } return d; }
static word mul64(word a, word b) { word r = 0; for (; b; b >>= 1, a <<= 1) if (b & 1) r ^= a; return r; }
static void dm64(word a, word b, word *q, word *r) {
  int db = deg64(b); *q = 0;
  for (int d = deg64(a); d >= db; d--) if (a >> d & 1) { *q |= 1ull << (d - db); a ^= b << (d - db); }
  *r = a;
}
static word pats[400]; static int npats;
static void mkpats(void) {
  npats = 0;
  for (int i = 0; i < 64; i++) { pats[npats++] = 1ull << i; pats[npats++] = (i == 63 ? ~0ull : (2ull << i) - 1); pats[npats++] = (1ull << i) | 1; }
  for (int i = 1; i < 64; i++) pats[npats++] = mc_hash(i, 1, 2, 3) >> (i % 61);
  for (int i = 0; i < 60; i++) pats[npats++] = 0xb5ull << i >> (i % 3);
  pats[npats++] = 0; pats[npats++] = 0x8000000080000001ull; pats[npats++] = 0xaaaaaaaaaaaaaaaaull; pats[npats++] = 0x5555555555555555ull;
}
static void divs(word a, word b) {
  word q, r, rr = 77; dm64(a, b, &q, &r);
  word gq = gf2x_div(a, b), gr = gf2x_mod(a, b), gd = gf2x_divmod(a, b, &rr);
  mc_trans(3); mc_states(1);
  CHECK(gq == q, "0x%llx div 0x%llx is 0x%llx, must be 0x%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)gq, (unsigned long long)q);
  CHECK(gr == r, "0x%llx mod 0x%llx is 0x%llx, must be 0x%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)gr, (unsigned long long)r);
  CHECK(gd == q && rr == r, "divmod of 0x%llx by 0x%llx is (0x%llx, 0x%llx), must be (0x%llx, 0x%llx)", (unsigned long long)a, (unsigned long long)b, (unsigned long long)gd, (unsigned long long)rr, (unsigned long long)q, (unsigned long long)r);
}
PROPERTY(C02) {
  mkpats();
  for (int k = 1; k <= 16; k++) if (CASE("irreducible polynomials of degree %d", k)) {
    const word *t = irreducible_polynomials[k];
    CHECK(t[0] == (word)mdl_nirr[k], "count is %llu, must be %d", (unsigned long long)t[0], mdl_nirr[k]);
    for (int i = 0; i < mdl_nirr[k]; i++) CHECK(t[1 + i] == mdl_irr[k][i], "entry %d is 0x%llx, must be 0x%x", i, (unsigned long long)t[1 + i], mdl_irr[k][i]);
    mc_states(mdl_nirr[k]);
  }
  for (int hi = 0; hi < 64; hi++) if (CASE("degree of words with top bit %d", hi)) {
    for (uint32_t v = 0; v < 4096; v++) { word a = hi < 12 ? (v & ((1u << hi) - 1)) | 1ull << hi : 1ull << hi | (word)v << (hi - 12) ; a |= hi >= 12 ? mc_hash(v, hi, 0, 0) & ((1ull << (hi - 12)) - 1) : 0;
      CHECK(gf2x_deg(a) == deg64(a), "degree of 0x%llx is %d", (unsigned long long)a, gf2x_deg(a)); }
    mc_trans(4096); mc_states(4096);
  }
  int B = TIER(7, 13, 15);
  for (int d = 1; d <= B; d++) if (CASE("all products, degree bound %d", d)) {
    for (word a = 0; a < 1ull << d; a++) for (word b = 0; b < 1ull << d; b++) { word r = gf2x_mul(a, b, d); if (r != mul64(a, b)) mc_fail("0x%llx * 0x%llx with bound %d is 0x%llx", (unsigned long long)a, (unsigned long long)b, d, (unsigned long long)r); }
    mc_trans(1ull << 2 * d); mc_states(1ull << 2 * d);
  }
  for (int d = 1; d <= 32; d++) if (CASE("structured products, degree bound %d", d)) {
    word m = d == 64 ? ~0ull : (1ull << d) - 1;
    for (int i = 0; i < npats; i++) for (int j = 0; j < npats; j++) { word a = pats[i] & m, b = pats[j] & m, r = gf2x_mul(a, b, d); CHECK(r == mul64(a, b), "0x%llx * 0x%llx with bound %d is 0x%llx", (unsigned long long)a, (unsigned long long)b, d, (unsigned long long)r); }
    mc_trans(npats * npats); mc_states(npats * npats);
  }
  int D = TIER(7, 12, 13);
  for (int i = 1; i < 1 << D; i++) if ((i & 15) == 1 && CASE("all divisions by 0x%x..0x%x", i, i + 15))
    for (int b = i; b < i + 16 && b < 1 << D; b++) for (int a = 0; a < 1 << D; a++) divs(a, b);
  for (int i = 0; i < npats; i++) if (pats[i] && CASE("structured divisions by 0x%llx", (unsigned long long)pats[i]))
    for (int j = 0; j < npats; j++) divs(pats[j], pats[i]);
  for (int k = 2; k <= 16; k++) for (int v = 0; v < TIER(1, k <= 12 ? mdl_nirr[k] : 100, mdl_nirr[k]); v++) {
    int idx = mc_tier == 2 || (mc_tier == 1 && k <= 12) ? v : (int)((uint64_t)v * 997 % mdl_nirr[k]); if (v && v >= mdl_nirr[k]) continue;
    if (CASE("inverses modulo 0x%x", mdl_irr[k][idx])) {
      for (uint32_t a = 1; a < 1u << k; a++) { word x = gf2x_invmod(a, mdl_irr[k][idx], k);
        if (x >= 1u << k || mdl_clmul_mod(a, x, mdl_irr[k][idx], k) != 1) mc_fail("inverse of 0x%x modulo 0x%x is 0x%llx", a, mdl_irr[k][idx], (unsigned long long)x); }
      mc_trans(1u << k); mc_states(1u << k);
    }
  }
  /* inverses modulo every polynomial, for every operand without a common factor and every degree bound that covers both */
  int I = TIER(5, 9, 11);
  for (int b = 2; b < 1 << I; b++) if ((b & 3) == 2 && CASE("inverses modulo every polynomial 0x%x..0x%x", b, b + 3))
    for (int m = b; m < b + 4; m++) for (int a = 1; a < 1 << I; a++) { word g = a, h = m, q, r; while (h) { dm64(g, h, &q, &r); g = h; h = r; } if (g != 1) continue;
      int d0 = deg64(a | m); for (int d = d0; d <= I; d += d == d0 ? 1 : 3) { word x = gf2x_invmod(a, m, d); dm64(mul64(x, a), m, &q, &r);
        CHECK(r == 1 && deg64(x) < deg64(m), "inverse of 0x%x modulo 0x%x with bound %d is 0x%llx", a, m, d, (unsigned long long)x); mc_trans(1); mc_states(1); } }
}

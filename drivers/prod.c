/* C01 monitor: every product procedure of every implementation against the
 * schoolbook negacyclic product, online, on hostile inputs. */
#include "gen.h"
#include <unistd.h>

static impl_t impls[4];
static rng_t R;
static uint64_t hist[64];

static int32_t pa[2048], pb[2048], ref[2048];
static uint32_t invn_cache[2049];

/* one shared placement area, so alignment varies from call to call */
static int32_t area[3][1024 + 64];
static uint64_t nth;

static void check_all(uint32_t n, const char *what) {
  ref_negacyclic(ref, pa, pb, n);
  for (int im = 0; im < 4; im++) {
    for (const prod_t *p = impls[im].prods; p->name; p++) {
      if (p->n != n) continue;
      uint64_t z = nth++ * 0x9E3779B97F4A7C15ull;
      int32_t *c = area[0] + (z >> 61), *a = area[1] + ((z >> 58) & 7), *b = area[2] + ((z >> 55) & 7);
      memcpy(a, pa, 4 * n); memcpy(b, pb, 4 * n);
      for (uint32_t i = 0; i < n; i++) c[i] = (int32_t) (z + i * 0x01000193u);
      OP("%s on %s", p->name, what);
      p->f(c, a, b);
      if (memcmp(c, ref, 4 * n)) {
        for (uint32_t i = 0; i < n; i++) if (c[i] != ref[i]) {
          viol(p->name, "coefficient %u: got %d, exact product has %d; input class %s; a[0..3]=%d,%d,%d,%d b[0..3]=%d,%d,%d,%d seed=%llu shard=%d",
               i, c[i], ref[i], what, pa[0], pa[1], pa[2], pa[3], pb[0], pb[1], pb[2], pb[3], (unsigned long long) H_seed, H_shard);
          break;
        }
      }
      hist[im]++;
    }
  }
  uint64_t h = hash_bytes(pa, 4 * n, n); h = hash_bytes(pb, 4 * n, h);
  int nz = 0; for (uint32_t i = 0; i < n; i++) nz |= ref[i];
  case_seen(h, nz != 0);
  if (nth < 200) sample("n=%u %s: a=[%d,%d,%d,..] b=[%d,%d,%d,..] c=[%d,%d,%d,..]", n, what, pa[0], pa[1], pa[2], pb[0], pb[1], pb[2], ref[0], ref[1], ref[2]);
}

/* NTT-domain helpers (oracle side): a <- polynomial whose values at psi^(2k+1) are v[k] */
static void from_values(int32_t *a, const uint32_t *v, uint32_t n, uint32_t psi) {
  uint32_t in[n], out[n];
  for (uint32_t i = 0; i < n; i++) in[i] = v[i];
  ref_ntt(out, in, n, invq((uint32_t)((uint64_t) psi * psi % Q)));
  uint64_t z = invq(n), ip = invq(psi);
  for (uint32_t i = 0; i < n; i++) { a[i] = (int32_t)(out[i] * z % Q); z = z * ip % Q; }
}
static void to_values(uint32_t *v, const int32_t *a, uint32_t n, uint32_t psi) {
  uint32_t in[n]; uint64_t z = 1;
  for (uint32_t i = 0; i < n; i++) { in[i] = (uint32_t)(a[i] * z % Q); z = z * psi % Q; }
  ref_ntt(v, in, n, (uint32_t)((uint64_t) psi * psi % Q));
}

static const int16_t *dummy;
int main(int argc, char **argv) {
  h_init(argc, argv); h_watch("C01");
  impls[0] = impl_std; impls[1] = impl_naive; impls[2] = impl_red; impls[3] = impl_asm_full();
  rng_seed(&R, 1);
  static const uint32_t sizes[4] = { 16, 256, 512, 1024 };
  uint64_t counts[4];
  if (H_thorough) { counts[0] = 12000000; counts[1] = 400000; counts[2] = 140000; counts[3] = 48000; }
  else { counts[0] = 1000000; counts[1] = 32000; counts[2] = 12000; counts[3] = 4000; }

  for (int s = 0; s < 4; s++) {
    uint32_t n = sizes[s], psi = 0;
    for (const par_t *p = impl_red.pars; p->n; p++) if (p->n == n) psi = (uint32_t) p->psi;
    /* climbing towards extreme transform outputs: {twist+CT, twist+GS, combined} x {centred, raw} */
    adv_t adv[6]; static int16_t atab[4][1024];
    {
      uint32_t t[1024], om = (uint32_t)((uint64_t) psi * psi % Q);
      static const int vk[3] = { K_TREV, K_GS, K_TREV | K_PRE };
      for (int q = 0; q < 3; q++) { def_table(t, n, q == 2 ? psi : 1, om, q != 1, 8193); for (uint32_t i = 0; i < n; i++) atab[q][i] = (int16_t) shiftq(t[i]); }
      def_powers(t, n, 8193, psi); for (uint32_t i = 0; i < n; i++) atab[3][i] = (int16_t) shiftq(t[i]);
      for (int q = 0; q < 6; q++) {
        adv[q] = (adv_t) { .n = n, .kind = vk[q % 3], .p = atab[q % 3], .tw = q % 3 == 2 ? NULL : atab[3], .lo = 0, .hi = Q - 1, .centred = q < 3 };
        adv[q].m = q < 3 ? xf_matrix(n, adv[q].p, adv[q].kind) : adv[q - 3].m;
        adv_init(&adv[q]);
      }
    }
    /* adversarial matrices for the red forward transforms, composed with the psi twist */
    float *m[3];
    {
      uint32_t t[1024]; int16_t p16[1024]; uint32_t om = (uint32_t)((uint64_t) psi * psi % Q);
      def_table(t, n, 1, om, 1, 8193); for (uint32_t i = 0; i < n; i++) p16[i] = (int16_t) shiftq(t[i]);
      m[0] = xf_matrix(n, p16, K_TREV);
      def_table(t, n, 1, om, 0, 8193); for (uint32_t i = 0; i < n; i++) p16[i] = (int16_t) shiftq(t[i]);
      m[1] = xf_matrix(n, p16, K_GS);
      uint32_t w[1024]; def_powers(w, n, 8193, psi);
      for (int q = 0; q < 2; q++) for (uint32_t k = 0; k < n; k++) for (uint32_t i = 0; i < n; i++) m[q][(size_t) k * n + i] *= -(float) shiftq(w[i]) / 4096.f;
      def_table(t, n, psi, om, 1, 8193); for (uint32_t i = 0; i < n; i++) p16[i] = (int16_t) shiftq(t[i]);
      m[2] = xf_matrix(n, p16, K_TREV | K_PRE);
    }
    /* sign patterns of the inverse transforms' responses to the bit-reversed product spectrum */
    float *mi[3]; static uint32_t rev[1024]; uint32_t lgn = lg2(n);
    for (uint32_t i = 0; i < n; i++) rev[i] = brev(i, lgn);
    for (int q = 0; q < 3; q++) {
      static const int vk[3] = { K_REVIN, K_REVIN | K_TREV | K_GS, K_REVIN | K_TREV | K_GS | K_POST };
      uint32_t t[1024], om = (uint32_t)((uint64_t) psi * psi % Q); int16_t p16[1024];
      def_table(t, n, q == 2 ? invq(psi) : 1, invq(om), (vk[q] & K_TREV) != 0, 8193);
      for (uint32_t i = 0; i < n; i++) p16[i] = (int16_t) shiftq(t[i]);
      mi[q] = xf_matrix(n, p16, vk[q]);
    }
    char what[96];
    for (uint64_t it = 0; it < counts[s]; it++) {
      unsigned cls = (unsigned)(it % 16);
      if (cls < 8) { /* shape x shape, cycling through all kind pairs */
        int ka = (int)(rng_below(&R, GEN_KINDS)), kb = (int) rng_below(&R, GEN_KINDS);
        gen_vec(&R, pa, n, 0, Q - 1, ka); gen_vec(&R, pb, n, 0, Q - 1, kb);
        snprintf(what, sizeof what, "shapes %d,%d", ka, kb);
        stat_add("class_shapes", 1);
      } else if (cls == 8) {
        const adv_t *v = &adv[rng_below(&R, 6)];
        uint32_t k = rng_below(&R, 4) ? rng_below(&R, n) : 0, ev = (it / 16) % 8 ? 0 : n <= 16 ? 200 : 1500; int d = (rng_u64(&R) & 1) ? 1 : -1;
        int64_t x = adv_climb(&R, v, pa, k, d, ev), y = x;
        if (rng_u64(&R) & 1) memcpy(pb, pa, 4 * n); else y = adv_climb(&R, v, pb, k, (rng_u64(&R) & 3) ? d : -d, ev);
        if (n == 1024) { stat_max("model_max_output_n1024", x > y ? x : y); stat_min("model_min_output_n1024", x < y ? x : y); }
        snprintf(what, sizeof what, "climb %d output %u", (int)(v - adv), k);
        stat_add(ev ? "class_climb" : "class_extreme", 1);
      } else if (cls == 9) { /* drive transform intermediates to extremes */
        int q = (int) rng_below(&R, 3);
        uint32_t k = rng_below(&R, n); /* the same output of both operands is driven to an extreme (3 of 4 cases) */
        gen_adversarial_k(&R, pa, n, 0, Q - 1, m[q], k); gen_adversarial_k(&R, pb, n, 0, Q - 1, m[q], rng_below(&R, 4) ? k : rng_below(&R, n));
        if (n < 1024) { /* these sizes centre first: extremes are 6144 and 6145 */
          for (uint32_t i = 0; i < n; i++) { pa[i] = pa[i] > 6144 ? 6144 - (Q - 1 - pa[i]) : 6145 + pa[i]; pb[i] = pb[i] > 6144 ? 6144 - (Q - 1 - pb[i]) : 6145 + pb[i]; }
        }
        snprintf(what, sizeof what, "adversarial %d", q);
        stat_add("class_adversarial", 1);
      } else if (cls == 10) { /* choose the product's spectrum so that one output of the inverse transform is extreme */
        uint32_t v[1024], w[1024], k = rng_below(&R, 4) ? rng_below(&R, n) : 0, f = powq(3, rng_below(&R, 12)); int q = (int) rng_below(&R, 3), flip = (int)(rng_u64(&R) & 1);
        if (rng_u64(&R) & 1) f = invq(f);
        int32_t H = (int32_t) (Q - 1 - rng_below(&R, 8)), L = (int32_t) rng_below(&R, 8); if (rng_below(&R, 4) == 0) { H = 6144; L = 6145; }
        int jit = rng_below(&R, 3) == 0, unit = rng_below(&R, 3) == 0;
        for (uint32_t i = 0; i < n; i++) {
          int up = (mi[q][(size_t) k * n + i] > 0) ^ flip;
          uint32_t x = (uint32_t) (up ? H : L);
          if (jit) x = up ? x - rng_below(&R, 64) : x + rng_below(&R, 64);
          v[rev[i]] = unit ? 1 : 1 + rng_below(&R, Q - 1);
          w[rev[i]] = (uint32_t)((uint64_t) x * f % Q * invq(v[rev[i]]) % Q);
        }
        from_values(pa, v, n, psi); from_values(pb, w, n, psi);
        snprintf(what, sizeof what, "inverse-extreme %d output %u", q, k);
        stat_add("class_inverse_extreme", 1);
      } else if (cls == 11) { /* choose the transform-domain values */
        uint32_t v[1024], w[1024]; int32_t x[1024];
        gen_vec(&R, x, n, 0, Q - 1, (int) rng_below(&R, GEN_KINDS)); for (uint32_t i = 0; i < n; i++) v[i] = (uint32_t) x[i];
        gen_vec(&R, x, n, 0, Q - 1, (int) rng_below(&R, GEN_KINDS)); for (uint32_t i = 0; i < n; i++) w[i] = (uint32_t) x[i];
        from_values(pa, v, n, psi); from_values(pb, w, n, psi);
        snprintf(what, sizeof what, "spectral");
        stat_add("class_spectral", 1);
      } else if (cls < 14) { /* choose the result: a = c * b^-1 */
        uint32_t vc[1024], vb[1024]; int32_t x[1024];
        gen_vec(&R, x, n, 0, Q - 1, (int) rng_below(&R, GEN_KINDS));
        to_values(vc, x, n, psi);
        for (uint32_t i = 0; i < n; i++) vb[i] = 1 + rng_below(&R, Q - 1);
        from_values(pb, vb, n, psi);
        for (uint32_t i = 0; i < n; i++) vc[i] = (uint32_t)((uint64_t) vc[i] * invq(vb[i]) % Q);
        from_values(pa, vc, n, psi);
        snprintf(what, sizeof what, "targeted result");
        stat_add("class_targeted_result", 1);
      } else if (cls == 14) { /* monomials: walks over basis pairs */
        memset(pa, 0, 4 * n); memset(pb, 0, 4 * n);
        uint32_t i = rng_below(&R, n), j = rng_below(&R, n);
        pa[i] = (it & 16) ? Q - 1 : (int32_t)(1 + rng_below(&R, Q - 1)); pb[j] = (it & 32) ? Q - 1 : (int32_t)(1 + rng_below(&R, Q - 1));
        snprintf(what, sizeof what, "%d*x^%u * %d*x^%u", pa[i], i, pb[j], j);
        stat_add("class_monomial", 1);
      } else { /* unit and near-unit factor: the other operand must come back */
        gen_vec(&R, pa, n, 0, Q - 1, (int) rng_below(&R, GEN_KINDS));
        memset(pb, 0, 4 * n); pb[0] = (it & 16) ? 1 : Q - 1;
        if (it & 32) { memcpy(area[0], pa, 4 * n); memcpy(pa, pb, 4 * n); memcpy(pb, area[0], 4 * n); }
        snprintf(what, sizeof what, "unit factor");
        stat_add("class_unit", 1);
      }
      check_all(n, what);
    }
    for (int q = 0; q < 3; q++) { free(m[q]); free(mi[q]); }
    for (int q = 0; q < 6; q++) { adv_free(&adv[q]); if (q < 3) free((void *) adv[q].m); }
    char nm[32]; snprintf(nm, sizeof nm, "pairs_n%u", n); stat_add(nm, counts[s]);
  }
  for (int im = 0; im < 4; im++) { char nm[32]; snprintf(nm, sizeof nm, "products_checked_%s", impls[im].impl); stat_add(nm, hist[im]); }
  return h_finish();
}

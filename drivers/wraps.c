/* C17 monitor: the per-size wrappers, each against its definition, in
 * forward/inverse round trips, and across implementations. */
#include "xf.h"
static rng_t R;
static impl_t impls[4];
static uint64_t wcalls, trips, agree;
static uint8_t area[4 * 1024 + 64];

static void canon(int32_t *a, uint32_t n, int im, rng_t *r) {
  /* bring an output back to the input range of the next transform */
  for (uint32_t i = 0; i < n; i++) { int32_t x = modq64(a[i]); if (im >= 2) x = (rng_u64(r) & 1) ? x : shiftq((uint32_t) x); a[i] = x; }
}

int main(int argc, char **argv) {
  h_init(argc, argv); h_watch("C17");
  impls[0] = impl_std; impls[1] = impl_naive; impls[2] = impl_red; impls[3] = impl_asm_full();
  rng_seed(&R, 17);
  static const uint32_t sizes[4] = { 16, 256, 512, 1024 };
  static const uint32_t qc[4] = { 120000, 3500, 1500, 650 };
  static root_t f, g; static int32_t v[1024], w[1024]; static uint32_t vm[1024], ex[8][1024];
  for (int s = 0; s < 4; s++) {
    uint32_t n = sizes[s]; par_t P = { 0 };
    for (int im = 0; im < 4; im++) {
      const par_t *p = impls[im].pars; while (p->n && p->n != n) p++;
      if (im == 0) P = *p;
      else if (memcmp(&P, p, sizeof P)) viol("parameters", "implementations %s and std declare different parameters for n=%u (psi %d vs %d)", impls[im].impl, n, p->psi, P.psi);
      if (p->n != n || powq((uint32_t) p->psi, n) != Q - 1 || modq64((int64_t) p->psi * p->psi) != p->omega || modq64((int64_t) p->psi * p->inv_psi) != 1 ||
          modq64((int64_t) p->omega * p->inv_omega) != 1 || modq64((int64_t) n * p->inv_n) != 1)
        viol("parameters", "%s n=%u: psi=%d omega=%d inv_psi=%d inv_omega=%d inv_n=%d are inconsistent", impls[im].impl, n, p->psi, p->omega, p->inv_psi, p->inv_omega, p->inv_n);
    }
    if (H_viols) return h_finish();
    root_init(&f, n, (uint32_t) P.psi); root_init(&g, n, invq((uint32_t) P.psi));
    uint32_t cnt = qc[s] * (H_thorough ? 12 : 1);
    for (uint32_t it = 0; it < cnt; it++) {
      int kind = (int) rng_below(&R, GEN_KINDS);
      int wide = it & 1;
      if (it % 10 == 9) { memset(v, 0, sizeof v); v[(it / 10 * (uint32_t) H_nshards + (uint32_t) H_shard) % n] = (int32_t) rng_range(&R, 1, Q - 1); kind = 100; }
      else gen_vec(&R, v, n, 0, Q - 1, kind);
      for (uint32_t i = 0; i < n; i++) vm[i] = (uint32_t) v[i];
      /* definitions: index = inv*4 + pre*1 + post*2 */
      expect_std(ex[0], vm, &f, 0, 0); expect_std(ex[1], vm, &f, 1, 0);
      expect_std(ex[4], vm, &g, 0, 0);
      for (uint32_t k = 0; k < n; k++) ex[6][k] = (uint32_t)((uint64_t) ex[4][k] * g.pw[k] % Q);
      uint32_t k = rng_below(&R, n);
      if (expect_at(vm, &g, 0, 1, k) != ex[6][k] || expect_at(vm, &f, 1, 0, k) != ex[1][k]) { fprintf(stderr, "oracle disagreement\n"); return 3; }
      for (int im = 0; im < 4; im++) for (const wrap_t *x = impls[im].wraps; x->name; x++) {
        if (x->n != n) continue;
        int32_t *a = (int32_t *)(area + 4 * rng_below(&R, 8));
        int e = ((x->kind & K_INV) ? 4 : 0) + ((x->kind & K_PRE) ? 1 : 0) + ((x->kind & K_POST) ? 2 : 0);
        for (uint32_t i = 0; i < n; i++) {
          int32_t y = v[(x->kind & K_REVIN) ? f.rev[i] : i];
          if (im >= 2 && wide) { y = shiftq((uint32_t) y); if (it & 2) { uint64_t z = rng_u64(&R); if ((z & 3) == 0) y += Q; else if ((z & 3) == 1) y -= Q; } }
          a[i] = y;
        }
        OP("%s n=%u shape %d", x->name, n, kind);
        x->f(a);
        for (uint32_t i = 0; i < n; i++) {
          uint32_t want = (x->kind & K_REVIN) ? ex[e][i] : ex[e][f.rev[i]];
          if ((uint32_t) modq64(a[i]) != want || (im == 0 && a[i] != (int32_t) want)) { viol(x->name, "position %u: got %d, expected %u mod Q; input shape %d v[0..3]=%d,%d,%d,%d seed=%llu shard=%d", i, a[i], want, kind, v[0], v[1], v[2], v[3], (unsigned long long) H_seed, H_shard); break; }
        }
        wcalls++; agree++;
        if (x->kind & K_INV) continue;
        /* every inverse taking this output order: one chosen per case, cycling */
        if (n > 16 && rng_below(&R, 3)) continue;
        memcpy(w, a, 4 * n);
        for (const wrap_t *y = impls[im].wraps; y->name; y++) {
          if (y->n != n || !(y->kind & K_INV)) continue;
          if (!!(y->kind & K_REVIN) == !!(x->kind & K_REVIN)) continue;           /* order must match */
          if (!!(y->kind & K_POST) != !!(x->kind & K_PRE)) continue;
          memcpy(a, w, 4 * n);
          if (im) canon(a, n, im, &R);
          OP("%s after %s n=%u", y->name, x->name, n);
          y->f(a);
          for (uint32_t i = 0; i < n; i++) {
            uint32_t src = (y->kind & K_REVIN) ? i : f.rev[i];   /* where element i of the result sits */
            int32_t got = modq64((int64_t) modq64(a[i]) * P.inv_n);
            if (got != v[src]) { viol("round-trip", "%s then %s, n=%u: coefficient %u is %d, original %d; seed=%llu shard=%d", x->name, y->name, n, src, got, v[src], (unsigned long long) H_seed, H_shard); break; }
          }
          trips++;
        }
      }
      int nz = 0; for (uint32_t i = 0; i < n; i++) nz |= v[i];
      case_seen(hash_bytes(v, 4 * n, n), nz);
      if (it < 2) sample("n=%u shape %d v=[%d,%d,%d,..]", n, kind, v[0], v[1], v[2]);
    }
  }
  stat_add("wrapper_calls_checked", wcalls); stat_add("round_trips_checked", trips);
  return h_finish();
}

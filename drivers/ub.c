/* C04 monitor: random and extremal in-contract calls of every C routine, built
 * with UBSan and the library's assertions; results are checked as well, so that
 * a wrapped or truncated intermediate is seen when it matters. */
#define NO_ASM
#include "calls.h"
static rng_t R;
static call_t C;
static uint64_t ncalls, nadv, nprod;
static void go(void) {
  uint32_t n = C.n;
  int32_t *a = malloc(4 * n + 4), *b = malloc(4 * n + 4), *o = malloc(4 * n + 4);
  memcpy(a, C.a, 4 * n); memcpy(b, C.b, 4 * n); memset(o, 0x33, 4 * n);
  OP("%s n=%u %s", C.r->name, n, C.what);
  call_exec(&C, c_outofplace(C.r) ? o : a, a, b, C.p);
  const int32_t *res = c_outofplace(C.r) ? o : a;
  int k = call_check(&C, res);
  if (k >= 0) viol(C.r->name, "n=%u input class %s: result element %d is %d, inconsistent with the exact result (operand %d); seed=%llu shard=%d", n, C.what, k, res[k], C.a[k], (unsigned long long) H_seed, H_shard);
  if (C.r->impl == 2 && (C.r->sig == S_XF || C.r->sig == S_WRAP)) for (uint32_t i = 0; i < n; i += 3) { stat_max("max_red_value", res[i]); stat_min("min_red_value", res[i]); }
  free(a); free(b); free(o);
  ncalls++;
  case_seen(call_hash(&C), n > 0);
}
int main(int argc, char **argv) {
  h_init(argc, argv); h_watch("C04");
  rng_seed(&R, 4); calls_init(7);
  stat_add("routines", H_shard == 0 ? NRT : 0);
  uint32_t rounds = H_thorough ? 1600 : 120;
  for (uint32_t it = 0; it < rounds; it++) for (int i = 0; i < NRT; i++) { call_gen(&C, &R, &RT[i]); go(); if (it == 0 && i % 40 == H_shard) sample("%s n=%u %s", C.r->name, C.n, C.what); }
  /* products at the documented limits of the reduction */
  for (uint32_t it = 0; it < (H_thorough ? 4000u : 400u); it++) for (int i = 0; i < NRT; i++) {
    const routine_t *r = &RT[i];
    if (r->impl < 2 || (r->sig != S_MUL && r->sig != S_SCAL)) continue;
    C.r = r; C.n = 24; C.np = 0; C.what = "products at the limits"; C.k = 0;
    int64_t y = 1;
    for (uint32_t j = 0; j < C.n; j++) {
      if (j == 0 || r->sig == S_MUL) {
        switch (rng_below(&R, 6)) { case 0: y = 4096; break; case 1: y = rng_range(&R, 4096, 9000); break; case 2: y = 1LL << rng_range(&R, 12, 30); break; case 3: y = rng_range(&R, 4095, 4097) << rng_below(&R, 10); break; case 4: y = rng_range(&R, 1, 3000000); break; default: y = rng_range(&R, 1, INT32_MAX); }
        if (rng_u64(&R) & 1) y = -y;
        C.k = (int32_t) y;
      }
      int64_t m = rng_u64(&R) & 1 ? 8796093026303LL : -8796042698752LL, x = m / y; /* towards 0: the product stays inside */
      if (rng_below(&R, 3) == 0) x -= (x > 0 ? 1 : -1) * (int64_t) rng_below(&R, 3);
      if (x > INT32_MAX) x = INT32_MAX;
      if (x < INT32_MIN) x = INT32_MIN;
      int64_t z = x * y; if (z >> 43) stat_add(z > 0 ? "products_from_2^43" : "products_negative", 1);
      if (z > 0) stat_max("max_product", z); else stat_min("min_product", z);
      C.a[j] = (int32_t) x; C.b[j] = (int32_t) y;
    }
    if (r->sig == S_MUL) C.k = 0;
    go(); stat_add("limit_calls", 1);
  }
  /* adversarial: real-coefficient gradients, for every red transform kind */
  for (uint32_t n = 2; n <= 2048; n <<= 1) {
    uint32_t per = (n <= 64 ? 60 : n <= 512 ? 20 : 8) * (H_thorough ? 10 : 1), mats = n <= 128 ? 16 : n <= 512 ? 4 : H_thorough ? 6 : 2;
    for (uint32_t m = 0; m < mats; m++) for (int i = 0; i < NRT; i++) {
      const routine_t *r = &RT[i];
      if (r->impl != 2 || r->sig != S_XF) continue;
      static root_t rt; static uint32_t t[2048];
      root_init(&rt, n, pick_root(&R, n)); kind_table(t, &rt, r->kind, 8193);
      for (uint32_t j = 0; j < n; j++) C.p[j] = (uint16_t)(int16_t) shiftq(t[j]);
      float *M = xf_matrix(n, (int16_t *) C.p, r->kind);
      C.r = r; C.n = n; C.np = n; C.k = (int32_t) rt.psi; C.what = "adversarial";
      if (!(r->kind & K_REVIN)) { /* exact-model climbing (standard-order inputs) */
        adv_t v = { .n = n, .kind = r->kind, .p = (int16_t *) C.p, .lo = -21499, .hi = 21499, .m = M };
        adv_init(&v); C.what = "climb";
        for (int d = -1; d <= 1; d += 2) { adv_climb(&R, &v, C.a, rng_below(&R, 3) ? rng_below(&R, n) : 0, d, n <= 256 ? 1000 : 400); go(); stat_add("climbed_transforms", 1); }
        adv_free(&v); C.what = "adversarial";
      }
      for (uint32_t q = 0; q < per; q++) { gen_adversarial(&R, C.a, n, -21499, 21499, M); go(); nadv++; }
      free(M);
    }
  }
  /* products with both operands driven to the same extreme output */
  for (int s = 0; s < 4; s++) {
    static const uint32_t sizes[4] = { 16, 256, 512, 1024 };
    uint32_t n = sizes[s]; const par_t *P = IMPL[2].pars; while (P->n != n) P++;
    static uint32_t t[2048], w[2048]; static int16_t p16[2048]; static root_t rt;
    root_init(&rt, n, (uint32_t) P->psi); def_powers(w, n, 8193, rt.psi);
    for (int v = 0; v < 3; v++) {
      static const int vk[3] = { K_TREV, K_GS, K_TREV | K_PRE };
      kind_table(t, &rt, vk[v], 8193); for (uint32_t j = 0; j < n; j++) p16[j] = (int16_t) shiftq(t[j]);
      float *M = xf_matrix(n, p16, vk[v]);
      static int16_t tw[2048]; for (uint32_t j = 0; j < n; j++) tw[j] = (int16_t) shiftq(w[j]);
      for (int cen = 0; cen < 2; cen++) {
        adv_t A = { .n = n, .kind = vk[v], .p = p16, .tw = v < 2 ? tw : NULL, .lo = 0, .hi = Q - 1, .centred = cen, .m = M };
        adv_init(&A);
        for (uint32_t q = 0; q < (H_thorough ? 64u : 12u); q++) {
          uint32_t k = q & 3 ? rng_below(&R, n) : 0; int d = (rng_u64(&R) & 1) ? 1 : -1;
          static int32_t a[2048], b[2048];
          adv_climb(&R, &A, a, k, d, q & 1 ? 0 : 600); if (q & 2) memcpy(b, a, 4 * n); else adv_climb(&R, &A, b, k, (q & 4) ? d : -d, q & 1 ? 0 : 600);
          for (int i = 0; i < NRT; i++) if (RT[i].sig == S_PROD && RT[i].n == n && RT[i].impl == 2) {
            C.r = &RT[i]; C.n = n; C.np = 0; C.what = "climbed product"; memcpy(C.a, a, 4 * n); memcpy(C.b, b, 4 * n);
            go(); nprod++;
          }
        }
        adv_free(&A);
      }
      if (v < 2) for (uint32_t k = 0; k < n; k++) for (uint32_t i = 0; i < n; i++) M[(size_t) k * n + i] *= -(float) shiftq(w[i]) / 4096.f;
      for (uint32_t q = 0; q < (H_thorough ? 400u : 40u); q++) {
        uint32_t k = rng_below(&R, n);
        int32_t lo = n == 1024 ? 0 : -6144, hi = n == 1024 ? Q - 1 : 6144;
        for (int i = 0; i < NRT; i++) if (RT[i].sig == S_PROD && RT[i].n == n && (RT[i].impl == 2 || q % 8 == 0)) {
          C.r = &RT[i]; C.n = n; C.np = 0; C.what = "adversarial product";
          gen_adversarial_k(&R, C.a, n, lo, hi, M, k); gen_adversarial_k(&R, C.b, n, lo, hi, M, k);
          for (uint32_t j = 0; j < n; j++) { C.a[j] = modq64(C.a[j]); C.b[j] = modq64(C.b[j]); }
          go(); nprod++;
        }
      }
      free(M);
    }
  }
  stat_add("calls_monitored", ncalls); stat_add("adversarial_transforms", nadv); stat_add("adversarial_products", nprod);
  return h_finish();
}

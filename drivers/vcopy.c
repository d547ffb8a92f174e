/* C16 monitor: the benchmark copies against the library, and the harnesses'
 * assertions as run-time events (assume/assert/intrinsics have executable stand-ins). */
#define NO_ASM
#include "calls.h"
#include "shim_iv.h"
#include <setjmp.h>
extern const impl_t vimpl_red, vimpl_std;
extern const iv_api_t viv_api;
extern void (*const sort_api)(uint64_t *, uint32_t);
extern void (*const vsort_api)(uint64_t *, uint32_t);
extern const uint16_t (*vbitrev_table)[2]; extern const uint32_t vbitrev_pairs;
#define HS(X) X(intt_red1024) X(intt_red1024b) X(ntt_red1024) X(ntt_red1024b) X(ntt_red1024c) X(ntt_red1024d) X(ntt_red1024e) X(ntt_red1024f)
#define D(h) extern int (*const H_##h)(void);
HS(D)
#undef D
static rng_t R;
/* ---- stand-ins for the verifier's intrinsics ---- */
static uint64_t asserts, assumes, nds, reds, discarded, failed; static int in_harness; static jmp_buf out_of_run;
static int32_t nd_val[8192]; static uint32_t nd_i, nd_count; static int64_t zmin, zmax;
void __CRAB_assert(int c) { asserts++; if (!c) { failed++; if (failed < 50) viol("assertion of the benchmark fails", "%s: assertion event %llu", H_op, (unsigned long long) asserts); } }
void __CRAB_assume(int c) { assumes++; if (!c && in_harness) { discarded++; longjmp(out_of_run, 1); } }
int int_nd(void) { nds++; nd_count++; return nd_val[nd_i++ % 8192]; }
int32_t __CRAB_intrinsic_red(int64_t z) { reds++; int64_t r = red_def(z); if (z < zmin) zmin = z; if (z > zmax) zmax = z; if (r != (int32_t) r) viol("reduction does not fit in 32 bits", "%s: red(%lld)", H_op, (long long) z); return (int32_t) r; }

static void harnesses(void) {
#define D(h) { #h, NULL },
  static struct { const char *name; int (*f)(void); } hs[] = { HS(D) {0} };
#undef D
  int k = 0;
#define D(h) hs[k++].f = H_##h;
  HS(D)
  uint32_t iters = H_thorough ? 2000 : 80; int32_t v[1024];
  for (uint32_t it = 0; it < iters; it++) for (int q = 0; hs[q].name; q++) {
    int ka = (int) rng_below(&R, GEN_KINDS), kp = (int) rng_below(&R, GEN_KINDS);
    OP("harness_%s run %u (inputs %d, constants %d)", hs[q].name, it, ka, kp);
    gen_vec(&R, nd_val, 1024, 0, Q - 1, ka);
    gen_vec(&R, v, 1024, -6144, 6143, kp); memcpy(nd_val + 1024, v, sizeof v); for (int i = 2048; i < 8192; i++) nd_val[i] = 0;
    if (it % 8 == 7) nd_val[rng_below(&R, 1024)] = rng_below(&R, 2) ? Q : -1;  /* not admitted: the run must stop at its assumption */
    nd_i = nd_count = 0; uint64_t a0 = asserts, d0 = discarded; in_harness = 1;
    if (setjmp(out_of_run) == 0) { hs[q].f(); }
    in_harness = 0;
    if (it % 8 == 7) { if (discarded == d0) viol("harness admits a coefficient outside [0,Q-1]", "%s", H_op); else stat_add("runs_stopped_by_assumption", 1); }
    else if (discarded != d0) viol("harness rejects an input in its range", "%s after %u values", H_op, nd_count);
    else { stat_add("harness_runs", 1); if (asserts == a0) viol("harness asserts nothing", "%s", H_op); if (nd_count < 1024) viol("harness leaves inputs unconstrained", "%s: %u nondeterministic values", H_op, nd_count); }
    case_seen(hash_bytes(nd_val, sizeof nd_val, (uint64_t) q), 1);
    if (it < 2 && H_shard == 0) sample("%s: %llu assertion events, %u nondeterministic values", H_op, (unsigned long long)(asserts - a0), nd_count);
  }
  stat_add("assertion_events", asserts); stat_add("assumption_events", assumes); stat_add("intrinsic_reductions", reds);
  if (reds) { stat_min("smallest_reduced_value", zmin); stat_max("largest_reduced_value", zmax); }
}
static void *vfind(const routine_t *r) {
  const impl_t *t = r->impl == 0 ? &vimpl_std : &vimpl_red; const char *s = strchr(r->name, '/'); s = s ? s + 1 : r->name;
  if (r->sig == S_PROD) { for (const prod_t *p = t->prods; p->name; p++) if (!strcmp(p->name, s)) return p->f; return NULL; }
  if (r->sig == S_WRAP) { for (const wrap_t *p = t->wraps; p->name; p++) if (!strcmp(p->name, s)) return p->f; return NULL; }
  if (r->sig == S_XF) { for (const xf_t *p = t->xfs; p->name; p++) if (!strcmp(p->name, s)) return p->f; return NULL; }
  switch (r->sig) { case S_MUL16: return t->mul16; case S_MUL: return t->mul; case S_SCAL: return t->scal; case S_SHIFT: return t->shift; case S_RED: return t->reduce; case S_RED2: return t->reduce2;
    case S_NORM: return t->normalize; case S_NORM3: return t->normalize_inv3; case S_CORR: return t->correct; case S_BITREV: return t->bitrev; case S_SHUF: return t->shuffle; }
  return NULL;
}
static void routines(void) {
  calls_init(1 | 4); static call_t c; static int32_t a[4096], b[4096], o[4096], a2[4096], b2[4096], o2[4096]; static uint16_t p2[4096];
  uint32_t reps = H_thorough ? 2000 : 100, cnt = 0;
  for (int i = 0; i < NRT; i++) { routine_t vr = RT[i]; vr.f = vfind(&RT[i]); if (!vr.f) continue; cnt++;
    for (uint32_t q = 0; q < reps; q++) {
      call_gen(&c, &R, &RT[i]); OP("copy of %s n=%u inputs %s", RT[i].name, c.n, c.what);
      memcpy(a, c.a, sizeof a); memcpy(b, c.b, sizeof c.b); memcpy(a2, c.a, sizeof a); memcpy(b2, c.b, sizeof c.b); memcpy(p2, c.p, sizeof p2);
      for (uint32_t k = 0; k < c.n; k++) o[k] = 7, o2[k] = -9;
      call_exec(&c, o, a, b, c.p);
      uint64_t f0 = failed; call_t d = c; d.r = &vr; call_exec(&d, o2, a2, b2, p2);
      const int32_t *x = c_outofplace(&RT[i]) ? o : a, *y = c_outofplace(&RT[i]) ? o2 : a2;
      for (uint32_t k = 0; k < c.n; k++) if (x[k] != y[k]) { viol("copy differs from the library", "%s: element %u is %d, library %d", H_op, k, y[k], x[k]); break; }
      int e = call_check(&c, y); if (e >= 0) viol("copy computes a wrong result", "%s: element %d is %d", H_op, e, y[e]);
      case_seen(call_hash(&c) ^ 0x16, c.n > 0); stat_add("routine_calls_compared", 1); (void) f0;
    }
  }
  stat_max("routines_compared", cnt);
}
static void bounds(void) {
  uint32_t iters = H_thorough ? 60000 : 6000; int64_t m, m2, w, w2;
  for (uint32_t it = 0; it < iters; it++) {
    int64_t a = rng_range(&R, -(1LL << (2 + rng_below(&R, 36))), 1LL << (2 + rng_below(&R, 36))), b = a + (int64_t) rng_below(&R, 1u << (1 + rng_below(&R, 30))), k = rng_range(&R, -6144, 6144), l = rng_range(&R, -6144, 6144), h = l + (int64_t) rng_below(&R, 40), bd = (int64_t) rng_below(&R, 1u << (1 + rng_below(&R, 28)));
    OP("bounds a=%lld b=%lld w=%lld [%lld,%lld] bd=%lld", (long long) a, (long long) b, (long long) k, (long long) l, (long long) h, (long long) bd);
#define C2(call, call2, what) do { m = m2 = w = w2 = 0; int64_t r = iv_api.call, r2 = viv_api.call2; if (r != r2) viol("copy of bounds differs from the library", what ": %s: %lld/%lld/%lld, library %lld/%lld/%lld", H_op, (long long) r2, (long long) m2, (long long) w2, (long long) r, (long long) m, (long long) w); } while (0)
    C2(max_red(a, b, &m), max_red(a, b, &m2), "max_red"); C2(min_red(a, b, &m), min_red(a, b, &m2), "min_red");
    C2(max_red_mul(a, b, k, &m), max_red_mul(a, b, k, &m2), "max_red_mul"); C2(min_red_mul(a, b, k, &m), min_red_mul(a, b, k, &m2), "min_red_mul");
    if (h <= 6144) { C2(max_red_mul_interval(a, b, l, h, &m, &w), max_red_mul_interval(a, b, l, h, &m2, &w2), "max_red_mul_interval"); C2(min_red_mul_interval(a, b, l, h, &m, &w), min_red_mul_interval(a, b, l, h, &m2, &w2), "min_red_mul_interval");
      C2(ct_bound(bd, l, h), ct_bound(bd, l, h), "ct_bound"); C2(gs_bound(bd, l, h), gs_bound(bd, l, h), "gs_bound"); }
    C2(ct_bound_fixed(bd, k), ct_bound_fixed(bd, k), "ct_bound_fixed"); C2(gs_bound_fixed(bd, k), gs_bound_fixed(bd, k), "gs_bound_fixed");
    case_seen(hash_bytes(H_op, strlen(H_op), 99), 1); stat_add("bound_queries_compared", 1);
  }
  for (uint32_t it = 0; it < iters / 40; it++) { /* whole transforms: random and generated tables */
    uint32_t n = 2u << rng_below(&R, it % 8 ? 7 : 11), L = lg2(n); static int16_t p[4096]; int64_t d[2][16]; int64_t b0 = it % 3 ? 21499 : (int64_t) rng_below(&R, 60000);
    for (uint32_t i = 0; i < n; i++) p[i] = (int16_t) rng_range(&R, -6144, 6144);
    if (it % 2) { static uint32_t roots[2048], t[2048]; uint32_t m = psi_roots(n > 2048 ? n = 2048 : n, roots), psi = roots[rng_below(&R, m)]; L = lg2(n); def_table(t, n, it & 4 ? psi : 1, (uint32_t)((uint64_t) psi * psi % Q), (it & 8) != 0, 8193); for (uint32_t i = 0; i < n; i++) p[i] = (int16_t) shiftq(t[i]); }
    for (int gs = 0; gs < 2; gs++) {
      for (int i = 0; i < 16; i++) d[0][i] = d[1][i] = -1; OP("copy of ntt_%s_bounds n=%u b0=%lld", gs ? "gs" : "ct", n, (long long) b0);
      int64_t r = gs ? iv_api.ntt_gs_bounds(b0, n, p, d[0]) : iv_api.ntt_ct_bounds(b0, n, p, d[0]), r2 = gs ? viv_api.ntt_gs_bounds(b0, n, p, d[1]) : viv_api.ntt_ct_bounds(b0, n, p, d[1]);
      if (r != r2 || memcmp(d[0], d[1], 8 * (L + 1))) viol("copy of bounds differs from the library", "%s: %lld, library %lld", H_op, (long long) r2, (long long) r);
      stat_add("transform_bounds_compared", 1); case_seen(hash_bytes(p, 2 * n, (uint64_t) b0 * 2 + (uint64_t) gs), 1);
    }
  }
  for (uint32_t it = 0; it < iters / 4; it++) {
    static uint64_t x[3000], y[3000]; uint32_t n = rng_below(&R, it % 20 ? 60 : 3000); uint64_t mask = ~0ull >> rng_below(&R, 64);
    OP("copy of sort n=%u", n); for (uint32_t i = 0; i < n; i++) x[i] = y[i] = rng_u64(&R) & mask;
    sort_api(x, n); vsort_api(y, n); if (memcmp(x, y, 8 * n)) viol("copy of sort differs from the library", "%s", H_op);
    stat_add("sorts_compared", 1); case_seen(hash_bytes(y, 8 * n, n), n > 1);
  }
  uint32_t seen = 0; static uint8_t used[1024];
  for (uint32_t i = 0; i < vbitrev_pairs; i++) { uint32_t p = vbitrev_table[i][0], q = vbitrev_table[i][1]; if (p >= q || q >= 1024 || brev(p, 10) != q || used[p]++) viol("copy of the bit-reversal table is wrong", "pair %u: %u,%u", i, p, q); seen++; }
  uint32_t want = 0; for (uint32_t i = 0; i < 1024; i++) want += i < brev(i, 10);
  if (seen != want) viol("copy of the bit-reversal table is incomplete", "%u pairs of %u", seen, want);
}
/* whole operand domains of the elementwise routines, copy against library */
enum { SB = 8192 }; static int32_t sx[SB], sy[SB], sin_[SB], sk[SB]; static uint16_t sp[SB];
static void same(const char *what, uint32_t n, int64_t k) {
  if (memcmp(sx, sy, 4 * n) == 0) return;
  for (uint32_t i = 0; i < n; i++) if (sx[i] != sy[i]) { viol("copy differs from the library", "%s of %d (and %lld): %d, library %d", what, sin_[i], (long long) k, sy[i], sx[i]); return; }
}
static void sweeps(void) {
  typedef void (*un)(int32_t *, uint32_t); const impl_t *l = &impl_red, *v = &vimpl_red; uint64_t vals = 0;
  struct { const char *name; un f, g; int64_t lo, hi; } u[] = { { "reduce_array", l->reduce, v->reduce, INT32_MIN, INT32_MAX }, { "reduce_array_twice", l->reduce2, v->reduce2, INT32_MIN, INT32_MAX }, { "normalize", l->normalize, v->normalize, INT32_MIN, INT32_MAX },
    { "normalize_inv3", l->normalize_inv3, v->normalize_inv3, INT32_MIN, INT32_MAX }, { "shift_array", l->shift, v->shift, 0, Q - 1 }, { "correct", l->correct, v->correct, -Q, 2 * Q - 1 } };
  for (int k = 0; k < 6; k++) {
    uint64_t tot = (uint64_t)(u[k].hi - u[k].lo) + 1, blocks = (tot + SB - 1) / SB;
    for (uint64_t b = (uint64_t) H_shard; b < blocks; b += (uint64_t) H_nshards) {
      int64_t x0 = u[k].lo + (int64_t)(b * SB); uint32_t n = u[k].hi - x0 + 1 < SB ? (uint32_t)(u[k].hi - x0 + 1) : SB;
      for (uint32_t i = 0; i < n; i++) sin_[i] = (int32_t)(x0 + i);
      memcpy(sx, sin_, 4 * n); memcpy(sy, sin_, 4 * n); OP("copy of %s from %lld", u[k].name, (long long) x0);
      u[k].f(sx, n); u[k].g(sy, n); same(u[k].name, n, 0); vals += n;
    }
  }
  case_exhaustive(vals); stat_add("values_swept", vals); vals = 0;
  /* modular products: all pairs; reduced products: every constant of the tables with operands over the admissible range */
  l = &impl_std; v = &vimpl_std;
  for (int64_t k = (int64_t) H_shard; k < Q; k += H_nshards) for (uint32_t x0 = 0; x0 < Q; x0 += SB) {
    uint32_t n = Q - x0 < SB ? Q - x0 : SB; OP("copies of modular products by %lld", (long long) k);
    for (uint32_t i = 0; i < n; i++) { sin_[i] = (int32_t)(x0 + i); sk[i] = (int32_t) k; sp[i] = (uint16_t) k; }
    memcpy(sx, sin_, 4 * n); memcpy(sy, sin_, 4 * n); l->scal(sx, n, (int32_t) k); v->scal(sy, n, (int32_t) k); same("scalar_mul_array", n, k);
    memcpy(sx, sin_, 4 * n); memcpy(sy, sin_, 4 * n); l->mul16(sx, n, sp); v->mul16(sy, n, sp); same("mul_array16", n, k);
    l->mul(sx, n, sin_, sk); v->mul(sy, n, sin_, sk); same("mul_array", n, k); vals += 3 * n;
  }
  l = &impl_red; v = &vimpl_red;
  for (int64_t k = -6144 + (int64_t) H_shard; k <= 6144; k += H_nshards) for (uint32_t q = 0; q < (H_thorough ? 40u : 4u); q++) {
    uint32_t n = SB; OP("copies of reduced products by %lld", (long long) k); int64_t lim = k ? 8796042698752LL / llabs(k) : INT32_MAX; if (lim > INT32_MAX) lim = INT32_MAX;
    for (uint32_t i = 0; i < n; i++) { sin_[i] = (int32_t)(q % 4 == 0 ? rng_range(&R, -lim, lim) : q % 4 == 1 ? (int64_t) i * 5 - 20000 : q % 4 == 2 ? (i & 1 ? lim - i : -lim + i) : rng_range(&R, -600000, 600000)); sp[i] = (uint16_t)(int16_t) k; sk[i] = (int32_t) k; }
    memcpy(sx, sin_, 4 * n); memcpy(sy, sin_, 4 * n); l->scal(sx, n, (int32_t) k); v->scal(sy, n, (int32_t) k); same("scalar_mul_reduce_array", n, k);
    memcpy(sx, sin_, 4 * n); memcpy(sy, sin_, 4 * n); l->mul16(sx, n, sp); v->mul16(sy, n, sp); same("mul_reduce_array16", n, k);
    if (q % 4 == 3) for (uint32_t i = 0; i < n; i++) { sin_[i] = (int32_t) rng_range(&R, -524287, 536573); sk[i] = (int32_t) rng_range(&R, -524287, 536573); }
    l->mul(sx, n, sin_, sk); v->mul(sy, n, sin_, sk); same("mul_reduce_array", n, k); vals += 3 * n;
  }
  case_exhaustive(vals); stat_add("products_swept", vals);
}
int main(int argc, char **argv) {
  h_init(argc, argv); rng_seed(&R, 0x16); h_watch("vcopy");
  if (!strcmp(H_mode, "sweep")) { sweeps(); return h_finish(); }
  harnesses(); routines(); bounds();
  return h_finish();
}

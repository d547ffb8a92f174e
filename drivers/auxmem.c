/* C07 monitor for the auxiliary routines (sorting, interval operations, bounds, abstract transforms and
 * elementwise operations): exactly sized blocks, in sanitizer builds, and against unmapped and read-only pages otherwise. */
#include "xf.h"
#include "shim_iv.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define MSAN 1
# endif
#endif
extern void (*const sort_api)(uint64_t *, uint32_t);
static rng_t R;
#define A (&iv_api)
#include "ivcommon.h"
static uint64_t n_calls;
#ifdef H_SANITIZED
typedef struct { uint8_t *data; size_t len; } blk_t;
static void blk_new(blk_t *g, size_t len) { g->data = malloc(len ? len : 1); g->len = len; if (!len) { free(g->data); g->data = malloc(0); } }
static void blk_done(blk_t *g, const char *what) { (void) what; free(g->data); }
static void blk_ro(blk_t *g, int ro) { (void) g; (void) ro; }
#else
typedef struct { gbuf_t g; uint8_t *data; size_t len; } blk_t;
static void blk_new(blk_t *g, size_t len) { gbuf_new(&g->g, len, (int)(rng_u64(&R) & 1)); g->data = g->g.data; g->len = len; }
static void blk_done(blk_t *g, const char *what) { if (!gbuf_canary_ok(&g->g)) viol(what, "writes outside its array: %s", H_op); gbuf_free(&g->g); }
static void blk_ro(blk_t *g, int ro) { gbuf_readonly(&g->g, ro); }
#endif
static void init_check(const void *p, size_t n) {
#ifdef MSAN
  __msan_check_mem_is_initialized(p, n);
#else
  (void) p; (void) n;
#endif
}
static void sorting(void) {
  uint32_t iters = H_thorough ? 6000 : 700;
  for (uint32_t it = 0; it < iters; it++) {
    uint32_t n = it < 40 ? it : rng_below(&R, rng_below(&R, 10) ? 80 : 3000), k = 1 + rng_below(&R, 4) * 50; blk_t g; blk_new(&g, 8 * (size_t) n); uint64_t *a = (uint64_t *) g.data;
    for (uint32_t i = 0; i < n; i++) switch (it % 5) { case 0: a[i] = rng_u64(&R); break; case 1: a[i] = i; break; case 2: a[i] = n - i; break; case 3: a[i] = rng_below(&R, k); break; default: a[i] = rng_below(&R, 3) ? rng_below(&R, n + 1) : UINT64_MAX; }
    OP("sort n=%u kind %u", n, it % 5); uint64_t h = hash_bytes(a, 8 * (size_t) n, 1); sort_api(a, n); init_check(a, 8 * (size_t) n); n_calls++; stat_add("sorts", 1); case_seen(h, n > 1); blk_done(&g, "sort");
  }
}
/* operands in read-only memory: an operation must not modify them, and its result must be a block of its own */
static void operations(void) {
  uint32_t iters = H_thorough ? 12000 : 1500; blk_t ga, gb; blk_new(&ga, sizeof(ivl_t)); blk_new(&gb, sizeof(ivl_t)); ivl_t *a = (ivl_t *) ga.data, *b = (ivl_t *) gb.data;
  static const char *nm[] = { "add", "sub", "neg", "red", "red_twice", "red_scale", "red_mul", "normal", "normal_inv3", "shift", "correct" };
  for (uint32_t it = 0; it < iters; it++) {
    int op = (int)(it % 11); ivl_t *r, a0, b0; blk_ro(&ga, 0); blk_ro(&gb, 0);
    int64_t l = -(1LL << 40), h = 1LL << 40; if (op == 9) l = 0, h = Q - 1; if (op == 10) l = -Q, h = 2 * Q - 1;
    pick_iv(a, l, h); pick_iv(b, -6144, 6144); if (op == 6) b->max = b->min + (int64_t) rng_below(&R, 20); a0 = *a; b0 = *b; blk_ro(&ga, 1); blk_ro(&gb, 1); OP("%s", nm[op]);
    switch (op) { case 0: r = A->add(a, b); break; case 1: r = A->sub(a, b); break; case 2: r = A->neg(a); break; case 3: r = A->red(a); break; case 4: r = A->red_twice(a); break; case 5: r = A->red_scale(b->min, a); break;
      case 6: r = it & 1 ? A->red_mul(a, b) : A->red_mul(b, a); break; case 7: r = A->normal(a); break; case 8: r = A->normal_inv3(a); break; case 9: r = A->shift(a); break; default: r = A->correct(a); }
    if (r == a || r == b) viol(nm[op], "returns its operand instead of a new interval"); else { init_check(r, sizeof *r); r->min = r->max = 0; A->del(r); }
    if (memcmp(a, &a0, sizeof a0) || memcmp(b, &b0, sizeof b0)) viol(nm[op], "modifies an operand");
    n_calls++; stat_add("interval_operations", 1); case_seen(hash_bytes(&a0, sizeof a0, hash_bytes(&b0, sizeof b0, (uint64_t) op)), 1);
  }
  blk_ro(&ga, 0); blk_ro(&gb, 0); blk_done(&ga, "interval operation"); blk_done(&gb, "interval operation");
}
static void queries(void) {
  uint32_t iters = H_thorough ? 6000 : 800;
  for (uint32_t it = 0; it < iters; it++) {
    int64_t r[10], b = (int64_t) rng_below(&R, 60000), w = rng_range(&R, -6144, 6144), h = w + (int64_t) rng_below(&R, 6), m[2]; ivl_t v; pick_iv(&v, -(1LL << 40), 1LL << 40); OP("bounds of the reduction on [%lld,%lld], w in [%lld,%lld], b=%lld", (long long) v.min, (long long) v.max, (long long) w, (long long) h, (long long) b);
    r[0] = A->max_red(v.min, v.max, m); init_check(m, 8); r[1] = A->min_red(v.min, v.max, m); init_check(m, 8); r[2] = A->max_red_mul(v.min, v.max, w, m); init_check(m, 8); r[3] = A->min_red_mul(v.min, v.max, w, m); init_check(m, 8);
    int64_t *mx = malloc(8), *mw = malloc(8); r[4] = A->max_red_mul_interval(v.min, v.max, w, h, mx, mw); r[5] = A->min_red_mul_interval(v.min, v.max, w, h, mx, mw); free(mx); free(mw);
    r[6] = A->ct_bound(b, w, h); r[7] = A->gs_bound(b, w, h); r[8] = A->ct_bound_fixed(b, w); r[9] = A->gs_bound_fixed(b, w); init_check(r, sizeof r);
    n_calls += 10; stat_add("bound_queries", 10); case_seen(hash_bytes(&v, sizeof v, (uint64_t) w * 77 + (uint64_t) b), 1);
  }
}
static int null_begin(void) { fflush(stdout); int s = dup(1), z = open("/dev/null", O_WRONLY); dup2(z, 1); close(z); return s; }
static void null_end(int s) { fflush(stdout); dup2(s, 1); close(s); }
static void transforms(void) {
  uint32_t iters = H_thorough ? 30 : 3, idx = 0;
  for (uint32_t it = 0; it < iters; it++) for (uint32_t n = 2; n <= 1024; n <<= 1) for (const axf_t *f = A->xfs; f->name; f++) for (int ab = 0; ab < 3; ab++) {
    if ((int)(idx++ % (uint32_t) H_nshards) != H_shard) continue;
    if (n > 128 && (it + idx / 8) % 3) continue;
    const xf_t *c = NULL; for (const xf_t *y = impl_red.xfs; y->name; y++) if (!strcmp(y->name, f->conc)) c = y;
    if (!c) { fprintf(stderr, "no concrete routine for %s\n", f->name); exit(3); }
    static uint32_t roots[2048], t[2048]; static root_t rt; uint32_t m = psi_roots(n, roots); root_init(&rt, n, roots[rng_below(&R, m)]); kind_table(t, &rt, c->kind, 8193);
    blk_t gp, ga, gw, gd; blk_new(&gp, 2 * n); int16_t *p = (int16_t *) gp.data; for (uint32_t i = 0; i < n; i++) p[i] = (int16_t) shiftq(t[i]);
    blk_ro(&gp, 1);
    if (ab == 2) { /* whole-transform bounds */
      blk_new(&gd, 8 * (lg2(n) + 1)); OP("bounds %s n=%u", f->name, n);
      if (c->kind & K_GS) A->ntt_gs_bounds(21499, n, p, (int64_t *) gd.data); else A->ntt_ct_bounds(21499, n, p, (int64_t *) gd.data);
      init_check(gd.data, gd.len); blk_done(&gd, "transform bounds"); stat_add("bound_queries", 1);
    } else {
      blk_new(&ga, sizeof(void *) * n); ivl_t **a = (ivl_t **) ga.data; for (uint32_t i = 0; i < n; i++) a[i] = A->interval(-21499, 21499 - (int64_t) rng_below(&R, 100));
      blk_new(&gw, ab ? sizeof(void *) * n : 1); const ivl_t **w = (const ivl_t **) gw.data; static ivl_t wv[2048]; static const ivl_t *wp[2048]; if (ab) { for (uint32_t i = 0; i < n; i++) { w[i] = wp[i] = A->point(p[i]); wv[i] = *w[i]; } blk_ro(&gw, 1); }
      OP("abstract%s_%s n=%u", ab ? "2" : "", f->name, n); int s = null_begin(); if (ab) f->f2(a, n, w); else f->f1(a, n, p); null_end(s);
      if (ab) for (uint32_t i = 0; i < n; i++) { if (w[i] != wp[i] || memcmp(w[i], &wv[i], sizeof(ivl_t))) { viol(f->name, "modifies its table of intervals: %s", H_op); break; } }
      blk_ro(&gw, 0);
      for (uint32_t i = 0; i < n; i++) { init_check(a[i], sizeof(ivl_t)); A->del(a[i]); if (ab) A->del((ivl_t *) w[i]); }
      blk_done(&ga, "abstract transform"); blk_done(&gw, "abstract transform"); stat_add("abstract_transforms", 1);
    }
    n_calls++; case_seen(hash_bytes(p, 2 * n, (uint64_t)(f - A->xfs) * 4 + (uint64_t) ab), 1); blk_ro(&gp, 0); blk_done(&gp, "abstract transform");
  }
}
static void elementwise(void) {
  static const char *nm[] = { "normalize", "normalize_inv3", "shift", "reduce", "reduce_twice", "correct", "mul16", "mul", "scalar" };
  uint32_t iters = H_thorough ? 3000 : 360;
  for (uint32_t it = 0; it < iters; it++) {
    int op = (int)(it % 9); uint32_t n = rng_below(&R, 40); int64_t l = -100000, h = 100000; if (op == 2) l = 0, h = Q - 1; if (op == 5) l = -Q, h = 2 * Q - 1;
    blk_t ga, gb, go, gp; blk_new(&ga, sizeof(void *) * n); blk_new(&gb, sizeof(void *) * n); blk_new(&go, sizeof(void *) * n); blk_new(&gp, 2 * n);
    ivl_t **a = (ivl_t **) ga.data, **b = (ivl_t **) gb.data, **o = (ivl_t **) go.data; int16_t *p = (int16_t *) gp.data; static ivl_t a0[64], b0[64];
    for (uint32_t i = 0; i < n; i++) { pick_iv(&a0[i], l, h); int64_t z = rng_range(&R, -6144, 6144); b0[i] = (ivl_t) { z, z + (int64_t) rng_below(&R, 4) }; a[i] = A->interval(a0[i].min, a0[i].max); b[i] = A->interval(b0[i].min, b0[i].max); p[i] = (int16_t) z; }
    blk_ro(&gp, 1); blk_ro(&gb, 1); if (op == 7) blk_ro(&ga, 1);
    OP("abstract %s n=%u", nm[op], n); int s = null_begin();
    switch (op) { case 0: A->a_normalize(a, n); break; case 1: A->a_normalize_inv3(a, n); break; case 2: A->a_shift(a, n); break; case 3: A->a_reduce(a, n); break; case 4: A->a_reduce2(a, n); break; case 5: A->a_correct(a, n); break;
      case 6: A->a_mul16(a, n, p); break; case 7: A->a_mul(o, n, (const ivl_t **) a, (const ivl_t **) b); break; default: A->a_scalar(a, n, 3); }
    null_end(s);
    for (uint32_t i = 0; i < n; i++) {
      if (op == 7) { init_check(o[i], sizeof(ivl_t)); if (memcmp(a[i], &a0[i], sizeof(ivl_t)) || memcmp(b[i], &b0[i], sizeof(ivl_t))) viol("mul", "modifies an operand: %s", H_op); A->del(o[i]); }
      init_check(a[i], sizeof(ivl_t)); A->del(a[i]); A->del(b[i]);
    }
    blk_ro(&ga, 0); blk_ro(&gb, 0); blk_ro(&gp, 0);
    blk_done(&ga, nm[op]); blk_done(&gb, nm[op]); blk_done(&go, nm[op]); blk_done(&gp, nm[op]);
    n_calls++; stat_add("abstract_elementwise", 1); case_seen(hash_bytes(a0, sizeof(ivl_t) * n, (uint64_t) op + 100), n > 0);
  }
}
int main(int argc, char **argv) {
  h_init(argc, argv); rng_seed(&R, 0x707); h_watch("C07");
  sorting(); operations(); queries(); transforms(); elementwise();
  stat_add("auxiliary_calls", n_calls);
  return h_finish();
}

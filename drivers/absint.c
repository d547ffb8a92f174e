/* C14 monitor: runs the abstract transforms and elementwise operations, reads the
 * intervals and warnings they print, and checks that concrete executions stay inside. */
#include "xf.h"
#include "shim_iv.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
static rng_t R;
#define A (&iv_api)
#include "ivreport.h"
/* concrete transform in exact 64-bit arithmetic, state recorded after every round */
static int64_t st[13][2048];
static void conc(const int64_t *in, uint32_t n, const int16_t *p, int kind) {
  int mixed = (kind & (K_PRE | K_POST)) != 0; int64_t *a = st[0]; memcpy(a, in, 8 * n); uint32_t r = 0;
#define NEXT() (memcpy(st[r + 1], st[r], 8 * n), r++, a = st[r])
  if (!(kind & K_GS)) {
    uint32_t d = n;
    for (uint32_t t = 1; t < n; t <<= 1) {
      NEXT(); d >>= 1;
      for (uint32_t j = 0; j < t; j++) for (uint32_t i = 0; i < d; i++) {
        uint32_t s = (kind & K_REVIN) ? j + 2 * t * i : 2 * d * j + i, e = (kind & K_REVIN) ? t : d;
        int64_t x = (j == 0 && !mixed) ? a[s + e] : red_def(a[s + e] * p[t + j]); a[s + e] = a[s] - x; a[s] += x;
      }
    }
  } else {
    uint32_t d = 1;
    for (uint32_t t = n >> 1; t > 0; t >>= 1, d <<= 1) {
      NEXT();
      for (uint32_t j = 0; j < t; j++) for (uint32_t i = 0; i < d; i++) {
        uint32_t s = (kind & K_REVIN) ? 2 * d * j + i : j + 2 * t * i, e = (kind & K_REVIN) ? d : t;
        int64_t x = a[s + e], y = a[s] - x; a[s + e] = (j == 0 && !mixed) ? y : red_def(y * p[t + j]); a[s] += x;
      }
    }
  }
}
static ivl_t *ia[2048], iin[2048];
static int16_t p[2048]; static int64_t x[2048]; static int32_t x32[2048];
static void gen_in(uint32_t n, int shape) {
  for (uint32_t i = 0; i < n; i++) {
    int64_t a, b;
    switch (shape) {
    case 0: a = b = rng_range(&R, -21499, 21499); break;                                   /* points */
    case 1: a = rng_range(&R, -21499, 21490); b = a + rng_below(&R, 4); break;
    case 2: a = 0; b = Q - 1; break;
    case 3: a = -21499; b = 21499; break;
    case 4: a = rng_range(&R, -21499, 21499); b = rng_range(&R, a, 21499); break;
    case 5: a = b = rng_range(&R, -3000000000LL, 3000000000LL); break;                     /* beyond 32 bits */
    case 6: a = rng_range(&R, -(1LL << 40), 1LL << 40); b = a + rng_below(&R, 5000); break;
    case 7: { int64_t e[] = { INT32_MAX, INT32_MIN, (int64_t) INT32_MAX + 1, (int64_t) INT32_MIN - 1, INT32_MAX - 1, 0, 1 }; a = e[rng_below(&R, 7)]; b = e[rng_below(&R, 7)]; if (rng_below(&R, 2)) b = a; if (a > b) { int64_t t = a; a = b; b = t; } break; }
    case 8: a = -6144; b = 6144; break;
    default: a = b = rng_below(&R, 2) ? 0 : rng_range(&R, -40000, 40000); if (rng_below(&R, 4) == 0) b = a + 1000; break;
    }
    iin[i].min = a; iin[i].max = b;
  }
}
#define SHAPES 10
static void pick_concrete(uint32_t n, int how, const float *m, uint32_t out) {
  for (uint32_t i = 0; i < n; i++) {
    const ivl_t *v = &iin[i];
    switch (how) {
    case 0: x[i] = rng_range(&R, v->min, v->max); break;
    case 1: x[i] = v->min; break;
    case 2: x[i] = v->max; break;
    case 3: x[i] = rng_u64(&R) & 1 ? v->min : v->max; break;
    case 4: x[i] = m ? (m[(size_t) out * n + i] > 0 ? v->max : v->min) : (i & 1 ? v->max : v->min); break;
    default: x[i] = m ? (m[(size_t) out * n + i] > 0 ? v->min : v->max) : rng_range(&R, v->min, v->max); break;
    }
  }
}
static uint64_t rounds, conc_runs, warned, mism;
static void do_xf(void) {
  uint32_t iters = H_thorough ? 60 : 6; uint64_t idx = 0;
  for (uint32_t it = 0; it < iters; it++) for (const axf_t *f = A->xfs; f->name; f++) for (uint32_t n = 2; n <= 2048; n <<= 1) for (int ab = 0; ab < 2; ab++) for (int shape = 0; shape < SHAPES; shape++) {
    if ((int)(idx++ % (uint64_t) H_nshards) != H_shard) continue;
    if (n > 512 && shape > 1 && (it + (uint32_t) shape) % 4) continue;
    if (ab && n > 256 && shape > 1 && shape != 4) continue;
    const xf_t *c = NULL; for (const xf_t *y = impl_red.xfs; y->name; y++) if (!strcmp(y->name, f->conc)) c = y;
    if (!c) { fprintf(stderr, "no concrete routine for %s\n", f->name); exit(3); }
    static uint32_t roots[2048], t[2048]; static root_t rt; uint32_t m = psi_roots(n, roots); root_init(&rt, n, roots[rng_below(&R, m)]);
    kind_table(t, &rt, c->kind, 8193); for (uint32_t i = 0; i < n; i++) p[i] = (int16_t) shiftq(t[i]);
    int tk = (int) rng_below(&R, 6); /* any table of constants is allowed */
    if (tk == 0) for (uint32_t i = 0; i < n; i++) p[i] = (int16_t) rng_range(&R, -6144, 6144);
    if (tk == 1) for (uint32_t i = 0; i < n; i++) p[i] = (int16_t)(rng_below(&R, 3) ? rng_range(&R, -6144, 6144) : rng_below(&R, 2) ? 0 : 6144);
    gen_in(n, shape);
    for (uint32_t i = 0; i < n; i++) ia[i] = A->interval(iin[i].min, iin[i].max);
    static ivl_t *pp[2048];
    if (ab) for (uint32_t i = 0; i < n; i++) { int64_t d1 = 0, d2 = 0; switch (it % 3) { case 1: d1 = rng_below(&R, 3); d2 = rng_below(&R, 3); break; case 2: if (rng_below(&R, 8) == 0) { d1 = rng_below(&R, 40); d2 = rng_below(&R, 40); } break; } if (n <= 32 && rng_below(&R, 6) == 0) { d1 = 6144 + p[i]; d2 = 6144 - p[i]; } pp[i] = A->interval(p[i] - d1, p[i] + d2); }
    OP("abstract%s_%s n=%u psi=%u table %d input shape %d", ab ? "2" : "", f->name, n, rt.psi, tk, shape);
    cap_begin();
    if (ab) f->f2(ia, n, (const ivl_t **) pp); else f->f1(ia, n, p);
    char *txt = cap_end(); uint64_t wc; int k = parse(txt, n, &wc); uint32_t L = lg2(n);
    free(txt);
    if (k != (int) L + 1) viol("intervals of a round not reported", "%s: %d readable reports, %u expected", H_op, k, L + 1);
    else {
      for (uint32_t r = 0; r <= L; r++) for (uint32_t i = 0; i < n; i++) {
        int out = lo[r][i] < INT32_MIN || hi[r][i] > INT32_MAX;
        if (out != wn[r][i]) { viol(out ? "overflow warning missing" : "overflow warning for an interval that fits", "%s round %u: a[%u] in [%lld,%lld]", H_op, r, i, (long long) lo[r][i], (long long) hi[r][i]); break; }
        if (lo[r][i] > hi[r][i]) { viol("unordered interval", "%s round %u a[%u]", H_op, r, i); break; }
        if (r == L && (lo[r][i] != ia[i]->min || hi[r][i] != ia[i]->max)) { viol("final report differs from the result", "%s a[%u]", H_op, i); break; }
        if (r == 0 && (lo[0][i] != iin[i].min || hi[0][i] != iin[i].max)) { viol("first report differs from the input", "%s a[%u]", H_op, i); break; }
      }
      warned += wc;
    }
    float *mx = (n <= 64 && !ab) ? xf_matrix(n, p, c->kind) : NULL;
    for (int q = 0; q < (shape == 0 || shape == 5 ? 1 : 8); q++) {
      static int16_t pc[2048]; memcpy(pc, p, 2 * n);
      if (ab) for (uint32_t i = 0; i < n; i++) pc[i] = (int16_t)(q & 1 ? rng_range(&R, pp[i]->min, pp[i]->max) : rng_below(&R, 2) ? pp[i]->min : pp[i]->max);
      pick_concrete(n, q < 6 ? q : 4 + (q & 1), mx, rng_below(&R, n));
      conc(x, n, pc, c->kind); conc_runs++;
      /* the real routine, when everything stays in 32 bits, confirms the recorded states */
      int fits = 1; for (uint32_t r = 0; r <= L && fits; r++) for (uint32_t i = 0; i < n; i++) if (st[r][i] > 500000000 || st[r][i] < -500000000) { fits = 0; break; }
      int trust = 1;
      if (fits) {
        for (uint32_t i = 0; i < n; i++) x32[i] = (int32_t) x[i];
        c->f(x32, n, pc); stat_add("real_runs", 1);
        for (uint32_t i = 0; i < n; i++) if (x32[i] != st[L][i]) { trust = 0; mism++; break; }
        for (uint32_t i = 0; i < n; i++) if (x32[i] < ia[i]->min || x32[i] > ia[i]->max) { viol("concrete result outside the computed interval", "%s: output %u is %d, interval [%lld,%lld]", H_op, i, x32[i], (long long) ia[i]->min, (long long) ia[i]->max); break; }
      }
      if (trust) {
        for (uint32_t i = 0; i < n; i++) if (st[L][i] < ia[i]->min || st[L][i] > ia[i]->max) { viol("concrete result outside the computed interval", "%s: output %u is %lld, interval [%lld,%lld]", H_op, i, (long long) st[L][i], (long long) ia[i]->min, (long long) ia[i]->max); break; }
        if (k == (int) L + 1) for (uint32_t r = 0; r <= L; r++) { rounds++; for (uint32_t i = 0; i < n; i++) if (st[r][i] < lo[r][i] || st[r][i] > hi[r][i]) { viol("concrete value outside the reported interval", "%s: round %u a[%u] is %lld, reported [%lld,%lld]", H_op, r, i, (long long) st[r][i], (long long) lo[r][i], (long long) hi[r][i]); break; } }
      }
      case_seen(hash_bytes(x, 8 * n, hash_bytes(pc, 2 * n, (uint64_t)(f - A->xfs) * 2 + (uint64_t) ab)), 1);
    }
    free(mx);
    for (uint32_t i = 0; i < n; i++) { A->del(ia[i]); if (ab) A->del(pp[i]); }
    if (idx < 40) sample("%s: every round inside the report", H_op);
  }
  stat_add("rounds_compared", rounds); stat_add("concrete_runs", conc_runs); stat_add("warnings_seen", warned); stat_add("round_model_not_applicable", mism);
}
#define ADM(z) ((z) <= 8796093026303LL && (z) >= -8796042698752LL) /* products the concrete reduction admits */
static void elementwise(void) {
  static const char *nm[] = { "normalize", "normalize_inv3", "shift", "reduce", "reduce_twice", "correct", "mul16", "mul", "scalar" };
  uint32_t iters = H_thorough ? 20000 : 2500; static ivl_t *b[600], *o[600]; static int16_t pw[600];
  for (uint32_t it = 0; it < iters; it++) {
    int op = (int)(it % 9); uint32_t n = rng_below(&R, it % 50 == 0 ? 500 : 40); int32_t k = (int32_t) rng_range(&R, -524287, 536573); if (rng_below(&R, 8) == 0) k = 0;
    int64_t l = INT32_MIN, h = INT32_MAX; if (op == 2) l = 0, h = Q - 1; if (op == 5) l = -Q, h = 2 * Q - 1; if (op == 7) l = -524287, h = 536573;
    OP("abstract %s n=%u", nm[op], n);
    for (uint32_t i = 0; i < n; i++) {
      int64_t a = rng_range(&R, l, h), c = rng_below(&R, 3) ? a + (int64_t) rng_below(&R, 300) : rng_range(&R, a, h); if (rng_below(&R, 6) == 0) a = l; if (rng_below(&R, 6) == 0) c = h; if (c > h) c = h; if (rng_below(&R, 4) == 0) c = a;
      iin[i].min = a; iin[i].max = c; ia[i] = A->interval(a, c); pw[i] = (int16_t)(rng_below(&R, 6) ? rng_range(&R, -6144, 6144) : 0);
      if (op == 7) { int64_t w = rng_range(&R, -524287, 536500); b[i] = A->interval(w, w + (int64_t) rng_below(&R, 6)); }
    }
    cap_begin();
    switch (op) {
    case 0: A->a_normalize(ia, n); break; case 1: A->a_normalize_inv3(ia, n); break; case 2: A->a_shift(ia, n); break; case 3: A->a_reduce(ia, n); break; case 4: A->a_reduce2(ia, n); break; case 5: A->a_correct(ia, n); break;
    case 6: A->a_mul16(ia, n, pw); break; case 7: A->a_mul(o, n, (const ivl_t **) ia, (const ivl_t **) b); break; default: A->a_scalar(ia, n, k);
    }
    free(cap_end());
    for (uint32_t i = 0; i < n; i++) {
      ivl_t *res = op == 7 ? o[i] : ia[i];
      if (res->min > res->max) viol("unordered interval", "%s", H_op);
      for (int q = 0; q < 24; q++) {
        int64_t v = q == 0 ? iin[i].min : q == 1 ? iin[i].max : q < 12 ? iin[i].min + rng_below(&R, 6) : rng_range(&R, iin[i].min, iin[i].max); if (v > iin[i].max) v = iin[i].max;
        int64_t w = 0, y = op == 7 ? rng_range(&R, b[i]->min, b[i]->max) : 0; int32_t one = (int32_t) v; const int32_t bb = (int32_t) y;
        switch (op) { /* the real routine on one element */
        case 0: impl_red.normalize(&one, 1); w = one; break; case 1: impl_red.normalize_inv3(&one, 1); w = one; break; case 2: impl_red.shift(&one, 1); w = one; break;
        case 3: impl_red.reduce(&one, 1); w = one; break; case 4: impl_red.reduce2(&one, 1); w = one; break; case 5: impl_red.correct(&one, 1); w = one; break;
        case 6: w = red_def(v * pw[i]); if (ADM(v * pw[i])) { impl_red.mul16(&one, 1, &pw[i]); w = one; } break; case 7: { int32_t z; impl_red.mul(&z, 1, &one, &bb); w = z; break; } default: w = red_def(v * k); if (ADM(v * k)) { impl_red.scal(&one, 1, k); w = one; }
        }
        if (w < res->min || w > res->max) { viol("concrete value outside the computed interval", "%s element %u: value %lld (from %lld) outside [%lld,%lld]", H_op, i, (long long) w, (long long) v, (long long) res->min, (long long) res->max); break; }
      }
      if (op == 7) { if (ia[i]->min != iin[i].min || ia[i]->max != iin[i].max) viol("operand modified", "%s", H_op); A->del(o[i]); A->del(b[i]); }
      A->del(ia[i]);
    }
    stat_add("elementwise_runs", 1); case_seen(hash_bytes(iin, sizeof(ivl_t) * n, (uint64_t) op + 100), n > 0);
  }
}
int main(int argc, char **argv) {
  h_init(argc, argv); rng_seed(&R, 0x14); h_watch("absint");
  do_xf(); elementwise();
  return h_finish();
}

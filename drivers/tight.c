/* C19 monitor: no interval or bound is wider than the extremes of the operation, and the
 * documented input range of the transforms is certified free of overflow. */
#include "xf.h"
#include "shim_iv.h"
#include <unistd.h>
#include <sys/mman.h>
static rng_t R;
#define A (&iv_api)
#include "ivcommon.h"
#include "ivreport.h"
static uint64_t judged, eq;
static int wider(const ivl_t *r, i128 lo_, i128 hi_) { judged++; if (r->min == lo_ && r->max == hi_) eq++; return r->min < lo_ || r->max > hi_; }
#define LOOSE(name, a, b, k, r, l, h) viol(name " is wider than necessary", name "([%lld,%lld], [%lld,%lld], k=%lld) = [%lld,%lld], values span [%lld,%lld]", (long long) (a).min, (long long) (a).max, (long long) (b).min, (long long) (b).max, (long long) (k), \
  (long long) (r)->min, (long long) (r)->max, (long long) (l), (long long) (h))
/* hull of red(w*x) for x in a, w in b; zero is admitted for a range of w (documented starting value of the search) */
static void mulhull(const ivl_t *a, const ivl_t *b, int64_t *l, int64_t *h) {
  if ((uint64_t) a->max - (uint64_t) a->min < (uint64_t) b->max - (uint64_t) b->min) { const ivl_t *t = a; a = b; b = t; }
  exact_iv(a->min, a->max, b->min, b->max, l, h);
  if (*l > 0) *l = 0;
  if (*h < 0) *h = 0;
}
static void image(int op, const ivl_t *a, int64_t *l, int64_t *h) { /* 0 rem, 1 centre, 2 correct: exact image hull, by enumeration */
  *l = INT64_MAX; *h = INT64_MIN;
  if (op == 0 && (uint64_t) a->max - (uint64_t) a->min >= Q - 1) { *l = 0; *h = Q - 1; return; }
  uint64_t w = (uint64_t) a->max - (uint64_t) a->min;
  for (uint64_t i = 0; i <= w; i++) { int64_t v = (int64_t)((uint64_t) a->min + i), y = op == 0 ? modq64(v) : op == 1 ? (v > 6144 ? v - Q : v) : v < 0 ? v + Q : v >= Q ? v - Q : v; if (y < *l) *l = y; if (y > *h) *h = y; }
}
static void ops(void) {
  uint64_t cases = H_thorough ? 400000 : 36000;
  static const char *nm[] = { "add", "sub", "neg", "red", "red_twice", "red_scale", "red_mul", "normal", "normal_inv3", "shift", "correct" };
  for (uint64_t c = 0; c < cases; c++) {
    int op = (int)(c % 11); ivl_t a = { 0, 0 }, b = { 0, 0 }, *r = NULL; int64_t k = 0, l, h, lim; OP("%s", nm[op]);
    switch (op) {
    case 0: case 1: case 2: {
      lim = op == 2 ? INT64_MAX : (int64_t) 1 << 62; if (c % 7 == 0) lim = 1 << 20;
      pick_iv(&a, -lim, lim - (op < 2)); pick_iv(&b, -lim + (op == 1), lim - (op < 2));
      i128 L = op == 0 ? (i128) a.min + b.min : op == 1 ? (i128) a.min - b.max : -(i128) a.max, H = op == 0 ? (i128) a.max + b.max : op == 1 ? (i128) a.max - b.min : -(i128) a.min;
      r = op == 0 ? A->add(&a, &b) : op == 1 ? A->sub(&a, &b) : A->neg(&a);
      if (wider(r, L, H)) { if (op == 0) LOOSE("add", a, b, 0, r, L, H); else if (op == 1) LOOSE("sub", a, b, 0, r, L, H); else LOOSE("neg", a, b, 0, r, L, H); }
      break; }
    case 3: pick_iv(&a, INT64_MIN, INT64_MAX); r = A->red(&a); exact_mul(a.min, a.max, 1, &l, &h); if (wider(r, l, h)) LOOSE("red", a, b, 0, r, l, h); break;
    case 4: pick_iv(&a, INT64_MIN, INT64_MAX); r = A->red_twice(&a); exact_mul(a.min, a.max, 1, &l, &h); { int64_t l2, h2; exact_mul(l, h, 1, &l2, &h2); if (wider(r, l2, h2)) LOOSE("red_twice", a, b, 0, r, l2, h2); } break;
    case 5: k = rng_below(&R, 12) == 0 ? 0 : rng_below(&R, 3) ? rng_range(&R, -6144, 6144) : rng_below(&R, 2) ? rng_range(&R, -2147483648LL, 2147483647LL) : (int64_t)(1u << rng_below(&R, 20)) * (rng_u64(&R) & 1 ? 1 : -1);
      lim = ((int64_t) 1 << 61) / (llabs(k) + 1); pick_iv(&a, -lim, lim); r = A->red_scale(k, &a); exact_mul(a.min, a.max, k, &l, &h); if (wider(r, l, h)) LOOSE("red_scale", a, b, k, r, l, h); break;
    case 6: { int64_t w = rng_range(&R, -6144, 6144); if (rng_below(&R, 5) == 0) w = 0; if (rng_below(&R, 8) == 0) w = rng_range(&R, -40000, 40000); b = (ivl_t) { w, w + (int64_t) rng_below(&R, rng_below(&R, 40) ? 8 : 200) };
      lim = rng_below(&R, 2) ? 100000 : (int64_t) 1 << 44; pick_iv(&a, -lim, lim); if (rng_below(&R, 8) == 0) a.min = a.max = rng_range(&R, -3, 3);
      r = rng_u64(&R) & 1 ? A->red_mul(&a, &b) : A->red_mul(&b, &a); mulhull(&a, &b, &l, &h); if (wider(r, l, h)) LOOSE("red_mul", a, b, 0, r, l, h); break; }
    case 7: pick_iv(&a, INT64_MIN, INT64_MAX); if (c % 3) { a.max = add_clamp(a.min, (int64_t) rng_below(&R, Q + 5)); } r = A->normal(&a); image(0, &a, &l, &h); if (wider(r, l, h)) LOOSE("normal", a, b, 0, r, l, h); break;
    case 8: pick_iv(&a, INT64_MIN, INT64_MAX); if (c % 2) a.max = a.min; r = A->normal_inv3(&a); if (a.min == a.max) l = h = (int64_t) modq64(a.min) * 8193 % Q; else l = 0, h = Q - 1; if (wider(r, l, h)) LOOSE("normal_inv3", a, b, 0, r, l, h); break;
    case 9: pick_iv(&a, 0, Q - 1); if (rng_below(&R, 4) == 0) { a.min = 6144 - (int64_t) rng_below(&R, 3); a.max = a.min + (int64_t) rng_below(&R, 4); } r = A->shift(&a); image(1, &a, &l, &h); if (wider(r, l, h)) LOOSE("shift", a, b, 0, r, l, h); break;
    default: pick_iv(&a, -Q, 2 * Q - 1); if (rng_below(&R, 3) == 0) { int64_t z = rng_below(&R, 2) ? 0 : Q; a.min = z - (int64_t) rng_below(&R, 3); a.max = a.min + (int64_t) rng_below(&R, 4); } r = A->correct(&a); image(2, &a, &l, &h); if (wider(r, l, h)) LOOSE("correct", a, b, 0, r, l, h);
    }
    case_seen(hash_bytes(&a, sizeof a, hash_bytes(&b, sizeof b, (uint64_t) op + 1 + (uint64_t) k * 64)), a.min < a.max);
    if (c < 22) sample("%s([%lld,%lld]) = [%lld,%lld]: as narrow as the values", nm[op], (long long) a.min, (long long) a.max, (long long) r->min, (long long) r->max);
    A->del(r);
  }
  stat_add("operations", cases);
}
static void bounds(void) {
  uint32_t iters = H_thorough ? 20000 : 2500;
  for (uint32_t k = 0; k < iters; k++) {
    int64_t b = rng_below(&R, 4) ? rng_range(&R, 0, 60000) : rng_range(&R, 0, 1 << 28), low = rng_range(&R, -6144, 6144), high = rng_below(&R, 2) ? low : low + (int64_t) rng_below(&R, 9), mn, mx, e, r;
    OP("one-round bounds b=%lld w in [%lld,%lld]", (long long) b, (long long) low, (long long) high);
    exact_iv(-b, b, low, high, &mn, &mx); e = b + mabs(mn, mx);
    r = A->ct_bound(b, low, high); judged++; if (r > e) viol("ct_bound is larger than necessary", "%s: returned %lld, largest value %lld", H_op, (long long) r, (long long) e);
    if (low == high) { r = A->ct_bound_fixed(b, low); judged++; if (r > e) viol("ct_bound_fixed is larger than necessary", "%s: returned %lld, largest value %lld", H_op, (long long) r, (long long) e); }
    exact_iv(-2 * b, 2 * b, low, high, &mn, &mx); e = mabs(mn, mx) > 2 * b ? mabs(mn, mx) : 2 * b;
    r = A->gs_bound(b, low, high); judged++; if (r > e) viol("gs_bound is larger than necessary", "%s: returned %lld, largest value %lld", H_op, (long long) r, (long long) e);
    if (low == high) { r = A->gs_bound_fixed(b, low); judged++; if (r > e) viol("gs_bound_fixed is larger than necessary", "%s: returned %lld, largest value %lld", H_op, (long long) r, (long long) e); }
    stat_add("one_round_bounds", 1); int64_t key[3] = { b, low, high }; case_seen(hash_bytes(key, sizeof key, 12), b > 0);
  }
  for (uint32_t it = 0, idx = 0; it < (H_thorough ? 40u : 3u); it++) for (uint32_t n = 2; n <= 2048; n <<= 1) for (const xf_t *x = impl_red.xfs; x->name; x++) {
    if ((int)(idx++ % (uint32_t) H_nshards) != H_shard) continue;
    static uint32_t roots[2048], t[2048]; static int16_t p[2048]; static root_t rt; int64_t bd[16];
    uint32_t m = psi_roots(n, roots); root_init(&rt, n, roots[rng_below(&R, m)]); int gs = (x->kind & K_GS) != 0;
    kind_table(t, &rt, x->kind, 8193); for (uint32_t i = 0; i < n; i++) p[i] = (int16_t) shiftq(t[i]);
    int64_t b0 = it % 3 == 0 ? 21499 : rng_below(&R, 21500), b = b0; uint32_t L = lg2(n), tt = gs ? n / 2 : 1; const char *nm = gs ? "ntt_gs_bounds" : "ntt_ct_bounds";
    OP("%s n=%u psi=%u b0=%lld", nm, n, rt.psi, (long long) b0); if (gs) A->ntt_gs_bounds(b0, n, p, bd); else A->ntt_ct_bounds(b0, n, p, bd);
    for (uint32_t i = 1; i <= L; i++, tt = gs ? tt / 2 : tt * 2) {
      int64_t need = gs ? 2 * b : b;
      for (uint32_t j = 0; j < tt; j++) { int64_t mn, mx, e; if (gs) { exact_mul(-2 * b, 2 * b, p[tt + j], &mn, &mx); e = mabs(mn, mx); } else { exact_mul(-b, b, p[tt + j], &mn, &mx); e = b + mabs(mn, mx); } if (e > need) need = e; }
      judged++; stat_add("transform_rounds", 1); if (bd[i] > need) { viol(gs ? "ntt_gs_bounds is larger than necessary" : "ntt_ct_bounds is larger than necessary", "%s: round %u bound %lld, %lld suffices", H_op, i, (long long) bd[i], (long long) need); break; }
      b = need;
    }
    case_seen(hash_bytes(p, 2 * n, (uint64_t) b0 * 2 + (uint64_t) gs), 1);
  }
}
/* round by round, from the inputs, with exact operations: nothing reported may be wider */
static ivl_t st[13][2048]; static ivl_t *ia[2048], *pp[2048]; static int16_t p[2048];
static void mulw(ivl_t *o, const ivl_t *y, const ivl_t *w, int ab) { if (!ab) exact_mul(y->min, y->max, w->min, &o->min, &o->max); else mulhull(y, w, &o->min, &o->max); }
static void model(uint32_t n, const ivl_t *w, int kind, int ab) {
  int mixed = (kind & (K_PRE | K_POST)) != 0; uint32_t r = 0, gs = (kind & K_GS) != 0, d = gs ? 1 : n;
  for (uint32_t t = gs ? n >> 1 : 1; gs ? t > 0 : t < n; t = gs ? t >> 1 : t << 1) {
    memcpy(st[r + 1], st[r], n * sizeof(ivl_t)); r++; ivl_t *a = st[r]; if (!gs) d >>= 1;
    for (uint32_t j = 0; j < t; j++) for (uint32_t i = 0; i < d; i++) {
      int block = gs ? (kind & K_REVIN) != 0 : !(kind & K_REVIN); uint32_t s = block ? 2 * d * j + i : j + 2 * t * i, e = block ? d : t; ivl_t *u = &a[s], *v = &a[s + e], x, y = *v, u0 = *u;
      if (!gs) { if (j == 0 && !mixed) x = y; else mulw(&x, &y, &w[t + j], ab); *v = (ivl_t) { u0.min - x.max, u0.max - x.min }; *u = (ivl_t) { u0.min + x.min, u0.max + x.max }; }
      else { x = (ivl_t) { u0.min - y.max, u0.max - y.min }; *u = (ivl_t) { u0.min + y.min, u0.max + y.max }; if (j == 0 && !mixed) *v = x; else mulw(v, &x, &w[t + j], ab); }
      TICK();
    }
    if (gs) d <<= 1;
  }
}
static void xforms(void) {
  uint32_t iters = H_thorough ? 24 : 3, idx = 0;
  for (uint32_t it = 0; it < iters; it++) for (const axf_t *f = A->xfs; f->name; f++) for (uint32_t n = 2; n <= 2048; n <<= 1) for (int ab = 0; ab < 2; ab++) for (int shape = 0; shape < 4; shape++) {
    if ((int)(idx++ % (uint32_t) H_nshards) != H_shard) continue;
    if (n > 256 && shape && (it + (uint32_t) shape + n / 512) % 3) continue;
    if (ab && n > 256 && shape > 1) continue;
    const xf_t *c = NULL; for (const xf_t *y = impl_red.xfs; y->name; y++) if (!strcmp(y->name, f->conc)) c = y;
    if (!c) { fprintf(stderr, "no concrete routine for %s\n", f->name); exit(3); }
    static uint32_t roots[2048], t[2048]; static root_t rt; static ivl_t w[2048]; uint32_t m = psi_roots(n, roots), L = lg2(n); root_init(&rt, n, roots[rng_below(&R, m)]);
    kind_table(t, &rt, c->kind, 8193); for (uint32_t i = 0; i < n; i++) { p[i] = (int16_t) shiftq(t[i]); int64_t d = ab && n <= 64 && it % 2 ? (int64_t) rng_below(&R, 3) : 0; w[i] = (ivl_t) { p[i], p[i] + d }; }
    OP("abstract%s_%s n=%u psi=%u input shape %d", ab ? "2" : "", f->name, n, rt.psi, shape);
    for (uint32_t i = 0; i < n; i++) {
      int64_t l = -21499, h = 21499; /* shape 0: the documented input range, for which overflow must be excluded */
      if (shape == 1) l = 0, h = Q - 1; else if (shape == 2) { l = rng_range(&R, -21499, 21499); h = rng_below(&R, 2) ? l : rng_range(&R, l, 21499); } else if (shape == 3) { l = rng_range(&R, -(1LL << 33), 1LL << 33); h = l + rng_below(&R, 100000); }
      st[0][i] = (ivl_t) { l, h }; ia[i] = A->interval(l, h); if (ab) pp[i] = A->interval(w[i].min, w[i].max);
    }
    cap_begin(); if (ab) f->f2(ia, n, (const ivl_t **) pp); else f->f1(ia, n, p);
    char *txt = cap_end(); uint64_t wc; int k = parse(txt, n, &wc); free(txt);
    if (shape <= 1) { stat_add("certified_runs", 1); if (wc) viol("documented inputs not certified", "%s: %llu overflow warnings for inputs in [%lld,%lld]", H_op, (unsigned long long) wc, (long long) st[0][0].min, (long long) st[0][0].max); }
    model(n, w, c->kind, ab);
    for (uint32_t r = 0; r <= L; r++) { int bad = 0;
      for (uint32_t i = 0; i < n && !bad; i++) { ivl_t z = k == (int) L + 1 && r < L ? (ivl_t) { lo[r][i], hi[r][i] } : *ia[i]; if (r < L && k != (int) L + 1) continue;
        if (wider(&z, st[r][i].min, st[r][i].max)) { bad = 1; viol("abstract transform is wider than its rounds", "%s: after round %u a[%u] in [%lld,%lld], the round gives [%lld,%lld]", H_op, r, i, (long long) z.min, (long long) z.max, (long long) st[r][i].min, (long long) st[r][i].max); } }
      if (bad) break;
      stat_add("rounds_compared", 1);
    }
    for (uint32_t i = 0; i < n; i++) { if (shape == 0) { stat_max("certified_bound_max", ia[i]->max); stat_min("certified_bound_min", ia[i]->min); } A->del(ia[i]); if (ab) A->del(pp[i]); }
    case_seen(hash_bytes(st[0], n * sizeof(ivl_t), hash_bytes(w, n * sizeof(ivl_t), (uint64_t)(f - A->xfs) * 2 + (uint64_t) ab)), 1);
    if (idx < 30) sample("%s: no interval wider than its round", H_op);
  }
}
static void elementwise(void) {
  static const char *nm[] = { "normalize", "normalize_inv3", "shift", "reduce", "reduce_twice", "correct", "mul16", "mul", "scalar" };
  uint32_t iters = H_thorough ? 6000 : 700; static ivl_t *b[600], *o[600], in[600]; static int16_t pw[600];
  for (uint32_t it = 0; it < iters; it++) {
    int op = (int)(it % 9); uint32_t n = rng_below(&R, 24); int32_t k = rng_below(&R, 8) ? (int32_t) rng_range(&R, -524287, 536573) : 0;
    int64_t l = INT32_MIN, h = INT32_MAX; if (op == 2) l = 0, h = Q - 1; if (op == 5) l = -Q, h = 2 * Q - 1; if (op == 7) l = -524287, h = 536573;
    OP("abstract %s n=%u", nm[op], n);
    for (uint32_t i = 0; i < n; i++) { pick_iv(&in[i], l, h); if (it < 36 && rng_below(&R, 2)) in[i] = (ivl_t) { l, h }; ia[i] = A->interval(in[i].min, in[i].max); pw[i] = (int16_t)(rng_below(&R, 6) ? rng_range(&R, -6144, 6144) : 0); if (op == 7) { int64_t z = rng_range(&R, -524287, 536000); b[i] = A->interval(z, z + (int64_t) rng_below(&R, 6)); } }
    cap_begin();
    switch (op) { case 0: A->a_normalize(ia, n); break; case 1: A->a_normalize_inv3(ia, n); break; case 2: A->a_shift(ia, n); break; case 3: A->a_reduce(ia, n); break; case 4: A->a_reduce2(ia, n); break; case 5: A->a_correct(ia, n); break;
      case 6: A->a_mul16(ia, n, pw); break; case 7: A->a_mul(o, n, (const ivl_t **) ia, (const ivl_t **) b); break; default: A->a_scalar(ia, n, k); }
    free(cap_end());
    for (uint32_t i = 0; i < n; i++) {
      ivl_t *r = op == 7 ? o[i] : ia[i]; int64_t L = 0, H = Q - 1;
      switch (op) { case 0: image(0, &in[i], &L, &H); break; case 1: if (in[i].min == in[i].max) L = H = (int64_t) modq64(in[i].min) * 8193 % Q; break; case 2: image(1, &in[i], &L, &H); break; case 5: image(2, &in[i], &L, &H); break;
        case 3: exact_mul(in[i].min, in[i].max, 1, &L, &H); break; case 4: { int64_t a, c; exact_mul(in[i].min, in[i].max, 1, &a, &c); exact_mul(a, c, 1, &L, &H); break; } case 6: exact_mul(in[i].min, in[i].max, pw[i], &L, &H); break;
        case 7: mulhull(&in[i], b[i], &L, &H); break; default: exact_mul(in[i].min, in[i].max, k, &L, &H); }
      if (wider(r, L, H)) viol("abstract elementwise operation is wider than necessary", "%s element %u: [%lld,%lld] gives [%lld,%lld], values span [%lld,%lld]", H_op, i, (long long) in[i].min, (long long) in[i].max, (long long) r->min, (long long) r->max, (long long) L, (long long) H);
      if (op == 7) { A->del(o[i]); A->del(b[i]); } A->del(ia[i]);
    }
    stat_add("elementwise_runs", 1); case_seen(hash_bytes(in, sizeof(ivl_t) * n, (uint64_t) op + 100), n > 0);
  }
}
int main(int argc, char **argv) {
  h_init(argc, argv); rng_seed(&R, 0x19); h_watch("tight");
  ops(); bounds(); xforms(); elementwise();
  stat_add("intervals_judged", judged); stat_add("intervals_exact", eq);
  return h_finish();
}

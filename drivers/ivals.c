/* C12 (mode ops) and C13 (mode bounds) monitor. */
#include "xf.h"
#include "shim_iv.h"
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include "ivcommon.h"
/* concrete values of an interval worth trying */
static int members(const ivl_t *v, int64_t *x, int max) {
  uint64_t w = (uint64_t) v->max - (uint64_t) v->min; int k = 0;
  if (w < (uint64_t) max) { for (uint64_t i = 0; i <= w; i++) x[k++] = (int64_t)((uint64_t) v->min + i); return k; }
  int64_t c[] = { 0, 1, -1, 6144, 6145, 12288, 12289, -12289, -12288, 24577 };
  x[k++] = v->min; x[k++] = v->max;
  for (int i = 1; i < 6; i++) { x[k++] = v->min + i; x[k++] = v->max - i; }
  for (int i = 0; i < 10; i++) if (c[i] >= v->min && c[i] <= v->max) x[k++] = c[i];
  int64_t b1 = v->min | 4095, b2 = v->max & ~(int64_t) 4095;
  for (int d = -1; d <= 1; d++) { i128 z = (i128) b1 + d; if (z >= v->min && z <= v->max) x[k++] = (int64_t) z; z = (i128) b2 + d; if (z >= v->min && z <= v->max) x[k++] = (int64_t) z; }
  while (k < max) x[k++] = rng_range(&R, v->min, v->max);
  return k;
}
static void judge(const char *op, const ivl_t *a, const ivl_t *b, int64_t k, const ivl_t *r, i128 val, int64_t x, int64_t y) {
  if (val < r->min || val > r->max)
    viol(op, "%s([%lld,%lld], [%lld,%lld], k=%lld) = [%lld,%lld] but the value for %lld, %lld is %lld", op, (long long) a->min, (long long) a->max, b ? (long long) b->min : 0, b ? (long long) b->max : 0, (long long) k,
         (long long) r->min, (long long) r->max, (long long) x, (long long) y, (long long) val);
}
static void ordered(const char *op, const ivl_t *a, const ivl_t *r) { if (r->min > r->max) viol(op, "%s([%lld,%lld],...) = [%lld,%lld] is not ordered", op, (long long) a->min, (long long) a->max, (long long) r->min, (long long) r->max); }
/* operation expected to stop with an error: run in a child; 1 if it returned instead */
static int returns(int op, const ivl_t *a, const ivl_t *b, int64_t x, int64_t y, ivl_t *out, int *msg) {
  int fd[2], pd[2]; if (pipe(fd) || pipe(pd)) { perror("pipe"); exit(3); }
  fflush(stdout); pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
    dup2(fd[1], 2); int z = open("/dev/null", O_WRONLY); dup2(z, 1);
    ivl_t *r = op == 0 ? A->add(a, b) : op == 1 ? A->sub(a, b) : op == 2 ? A->neg(a) : A->interval(x, y);
    if (write(pd[1], r, sizeof *r) < 0) {}
    _exit(0);
  }
  close(fd[1]); close(pd[1]);
  char buf[4096]; ssize_t k = 0, r; while ((r = read(fd[0], buf + k, sizeof buf - (size_t) k)) > 0) k += r;
  ssize_t got = read(pd[0], out, sizeof *out); close(fd[0]); close(pd[0]);
  int st; waitpid(p, &st, 0); *msg = k > 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && got == (ssize_t) sizeof *out) return 1;
  return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 2 : 0; /* 2: exit status 0 without a result */
}
static void do_ops(void) {
  static int64_t x[4200], y[4200]; uint64_t cases = H_thorough ? 1500000 : 90000, vals = 0, ovf = 0;
#ifdef H_SANITIZED
  cases /= 4;
#endif
  static const char *names[] = { "add", "sub", "neg", "red", "red_twice", "red_scale", "red_mul", "normal", "normal_inv3", "shift", "correct", "interval" };
  for (uint64_t c = 0; c < cases; c++) {
    int op = (int)(c % 12); ivl_t a, b = { 0, 0 }, *r = NULL; int64_t k = 0; int na, nb, two = 0;
    OP("%s", names[op]);
    int64_t lim = INT64_MAX;
    switch (op) {
    case 0: case 1: case 2: {
      pick_iv(&a, INT64_MIN, INT64_MAX); pick_iv(&b, INT64_MIN, INT64_MAX);
      if (rng_below(&R, 8) == 0) { /* exactly at the limit */
        int64_t d = rng_range(&R, -1, 1);
        if (op == 0 && b.max > 0) { a.max = INT64_MAX - b.max + (d > 0 && b.max > 0 ? 1 : d < 0 ? -1 : 0); if (a.min > a.max) a.min = a.max; }
        if (op == 1 && b.min < 0) { a.max = (int64_t)((i128) INT64_MAX + b.min + (d > 0)); if (a.min > a.max) a.min = a.max; }
        if (op == 1 && b.max > 0 && (rng_u64(&R) & 1)) { a.min = (int64_t)((i128) INT64_MIN + b.max - (d > 0)); if (a.min > a.max) a.max = a.min; }
        if (op == 2) a.min = INT64_MIN + (d > 0), a.max = a.min > a.max ? a.min : a.max;
      }
      i128 lo = op == 0 ? (i128) a.min + b.min : op == 1 ? (i128) a.min - b.max : -(i128) a.max, hi = op == 0 ? (i128) a.max + b.max : op == 1 ? (i128) a.max - b.min : -(i128) a.min;
      if (lo < INT64_MIN || hi > INT64_MAX) {
        ivl_t o; int msg, q = returns(op, &a, &b, 0, 0, &o, &msg); ovf++;
        if (q == 1) viol("overflow not reported", "%s([%lld,%lld],[%lld,%lld]) returned [%lld,%lld]", names[op], (long long) a.min, (long long) a.max, (long long) b.min, (long long) b.max, (long long) o.min, (long long) o.max);
        else if (q == 2) viol("overflow not reported", "%s: process ended successfully", names[op]);
        else if (!msg) viol("overflow not reported", "%s([%lld,%lld],[%lld,%lld]) stopped without a message", names[op], (long long) a.min, (long long) a.max, (long long) b.min, (long long) b.max);
        case_seen(hash_bytes(&a, sizeof a, hash_bytes(&b, sizeof b, (uint64_t) op + 1)), 1);
        continue;
      }
      r = op == 0 ? A->add(&a, &b) : op == 1 ? A->sub(&a, &b) : A->neg(&a); ordered(names[op], &a, r);
      judge(names[op], &a, &b, 0, r, lo, op == 2 ? a.max : a.min, op == 1 ? b.max : b.min); judge(names[op], &a, &b, 0, r, hi, a.max, b.max);
      vals += 2; break; }
    case 3: case 4: {
      pick_iv(&a, INT64_MIN, INT64_MAX);
      r = op == 3 ? A->red(&a) : A->red_twice(&a); ordered(names[op], &a, r);
      if (op == 3) { int64_t mn, mx; exact_mul(a.min, a.max, 1, &mn, &mx); judge("red", &a, NULL, 0, r, mn, 0, 0); judge("red", &a, NULL, 0, r, mx, 0, 0); vals += 8192; }
      na = members(&a, x, 4096);
      for (int i = 0; i < na; i++) judge(names[op], &a, NULL, 0, r, op == 3 ? red128(x[i]) : red128(red128(x[i])), x[i], 0);
      vals += (uint64_t) na; break; }
    case 5: {
      k = rng_below(&R, 12) == 0 ? 0 : rng_below(&R, 3) ? rng_range(&R, -6144, 6144) : rng_below(&R, 2) ? rng_range(&R, -2147483648LL, 2147483647LL) : (int64_t)(1u << rng_below(&R, 20)) * (rng_u64(&R) & 1 ? 1 : -1);
      lim = ((int64_t) 1 << 61) / (llabs(k) + 1); pick_iv(&a, -lim, lim);
      r = A->red_scale(k, &a); ordered(names[op], &a, r);
      int64_t mn, mx; exact_mul(a.min, a.max, k, &mn, &mx); judge("red_scale", &a, NULL, k, r, mn, 0, 0); judge("red_scale", &a, NULL, k, r, mx, 0, 0); vals += 8192; break; }
    case 6: {
      two = 1; int64_t wl = rng_below(&R, 3) ? 6144 : 40000; if (rng_below(&R, 8) == 0) wl = 1000000;
      pick_iv(&b, -wl, wl); if (b.max - b.min > 13000) b.max = b.min + 13000;
      if (rng_below(&R, 10) == 0) b.min = b.max = 0;
      lim = rng_below(&R, 2) ? 100000 : ((int64_t) 1 << 60) / (wl + 13001);
      do pick_iv(&a, -lim, lim); while (0);
      if (rng_below(&R, 10) == 0) a.min = a.max = 0;
      r = rng_u64(&R) & 1 ? A->red_mul(&a, &b) : A->red_mul(&b, &a); ordered(names[op], &a, r);
      na = 0; nb = members(&b, y, 24);
      for (int j = 0; j < nb; j++) { int64_t mn, mx; exact_mul(a.min, a.max, y[j], &mn, &mx); judge("red_mul", &a, &b, 0, r, mn, 0, y[j]); judge("red_mul", &a, &b, 0, r, mx, 0, y[j]); vals += 8192; }
      break; }
    case 7: case 8: {
      pick_iv(&a, INT64_MIN, INT64_MAX); r = op == 7 ? A->normal(&a) : A->normal_inv3(&a); ordered(names[op], &a, r);
      na = members(&a, x, 4096); for (int i = 0; i < na; i++) { int64_t v = modq64(x[i]); if (op == 8) v = v * 8193 % Q; judge(names[op], &a, NULL, 0, r, v, x[i], 0); }
      vals += (uint64_t) na; break; }
    case 9: pick_iv(&a, 0, Q - 1); r = A->shift(&a); ordered(names[op], &a, r);
      for (int64_t v = a.min; v <= a.max; v++) judge("shift", &a, NULL, 0, r, v > 6144 ? v - Q : v, v, 0); vals += (uint64_t)(a.max - a.min + 1); break;
    case 10: pick_iv(&a, -Q, 2 * Q - 1); r = A->correct(&a); ordered(names[op], &a, r);
      for (int64_t v = a.min; v <= a.max; v++) judge("correct", &a, NULL, 0, r, v < 0 ? v + Q : v >= Q ? v - Q : v, v, 0); vals += (uint64_t)(a.max - a.min + 1); break;
    default: {
      pick_iv(&a, INT64_MIN, INT64_MAX); r = A->interval(a.min, a.max);
      if (r->min != a.min || r->max != a.max) viol("interval", "interval(%lld,%lld) = [%lld,%lld]", (long long) a.min, (long long) a.max, (long long) r->min, (long long) r->max);
      ivl_t *p = A->point(a.min); if (p->min != a.min || p->max != a.min) viol("point", "point(%lld) = [%lld,%lld]", (long long) a.min, (long long) p->min, (long long) p->max); A->del(p);
      if (c % 24 == 11 && a.min < a.max) { ivl_t o; int msg; if (returns(3, NULL, NULL, a.max, a.min, &o, &msg)) viol("unordered interval", "interval(%lld,%lld) returned", (long long) a.max, (long long) a.min); stat_add("unordered_constructions", 1); }
      vals++; break; }
    }
    if (c < 24) sample("%s([%lld,%lld]%s) = [%lld,%lld]", names[op], (long long) a.min, (long long) a.max, two ? ", ..." : "", (long long) r->min, (long long) r->max);
    case_seen(hash_bytes(&a, sizeof a, hash_bytes(&b, sizeof b, (uint64_t) op + 1 + (uint64_t) k * 64)), 1);
    A->del(r);
  }
  stat_add("abstract_operations", cases); stat_add("concrete_values_compared", vals); stat_add("overflows_expected", ovf);
}

/* ---------- C13 ---------- */
static uint64_t nq, viv;
static void check_w(int64_t a, int64_t b, int64_t w) {
  int64_t mn, mx, m; exact_mul(a, b, w, &mn, &mx);
  OP("bounds of red(%lld x), x in [%lld,%lld]", (long long) w, (long long) a, (long long) b);
  for (int max = 0; max < 2; max++) {
    m = INT64_MIN; int64_t r = max ? A->max_red_mul(a, b, w, &m) : A->min_red_mul(a, b, w, &m), e = max ? mx : mn;
    if (r != e) viol(max ? "max_red_mul" : "min_red_mul", "a=%lld b=%lld w=%lld: returned %lld, exact %lld", (long long) a, (long long) b, (long long) w, (long long) r, (long long) e);
    else if (m < a || m > b || red128((i128) w * m) != r) viol(max ? "max_red_mul argument" : "min_red_mul argument", "a=%lld b=%lld w=%lld: bound %lld, argument %lld", (long long) a, (long long) b, (long long) w, (long long) r, (long long) m);
  }
  if (w == 1 || rng_below(&R, 8) == 0) for (int max = 0; max < 2; max++) {
    exact_mul(a, b, 1, &mn, &mx);
    m = INT64_MIN; int64_t r = max ? A->max_red(a, b, &m) : A->min_red(a, b, &m), e = max ? mx : mn;
    if (r != e) viol(max ? "max_red" : "min_red", "a=%lld b=%lld: returned %lld, exact %lld", (long long) a, (long long) b, (long long) r, (long long) e);
    else if (m < a || m > b || red128(m) != r) viol(max ? "max_red argument" : "min_red argument", "a=%lld b=%lld: bound %lld, argument %lld", (long long) a, (long long) b, (long long) r, (long long) m);
    nq++;
  }
  nq += 2; int64_t key[3] = { a, b, w }; case_seen(hash_bytes(key, sizeof key, 9), b > a);
}
static void check_iv(int64_t a, int64_t b, int64_t low, int64_t high) {
  int64_t e[2], m, mw; OP("bounds of red(w x), x in [%lld,%lld], w in [%lld,%lld]", (long long) a, (long long) b, (long long) low, (long long) high);
  exact_iv(a, b, low, high, &e[0], &e[1]);
  for (int max = 0; max < 2; max++) {
    m = mw = INT64_MIN; const char *nm = max ? "max_red_mul_interval" : "min_red_mul_interval";
    int64_t r = max ? A->max_red_mul_interval(a, b, low, high, &m, &mw) : A->min_red_mul_interval(a, b, low, high, &m, &mw);
    if (max ? r < e[1] : r > e[0]) viol(nm, "x in [%lld,%lld], w in [%lld,%lld]: returned %lld but %lld occurs", (long long) a, (long long) b, (long long) low, (long long) high, (long long) r, (long long) e[max]);
    else if (r != 0 && (m < a || m > b || mw < low || mw > high || red128((i128) m * mw) != r)) viol(nm, "x in [%lld,%lld], w in [%lld,%lld]: bound %lld is not attained at the reported x=%lld w=%lld", (long long) a, (long long) b, (long long) low, (long long) high, (long long) r, (long long) m, (long long) mw);
    if (r != 0) viv++;
  }
  nq += 2; int64_t key[4] = { a, b, low, high }; case_seen(hash_bytes(key, sizeof key, 10), 1);
}
static void check_step(int64_t b, int64_t low, int64_t high) {
  int64_t mn, mx, r; OP("one-round bounds b=%lld w in [%lld,%lld]", (long long) b, (long long) low, (long long) high);
  exact_iv(-b, b, low, high, &mn, &mx);
  r = A->ct_bound(b, low, high); if (r < b + mabs(mn, mx)) viol("ct_bound", "b=%lld w in [%lld,%lld]: returned %lld, %lld occurs", (long long) b, (long long) low, (long long) high, (long long) r, (long long)(b + mabs(mn, mx)));
  if (low == high) { r = A->ct_bound_fixed(b, low); if (r < b + mabs(mn, mx)) viol("ct_bound_fixed", "b=%lld w=%lld: returned %lld, %lld occurs", (long long) b, (long long) low, (long long) r, (long long)(b + mabs(mn, mx))); }
  exact_iv(-2 * b, 2 * b, low, high, &mn, &mx); int64_t e = mabs(mn, mx) > 2 * b ? mabs(mn, mx) : 2 * b;
  r = A->gs_bound(b, low, high); if (r < e) viol("gs_bound", "b=%lld w in [%lld,%lld]: returned %lld, %lld occurs", (long long) b, (long long) low, (long long) high, (long long) r, (long long) e);
  if (low == high) { r = A->gs_bound_fixed(b, low); if (r < e) viol("gs_bound_fixed", "b=%lld w=%lld: returned %lld, %lld occurs", (long long) b, (long long) low, (long long) r, (long long) e); }
  nq += 2; stat_add("one_round_bounds", low == high ? 4 : 2); int64_t key[3] = { b, low, high }; case_seen(hash_bytes(key, sizeof key, 12), 1);
}
static int64_t pick_w(void) {
  switch (rng_below(&R, 6)) { case 0: return rng_range(&R, -32768, 32767); case 1: { int64_t v = (int64_t) 1 << rng_below(&R, 15); return rng_u64(&R) & 1 ? v : -v; } case 2: return rng_range(&R, -3, 3);
    case 3: return 4096 * rng_range(&R, -20, 20) + rng_range(&R, -1, 1); case 4: return rng_range(&R, -200, 200) * 256; default: return rng_range(&R, -6144, 6144); }
}
static void do_bounds(void) {
  uint64_t idx = 0;
  /* every w of the tables' range with several ranges of x */
  uint32_t per = H_thorough ? 400 : 60, scale = H_thorough ? 10 : 3;
#ifdef H_SANITIZED
  per = 6; scale = 1;
#endif
  for (int64_t w = -6144; w <= 6144; w++) { if (!((int)(idx++ % (uint64_t) H_nshards) == H_shard)) continue;
    for (uint32_t k = 0; k < per; k++) { ivl_t v;
      if (k == 0) v = (ivl_t) { -21499, 21499 }; else if (k == 1) v = (ivl_t) { -6144, 6144 }; else if (k == 2) v = (ivl_t) { 0, 12288 };
      else if (k < 10) pick_iv(&v, -30000, 30000); else if (k < 16) pick_iv(&v, -2147483648LL, 2147483647LL); else pick_iv(&v, -((int64_t) 1 << 46), (int64_t) 1 << 46);
      check_w(v.min, v.max, w); }
    stat_add("w_values", 1); }
  for (uint32_t k = 0; k < 15000u * scale; k++) { ivl_t v; int64_t w = pick_w(); if (rng_below(&R, 8) == 0) w *= 100003; int64_t lim = ((int64_t) 1 << 60) / (llabs(w) + 1) - 5000; if (lim < 100) lim = 100; pick_iv(&v, -lim, lim); check_w(v.min, v.max, w); }
  /* plain reduction on the whole 64-bit range */
  for (uint32_t k = 0; k < 10000u * scale; k++) { ivl_t v; pick_iv(&v, INT64_MIN, INT64_MAX); int64_t mn, mx, m; exact_mul(v.min, v.max, 1, &mn, &mx); OP("red on [%lld,%lld]", (long long) v.min, (long long) v.max);
    int64_t r = A->max_red(v.min, v.max, &m); if (r != mx || m < v.min || m > v.max || red128(m) != r) viol("max_red", "a=%lld b=%lld: returned %lld at %lld, exact %lld", (long long) v.min, (long long) v.max, (long long) r, (long long) m, (long long) mx);
    r = A->min_red(v.min, v.max, &m); if (r != mn || m < v.min || m > v.max || red128(m) != r) viol("min_red", "a=%lld b=%lld: returned %lld at %lld, exact %lld", (long long) v.min, (long long) v.max, (long long) r, (long long) m, (long long) mn);
    nq += 2; case_seen(hash_bytes(&v, sizeof v, 8), 1); }
  stat_add("plain_reduction_bounds", 20000 * scale);
  /* short ranges around block edges, both arguments */
  for (uint32_t k = 0; k < 5000u * scale; k++) { ivl_t v; pick_iv(&v, -3000000, 3000000); int64_t lo = pick_w(), hi = lo + (int64_t) rng_below(&R, 12); if (rng_below(&R, 3) == 0) { int64_t c = v.min & ~(int64_t) 4095; v.min = c + (int64_t) rng_below(&R, 40); v.max = v.min + (int64_t) rng_below(&R, 300); } check_iv(v.min, v.max, lo, hi); }
  for (uint32_t k = 0; k < 60u * scale; k++) { ivl_t v, w; pick_iv(&v, -60000, 60000); pick_iv(&w, -6144, 6144); if (w.max - w.min > 3000 && !H_thorough) w.max = w.min + 3000; check_iv(v.min, v.max, w.min, w.max); }
  if (H_shard == 0) { check_iv(-21499, 21499, -6144, 6144); check_iv(0, 12288, -6144, 6144); check_iv(-6144, 6144, -6144, 6144); check_iv(5, 5, -6144, 6144); check_step(21499, -6144, 6144); check_step(12288, -6144, 6144); }
  for (uint32_t k = 0; k < 3000u * scale; k++) { int64_t b = rng_below(&R, 4) ? rng_range(&R, 0, 60000) : rng_range(&R, 0, 1 << 28), lo = pick_w(), hi = rng_below(&R, 2) ? lo : lo + (int64_t) rng_below(&R, 9); check_step(b, lo, hi); }
  /* whole transforms: round k's bound must cover one more round applied to bound k-1, and real runs of ntt_red */
  for (uint32_t k = 0; k < 24u * scale; k++) {
    uint32_t n = 1u << (k < 11 ? 1 + k : 1 + rng_below(&R, 11)); static uint32_t roots[2048], t[2048]; static int16_t p[2048]; int64_t bd[16]; static root_t rt; static int32_t v[2048], in[2048];
    uint32_t m = psi_roots(n, roots); root_init(&rt, n, roots[rng_below(&R, m)]);
    for (const xf_t *x = impl_red.xfs; x->name; x++) {
      int gs = (x->kind & K_GS) != 0; kind_table(t, &rt, x->kind, 8193); for (uint32_t i = 0; i < n; i++) p[i] = (int16_t) shiftq(t[i]);
      int64_t b0 = rng_below(&R, 2) ? 21499 : rng_below(&R, 21500); for (int i = 0; i < 16; i++) bd[i] = -7;
      OP("%s bounds n=%u psi=%u b0=%lld", gs ? "ntt_gs" : "ntt_ct", n, rt.psi, (long long) b0);
      int64_t r = gs ? A->ntt_gs_bounds(b0, n, p, bd) : A->ntt_ct_bounds(b0, n, p, bd); uint32_t L = lg2(n); const char *nm = gs ? "ntt_gs_bounds" : "ntt_ct_bounds";
      if (bd[0] < b0 || bd[L] != r) viol(nm, "n=%u: first bound %lld for inputs up to %lld, last bound %lld, returned %lld", n, (long long) bd[0], (long long) b0, (long long) bd[L], (long long) r);
      uint32_t tt = gs ? n / 2 : 1;
      for (uint32_t i = 1; i <= L; i++, tt = gs ? tt / 2 : tt * 2) {
        int64_t b = bd[i - 1], need = gs ? 2 * b : b;
        for (uint32_t j = 0; j < tt; j++) { int64_t mn, mx, e; if (gs) { exact_mul(-2 * b, 2 * b, p[tt + j], &mn, &mx); e = mabs(mn, mx); } else { exact_mul(-b, b, p[tt + j], &mn, &mx); e = b + mabs(mn, mx); } if (e > need) need = e; }
        if (bd[i] < need) viol(nm, "n=%u psi=%u b0=%lld: bound for round %u is %lld, values up to %lld occur", n, rt.psi, (long long) b0, i, (long long) bd[i], (long long) need);
        stat_add("transform_rounds", 1);
      }
      for (int q = 0; q < 6; q++) {
        gen_vec(&R, in, n, (int32_t) -b0, (int32_t) b0, q < 3 ? 1 + q : (int) rng_below(&R, GEN_KINDS)); memcpy(v, in, 4 * n); x->f(v, n, p);
        for (uint32_t i = 0; i < n; i++) if (llabs((int64_t) v[i]) > r) { viol(nm, "%s n=%u psi=%u inputs up to %lld: output %d exceeds the bound %lld", x->name, n, rt.psi, (long long) b0, v[i], (long long) r); break; }
        stat_add("concrete_transforms", 1); case_seen(hash_bytes(in, 4 * n, (uint64_t) n + (uint64_t) x->kind * 4096), 1);
      }
    }
  }
  stat_add("bounds_compared", nq); stat_add("attained_interval_bounds", viv);
  sample("last: %s", H_op);
}
int main(int argc, char **argv) {
  h_init(argc, argv); rng_seed(&R, 0x1213); h_watch("ivals");
  if (!strcmp(H_mode, "ops")) do_ops(); else do_bounds();
  return h_finish();
}

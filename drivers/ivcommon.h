/* exact extremes of the reduction and interval generators, shared by ivals.c and tight.c */
typedef __int128 i128;
static rng_t R;
#define A (&iv_api)
static int64_t fdiv4096(i128 x) { return (int64_t)(x >= 0 ? x / 4096 : -((-x + 4095) / 4096)); }
static int64_t red128(i128 x) { int64_t q = fdiv4096(x); return 3 * (int64_t)(x - (i128) q * 4096) - q; }

/* exact extremes of red(w*x), a<=x<=b: red(w(x+4096)) = red(w x) - w, so one period next to the favourable end decides */
static void exact_mul(int64_t a, int64_t b, int64_t w, int64_t *mn, int64_t *mx) {
  int64_t len = (uint64_t) b - (uint64_t) a < 4096 ? b - a : 4095;
  /* the function decreases by w per period: maximum near a if w>=0, near b otherwise */
  int64_t lo1 = w >= 0 ? a : b - len, lo2 = w >= 0 ? b - len : a;
  int64_t m = INT64_MIN, k = INT64_MAX;
  i128 p = (i128) w * lo1, q = (i128) w * lo2;
  for (int64_t i = 0; i <= len; i++, p += w, q += w) {
    int64_t r = 3 * (int64_t)(p & 4095) - (int64_t)(p >> 12); if (r > m) m = r;
    r = 3 * (int64_t)(q & 4095) - (int64_t)(q >> 12); if (r < k) k = r;
  }
  *mn = k; *mx = m;
}
static int64_t pick64(void) {
  switch (rng_below(&R, 10)) {
  case 0: return (int64_t) rng_u64(&R);
  case 1: return rng_range(&R, -30000, 30000);
  case 2: return rng_range(&R, -2147483648LL, 2147483647LL);
  case 3: { int64_t t[] = { INT64_MIN, INT64_MAX, INT64_MIN + 1, INT64_MAX - 1, 0, 1, -1, 4095, 4096, -4096, -4097, 12288, 12289, -12289, 24577, 6144, 6145, -6144, INT32_MAX, INT32_MIN }; return t[rng_below(&R, 20)]; }
  case 4: return (rng_range(&R, -6, 6)) * 4096 + rng_range(&R, -2, 2);
  case 5: return (rng_range(&R, -6, 6)) * 12289 + rng_range(&R, -2, 2);
  case 6: { int64_t v = (int64_t) 1 << rng_below(&R, 63); return (rng_u64(&R) & 1 ? v : -v) + rng_range(&R, -3, 3); }
  case 7: return INT64_MAX - (int64_t) rng_below(&R, 100000);
  case 8: return INT64_MIN + (int64_t) rng_below(&R, 100000);
  default: return (int64_t) rng_u64(&R) >> rng_below(&R, 60);
  }
}
static int64_t add_clamp(int64_t a, int64_t d) { i128 x = (i128) a + d; return x > INT64_MAX ? INT64_MAX : (int64_t) x; }
static void pick_iv(ivl_t *v, int64_t lo, int64_t hi) {
  for (;;) {
    int64_t a, b;
    if (lo == INT64_MIN && hi == INT64_MAX) a = pick64(); else a = rng_below(&R, 3) ? rng_range(&R, lo, hi) : rng_below(&R, 2) ? pick64() : (rng_u64(&R) & 1 ? lo : hi);
    switch (rng_below(&R, 5)) {
    case 0: b = a; break;
    case 1: b = add_clamp(a, (int64_t) rng_below(&R, 40)); break;
    case 2: b = add_clamp(a, (int64_t) rng_below(&R, 30000)); break;
    case 3: b = lo == INT64_MIN ? pick64() : rng_range(&R, lo, hi); break;
    default: b = add_clamp(a, (int64_t) 1 << rng_below(&R, 40)); break;
    }
    if (a > b) { int64_t t = a; a = b; b = t; }
    if (a < lo || b > hi) continue;
    v->min = a; v->max = b; return;
  }
}
static void exact_iv(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *mn, int64_t *mx) {
  *mn = INT64_MAX; *mx = INT64_MIN;
  for (int64_t w = low; w <= high; w++) { int64_t l, h; exact_mul(a, b, w, &l, &h); if (l < *mn) *mn = l; if (h > *mx) *mx = h; }
}
static int64_t mabs(int64_t a, int64_t b) { a = llabs(a); b = llabs(b); return a > b ? a : b; }

/* C06 monitor: elementwise operations on enumerated operand domains. Every
 * element of every call is compared with the definition. */
#include "gen.h"
static rng_t R;
static impl_t I[4]; /* std naive red asm */
enum { B = 4096 };
static int32_t in[B + 64], a[B + 64], b[B + 64], c[B + 64];
static uint16_t p16[B + 64];

static void bad(const char *op, const char *impl, int64_t x, int64_t y, int64_t got, int64_t want) {
  viol(op, "%s/%s: operands %lld, %lld: got %lld, expected %lld", impl, op, (long long) x, (long long) y, (long long) got, (long long) want);
}
typedef void (*un_f)(int32_t *, uint32_t);
static int64_t o_red(int64_t x) { return red_def(x); }
static int64_t o_red2(int64_t x) { return red_def(red_def(x)); }
static int64_t o_norm(int64_t x) { return modq64(x); }
static int64_t o_norm3(int64_t x) { return modq64((int64_t) modq64(x) * 8193); }
static int64_t o_shift(int64_t x) { return x > 6144 ? x - Q : x; }
static int64_t o_correct(int64_t x) { return x < 0 ? x + Q : x >= Q ? x - Q : x; }

/* unary op over x = lo, lo+step, ... (count values), in blocks */
static void unary(const char *op, const char *impl, un_f f, int64_t (*o)(int64_t), int64_t lo, uint64_t count, int64_t blo, int64_t bhi, uint32_t blk) {
  uint64_t done = 0;
  while (done < count) {
    uint32_t m = count - done < blk ? (uint32_t)(count - done) : blk;
    if ((I[3].reduce == f || I[3].reduce2 == f || I[3].shift == f || I[3].correct == f) && m % 16) m = m < 16 ? 16 : m & ~15u; /* tail handled by overlap */
    int64_t base = lo + (int64_t) done;
    for (uint32_t i = 0; i < m; i++) { int64_t x = base + i; if (x > lo + (int64_t) count - 1) x = lo + (int64_t) count - 1; in[i] = (int32_t) x; }
    memcpy(a, in, 4 * m);
    OP("%s/%s x=%lld..", impl, op, (long long) base);
    f(a, m);
    for (uint32_t i = 0; i < m; i++) {
      int64_t w = o(in[i]);
      if (a[i] != w || w < blo || w > bhi) { bad(op, impl, in[i], 0, a[i], w); break; }
    }
    done += m;
  }
}

/* products: rows x in my share, columns enumerated in blocks */
static void mulrow(int im, int64_t x, int64_t ylo, int64_t yhi, int red) {
  const impl_t *t = &I[im];
  for (int64_t y0 = ylo; y0 <= yhi; y0 += B) {
    uint32_t m = yhi - y0 + 1 < B ? (uint32_t)(yhi - y0 + 1) : B;
    uint32_t mm = im == 3 ? (m + 15) & ~15u : m;
    for (uint32_t i = 0; i < mm; i++) b[i] = (int32_t)(y0 + (i < m ? i : m - 1));
    int64_t want[1]; (void) want;
    /* array by array */
    for (uint32_t i = 0; i < mm; i++) a[i] = (int32_t) x;
    memset(c, 0x5A, 4 * mm);
    OP("%s/mul x=%lld y=%lld..", t->impl, (long long) x, (long long) y0);
    if (x & 1) t->mul(c, mm, a, b); else t->mul(c, mm, b, a);
    for (uint32_t i = 0; i < mm; i++) { int64_t w = red ? red_def(x * (int64_t) b[i]) : (int64_t) ((uint64_t) (x * b[i]) % Q); if (c[i] != w) { bad("product of arrays", t->impl, x, b[i], c[i], w); break; } }
    /* array by scalar (scalar = x) */
    memcpy(c, b, 4 * mm);
    OP("%s/scalar x=%lld y=%lld..", t->impl, (long long) x, (long long) y0);
    t->scal(c, mm, (int32_t) x);
    for (uint32_t i = 0; i < mm; i++) { int64_t w = red ? red_def(x * (int64_t) b[i]) : (int64_t) ((uint64_t) (x * b[i]) % Q); if (c[i] != w) { bad("product by scalar", t->impl, b[i], x, c[i], w); break; } }
    /* array by 16-bit table (entries y) */
    if (y0 >= -32768 && y0 + m - 1 <= (red ? 32767 : 65535)) {
      for (uint32_t i = 0; i < mm; i++) { a[i] = (int32_t) x; p16[i] = (uint16_t) b[i]; }
      OP("%s/mul16 x=%lld y=%lld..", t->impl, (long long) x, (long long) y0);
      t->mul16(a, mm, p16);
      for (uint32_t i = 0; i < mm; i++) { int64_t w = red ? red_def(x * (int64_t) b[i]) : (int64_t) ((uint64_t) (x * b[i]) % Q); if (a[i] != w) { bad("product by table", t->impl, x, b[i], a[i], w); break; } }
    }
  }
}

/* lengths and independence: prefix processed, remainder untouched, each element independent of its neighbours */
static void lengths(void) {
  static const char *ops[] = { "mul16", "mul", "scal", "normalize", "normalize_inv3", "shift", "reduce", "reduce2", "correct" };
  for (int im = 0; im < 4; im++) for (int op = 0; op < 9; op++) {
    const impl_t *t = &I[im];
    void *fp[9] = { t->mul16, t->mul, t->scal, t->normalize, t->normalize_inv3, t->shift, t->reduce, t->reduce2, t->correct };
    if (!fp[op]) continue;
    for (uint32_t n = (im == 3 ? 16 : 0); n <= (H_thorough ? 2080u : 260u); n += (im == 3 ? 16 : 1)) for (int rep = 0; rep < (n < 80 ? 24 : 6); rep++) {
      int kind = (int) rng_below(&R, GEN_KINDS);
      int64_t lo = im < 2 ? 0 : op == 5 ? 0 : op == 8 ? -Q : op == 0 || op == 1 || op == 2 ? -500000 : INT32_MIN;
      int64_t hi = im < 2 || op == 5 ? Q - 1 : op == 8 ? 2 * Q - 1 : op <= 2 ? 500000 : INT32_MAX;
      if (n) { if (op >= 3 && hi == INT32_MAX) { for (uint32_t i = 0; i < n; i++) in[i] = (int32_t) rng_u64(&R); } else gen_vec(&R, in, n, (int32_t) lo, (int32_t) hi, kind); }
      uint32_t off = rng_below(&R, 16);
      int32_t *x = a + off;
      for (uint32_t i = 0; i < B + 48 - off && i < n + 40; i++) x[i] = (int32_t) 0x5BADF00D; /* sentinel */
      memcpy(x, in, 4 * n);
      int32_t sc = (int32_t) rng_range(&R, lo < -6144 ? -6144 : lo, hi > Q - 1 ? Q - 1 : hi);
      for (uint32_t i = 0; i < n; i++) { b[i] = (int32_t) rng_range(&R, im < 2 ? 0 : -6144, im < 2 ? Q - 1 : 6144); p16[i] = (uint16_t) b[i]; }
      OP("%s/%s length %u", t->impl, ops[op], n);
      int32_t *out = x;
      switch (op) {
      case 0: t->mul16(x, n, p16); break;
      case 1: out = c + rng_below(&R, 16); for (uint32_t i = 0; i < n + 40; i++) out[i] = 0x5BADF00D; t->mul(out, n, x, b); break;
      case 2: t->scal(x, n, sc); break;
      default: ((un_f) fp[op])(x, n);
      }
      for (uint32_t i = 0; i < n; i++) {
        int64_t v = in[i], w = 0;
        switch (op) {
        case 0: case 1: w = im < 2 ? (v * b[i]) % Q : red_def(v * b[i]); break;
        case 2: w = im < 2 ? (v * sc) % Q : red_def(v * sc); break;
        case 3: w = o_norm(v); break; case 4: w = o_norm3(v); break; case 5: w = o_shift(v); break;
        case 6: w = o_red(v); break; case 7: w = o_red2(v); break; case 8: w = o_correct(v); break;
        }
        if (out[i] != w) { viol(ops[op], "%s/%s length %u element %u: operand %lld gives %d, expected %lld", t->impl, ops[op], n, i, (long long) v, out[i], (long long) w); break; }
      }
      for (uint32_t i = n; i < n + 40; i++) if (out[i] != 0x5BADF00D) { viol(ops[op], "%s/%s length %u: element %u beyond the array was changed", t->impl, ops[op], n, i); break; }
      if (op == 1 && n && memcmp(x, in, 4 * n)) viol(ops[op], "%s/mul changes its first operand", t->impl);
      stat_add("length_calls", 1); case_seen(hash_bytes(in, 4 * n, ((uint64_t) im << 32) + op * 4096ull + n), n > 0);
    }
  }
}
/* lengths beyond 16-bit counters */
static void long_arrays(void) {
  static const char *ops[] = { "mul16", "mul", "scal", "normalize", "normalize_inv3", "shift", "reduce", "reduce2", "correct" };
  static const uint32_t L[] = { 32768, 65520, 65536, 65552, 131088, 524288, 1048592, 3000000 / 16 * 16 };
  uint32_t n = L[H_shard % 8];
  int32_t *src = malloc(4 * n), *x = malloc(4 * n + 128), *o = malloc(4 * n + 128), *q = malloc(4 * n); uint16_t *p = malloc(2 * n);
  for (int im = 0; im < 4; im++) for (int op = 0; op < 9; op++) {
    const impl_t *t = &I[im];
    void *fp[9] = { t->mul16, t->mul, t->scal, t->normalize, t->normalize_inv3, t->shift, t->reduce, t->reduce2, t->correct };
    if (!fp[op]) continue;
    uint32_t m = im == 3 ? n : n + (uint32_t) (H_seed + (uint64_t) op) % 2; if (m > n) m = n - 1;
    for (uint32_t i = 0; i < m; i++) {
      src[i] = op == 5 || im < 2 ? (int32_t) rng_below(&R, Q) : op == 8 ? (int32_t) rng_range(&R, -Q, 2 * Q - 1) : op <= 2 ? (int32_t) rng_range(&R, -500000, 500000) : (int32_t) rng_u64(&R);
      q[i] = (int32_t) rng_range(&R, im < 2 ? 0 : -6144, im < 2 ? Q - 1 : 6144); p[i] = (uint16_t) q[i];
    }
    memcpy(x, src, 4 * m); for (uint32_t i = m; i < m + 24; i++) x[i] = 0x5BADF00D;
    for (uint32_t i = 0; i < m + 24; i++) o[i] = 0x5BADF00D;
    int32_t sc = (int32_t) rng_range(&R, 1, 6144); int32_t *out = x;
    OP("%s/%s length %u", t->impl, ops[op], m);
    switch (op) { case 0: t->mul16(x, m, p); break; case 1: out = o; t->mul(o, m, x, q); break; case 2: t->scal(x, m, sc); break; default: ((un_f) fp[op])(x, m); }
    for (uint32_t i = 0; i < m; i++) {
      int64_t v = src[i], w = 0;
      switch (op) {
      case 0: case 1: w = im < 2 ? (v * q[i]) % Q : red_def(v * q[i]); break;
      case 2: w = im < 2 ? (v * sc) % Q : red_def(v * sc); break;
      case 3: w = o_norm(v); break; case 4: w = o_norm3(v); break; case 5: w = o_shift(v); break;
      case 6: w = o_red(v); break; case 7: w = o_red2(v); break; case 8: w = o_correct(v); break;
      }
      if (out[i] != w) { viol(ops[op], "%s/%s length %u element %u: operand %lld gives %d, expected %lld", t->impl, ops[op], m, i, (long long) v, out[i], (long long) w); break; }
    }
    for (uint32_t i = m; i < m + 24; i++) if (out[i] != 0x5BADF00D) { viol(ops[op], "%s/%s length %u: element %u beyond the array was changed", t->impl, ops[op], m, i); break; }
    stat_add("long_calls", 1); case_seen(hash_bytes(src, 4 * m, (uint64_t) (im * 16 + op)), 1);
  }
  free(src); free(x); free(o); free(q); free(p);
}
/* products at the documented overflow limits of the 32-bit result */
static void limits(void) {
  const int64_t L = -8796042698752LL, H = 8796093026303LL;
  uint64_t reps = H_thorough ? 20000000 : 1500000;
  for (uint64_t it = 0; it < reps; it += 16) {
    for (int i = 0; i < 16; i++) {
      int64_t x, y;
      switch (rng_below(&R, 4)) {
      case 0: y = rng_range(&R, 1, 3000000); break;
      case 1: y = rng_range(&R, 1, INT32_MAX); break;
      case 2: y = 1u << rng_below(&R, 31); break;
      default: y = rng_range(&R, 4095, 4097) << rng_below(&R, 10); break;
      }
      int64_t m = (rng_u64(&R) & 1) ? H : L;
      x = m / y; /* truncates towards 0: product stays inside */
      if (rng_below(&R, 4)) x -= (m > 0 ? 1 : -1) * (int64_t) rng_below(&R, 3);
      if (rng_below(&R, 4) == 0) x = rng_range(&R, m > 0 ? 0 : x, m > 0 ? x : 0);
      if (x > INT32_MAX) x = INT32_MAX;
      if (x < INT32_MIN) x = INT32_MIN;
      if (x * y > H || x * y < L) x = 0;
      if (rng_u64(&R) & 1) { /* negate both */ if (x != INT32_MIN) { x = -x; y = -y; } }
      in[i] = (int32_t) x; b[i] = (int32_t) y;
    }
    for (int im = 2; im < 4; im++) {
      OP("%s/mul at the overflow limits x=%d y=%d", I[im].impl, in[0], b[0]);
      I[im].mul(c, 16, in, b);
      for (int i = 0; i < 16; i++) { int64_t w = red_def((int64_t) in[i] * b[i]); if (c[i] != w) { bad("product of arrays (limits)", I[im].impl, in[i], b[i], c[i], w); break; } }
      /* scalar: one multiplier for the block; keep products in range */
      int32_t s = b[0]; for (int i = 0; i < 16; i++) { a[i] = in[i]; if ((int64_t) a[i] * s > H || (int64_t) a[i] * s < L) a[i] = in[0]; }
      memcpy(c, a, 64);
      I[im].scal(c, 16, s);
      for (int i = 0; i < 16; i++) { int64_t w = red_def((int64_t) a[i] * s); if (c[i] != w) { bad("product by scalar (limits)", I[im].impl, a[i], s, c[i], w); break; } }
      memcpy(a, in, 64);
      for (int i = 0; i < 16; i++) { int16_t q = (int16_t) rng_range(&R, -32768, 32767); if (rng_below(&R, 3) == 0) q = (rng_u64(&R) & 1) ? -32768 : 32767; p16[i] = (uint16_t) q; if ((int64_t) a[i] * q > H || (int64_t) a[i] * q < L) a[i] /= 8; }
      memcpy(c, a, 64);
      I[im].mul16(c, 16, p16);
      for (int i = 0; i < 16; i++) { int64_t w = red_def((int64_t) a[i] * (int16_t) p16[i]); if (c[i] != w) { bad("product by table (limits)", I[im].impl, a[i], (int16_t) p16[i], c[i], w); break; } }
    }
    case_seen(hash_bytes(b, 64, hash_bytes(in, 64, 3)), 1);
  }
  stat_add("limit_products", reps * 3 * 2);
}

int main(int argc, char **argv) {
  h_init(argc, argv); h_watch("C06");
  I[0] = impl_std; I[1] = impl_naive; I[2] = impl_red; I[3] = impl_asm_full();
  rng_seed(&R, 6);
  /* 1. all 32-bit values, split over shards */
  uint64_t span = (1ull << 32) / (uint64_t) H_nshards; int64_t lo = INT32_MIN + (int64_t)(span * (uint64_t) H_shard);
  if (H_shard == H_nshards - 1) span = (1ull << 32) - span * (uint64_t) H_shard;
  const impl_t *r = &I[2], *s = &I[3];
  unary("reduce_array", r->impl, r->reduce, o_red, lo, span, -524287, 536573, B);
  unary("reduce_array_twice", r->impl, r->reduce2, o_red2, lo, span, -130, 12413, B);
  unary("normalize", r->impl, r->normalize, o_norm, lo, span, 0, Q - 1, B);
  unary("normalize_inv3", r->impl, r->normalize_inv3, o_norm3, lo, span, 0, Q - 1, B);
  unary("reduce_array", s->impl, s->reduce, o_red, lo, span, -524287, 536573, B);
  unary("reduce_array_twice", s->impl, s->reduce2, o_red2, lo, span, -130, 12413, B);
  stat_add("values32_each_of_6_operations", span); case_exhaustive(6 * span);
  /* 2. full domains of shift and correct, in several block sizes (position independence) */
  if (H_shard == 0) for (uint32_t blk = 16; blk <= B; blk *= 2) {
    unary("shift_array", r->impl, r->shift, o_shift, 0, Q, -6144, 6144, blk); unary("shift_array", s->impl, s->shift, o_shift, 0, Q, -6144, 6144, blk);
    unary("correct", r->impl, r->correct, o_correct, -Q, 3 * Q, 0, Q - 1, blk); unary("correct", s->impl, s->correct, o_correct, -Q, 3 * Q, 0, Q - 1, blk);
    if (blk == 16) case_exhaustive(2 * (Q + 3 * Q));
  }
  /* 3. all pairs in [0,Q-1]^2 */
  uint64_t rows = 0;
  for (int64_t x = H_shard; x < Q; x += H_nshards) { mulrow(0, x, 0, Q - 1, 0); mulrow(1, x, 0, Q - 1, 0); rows++; }
  stat_add("product_rows_mod", rows); case_exhaustive(rows * Q * 6);
  /* 4. reduced products on [0,12288]^2 (documented bound 1), and on [-21499,21499] x [-6144,6144] */
  rows = 0;
  for (int64_t x = H_shard; x < Q; x += H_nshards) { mulrow(2, x, 0, Q - 1, 1); mulrow(3, x, 0, Q - 1, 1); rows++; }
  case_exhaustive(rows * Q * 6);
  for (int64_t x = -21499 + H_shard; x <= 21499; x += H_nshards) { mulrow(2, x, -6144, 6144, 1); mulrow(3, x, -6144, 6144, 1); rows++; case_exhaustive(Q * 6); }
  stat_add("product_rows_red", rows);
  limits();
  lengths();
  long_arrays();
  sample("reduce, reduce twice, normalize, normalize_inv3 (C) and reduce, reduce twice (AVX2): x from %lld, %llu values", (long long) lo, (unsigned long long) span);
  sample("modular products: rows x = %d mod %d, all y in [0,12288]", H_shard, H_nshards);
  return h_finish();
}

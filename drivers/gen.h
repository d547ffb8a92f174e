/* Hostile input generators shared by the drivers. */
#ifndef GEN_H
#define GEN_H
#include "h.h"
#include "shim.h"

static const int32_t G_edge[] = { 0, 1, 2, 3, 4095, 4096, 4097, 6143, 6144, 6145, 6146, 8191, 8192, 8193, 12285, 12286, 12287, 12288 };
#define G_NEDGE (sizeof G_edge / sizeof G_edge[0])
#define GEN_KINDS 16
/* vector with entries in [lo,hi]; kind selects the shape. */
static void gen_vec(rng_t *r, int32_t *a, uint32_t n, int32_t lo, int32_t hi, int kind) {
  uint32_t i;
  int32_t mid = (int32_t)(((int64_t) lo + hi) / 2);
  int32_t c;
  switch (kind % GEN_KINDS) {
  case 0: default: for (i = 0; i < n; i++) a[i] = (int32_t) rng_range(r, lo, hi); break;
  case 1: for (i = 0; i < n; i++) a[i] = (rng_u64(r) & 1) ? hi : lo; break;
  case 2: for (i = 0; i < n; i++) a[i] = (i & 1) ? hi : lo; break;
  case 3: c = (int32_t) rng_range(r, lo, hi); for (i = 0; i < n; i++) a[i] = c; break;
  case 4: memset(a, 0, n * 4); { int z = lo > 0 ? lo : 0; for (i = 0; i < n; i++) a[i] = z; } a[rng_below(r, n)] = (rng_u64(r) & 1) ? hi : (int32_t) rng_range(r, lo, hi); break;
  case 5: for (i = 0; i < n; i++) { int32_t v = G_edge[rng_below(r, G_NEDGE)]; if (lo < 0 && (rng_u64(r) & 1)) v = -v; a[i] = v < lo ? lo : v > hi ? hi : v; } break;
  case 6: c = (rng_u64(r) & 1) ? hi : lo; for (i = 0; i < n; i++) a[i] = c; break;
  case 7: { uint32_t sh = rng_below(r, lg2(n) + 1); for (i = 0; i < n; i++) a[i] = ((i >> sh) & 1) ? hi : lo; break; }
  case 8: for (i = 0; i < n; i++) a[i] = (rng_below(r, 8) == 0) ? (int32_t) rng_range(r, lo, hi) : (lo > 0 ? lo : 0); break;
  case 9: for (i = 0; i < n; i++) a[i] = hi - (int32_t) rng_below(r, 3); break;
  case 10: for (i = 0; i < n; i++) { a[i] = lo + (int32_t) rng_below(r, 3); if (a[i] > hi) a[i] = hi; } break;
  case 11: for (i = 0; i < n; i++) { a[i] = mid + (int32_t) rng_below(r, 5) - 2; } break;
  case 12: c = (int32_t) rng_range(r, lo, hi); { int32_t d = (int32_t) rng_range(r, 0, 40); int64_t v = c; for (i = 0; i < n; i++) { a[i] = (int32_t) v; v += d; if (v > hi) v = lo + (v - hi - 1) % ((int64_t) hi - lo + 1); } } break;
  case 13: { uint32_t p = rng_below(r, n); for (i = 0; i < n; i++) a[i] = i < p ? hi : lo; break; }
  case 14: for (i = 0; i < n; i++) { static const int8_t s[3] = { 0, 1, -1 }; int32_t v = s[rng_below(r, 3)]; if (v < lo) v = hi; a[i] = v; } break; /* ternary */
  case 15: { int32_t x = (int32_t) rng_range(r, lo, hi), y = (int32_t) rng_range(r, lo, hi); for (i = 0; i < n; i++) a[i] = (rng_u64(r) & 1) ? x : y; break; }
  }
}

/* Real-coefficient model of a Longa-Naehrig transform: red(w*y) ~ -(w/4096)*y.
 * Used only to choose inputs that drive intermediate values to extremes. */
static void xf_float(double *a, uint32_t n, const int16_t *p, int kind) {
  int mixed = (kind & (K_PRE | K_POST)) != 0;
  if (!(kind & K_GS)) {
    if (kind & K_REVIN) {
      for (uint32_t t = 1; t < n; t <<= 1)
        for (uint32_t j = 0; j < t; j++) {
          double w = (j == 0 && !mixed) ? 1.0 : -p[t + j] / 4096.0;
          for (uint32_t s = j; s < n; s += 2 * t) { double x = a[s + t] * w; a[s + t] = a[s] - x; a[s] += x; }
        }
    } else {
      uint32_t d = n;
      for (uint32_t t = 1; t < n; t <<= 1) {
        d >>= 1;
        for (uint32_t j = 0; j < t; j++) {
          double w = (j == 0 && !mixed) ? 1.0 : -p[t + j] / 4096.0;
          for (uint32_t s = 2 * d * j; s < 2 * d * j + d; s++) { double x = a[s + d] * w; a[s + d] = a[s] - x; a[s] += x; }
        }
      }
    }
  } else if (kind & K_REVIN) {
    uint32_t t = n;
    for (uint32_t d = 1; d < n; d <<= 1) {
      t >>= 1;
      for (uint32_t j = 0; j < t; j++) {
        double w = (j == 0 && !mixed) ? 1.0 : -p[t + j] / 4096.0;
        for (uint32_t s = 2 * d * j; s < 2 * d * j + d; s++) { double x = a[s + d]; a[s + d] = (a[s] - x) * w; a[s] += x; }
      }
    }
  } else {
    for (uint32_t t = n >> 1; t > 0; t >>= 1)
      for (uint32_t j = 0; j < t; j++) {
        double w = (j == 0 && !mixed) ? 1.0 : -p[t + j] / 4096.0;
        for (uint32_t s = j; s < n; s += 2 * t) { double x = a[s + t]; a[s + t] = (a[s] - x) * w; a[s] += x; }
      }
  }
}
/* m[k*n+i] = d out[k] / d in[i] */
static float *xf_matrix(uint32_t n, const int16_t *p, int kind) {
  float *m = malloc((size_t) n * n * sizeof(float));
  double *c = malloc(n * sizeof(double));
  for (uint32_t i = 0; i < n; i++) {
    for (uint32_t k = 0; k < n; k++) c[k] = 0;
    c[i] = 1;
    xf_float(c, n, p, kind);
    for (uint32_t k = 0; k < n; k++) m[(size_t) k * n + i] = (float) c[k];
  }
  free(c);
  return m;
}
static void gen_adversarial_k(rng_t *r, int32_t *a, uint32_t n, int32_t lo, int32_t hi, const float *m, uint32_t k) {
  int flip = (int)(rng_u64(r) & 1), jit = (int)(rng_u64(r) & 3);
  for (uint32_t i = 0; i < n; i++) {
    int up = (m[(size_t) k * n + i] > 0) ^ flip;
    int32_t j = jit == 0 ? (int32_t) rng_below(r, 64) : 0;
    a[i] = up ? hi - j : lo + j;
  }
}
static void gen_adversarial(rng_t *r, int32_t *a, uint32_t n, int32_t lo, int32_t hi, const float *m) {
  gen_adversarial_k(r, a, n, lo, hi, m, rng_below(r, n));
}
/* Exact integer model of the same transforms (64-bit, so it never wraps), used to climb towards inputs
 * with extreme intermediate values.  It only chooses inputs; it never judges a result. */
static inline int64_t gred(int64_t z) { return 3 * (z & 4095) - (z >> 12); }
static void xf_exact(int64_t *a, uint32_t n, const int16_t *p, int kind) {
  int mixed = (kind & (K_PRE | K_POST)) != 0;
  if (!(kind & K_GS)) {
    uint32_t d = n;
    for (uint32_t t = 1; t < n; t <<= 1) {
      d >>= 1;
      for (uint32_t j = 0; j < t; j++) {
        int64_t w = p[t + j]; int one = j == 0 && !mixed;
        for (uint32_t s = 2 * d * j; s < 2 * d * j + d; s++) { int64_t x = one ? a[s + d] : gred(a[s + d] * w); a[s + d] = a[s] - x; a[s] += x; }
      }
    }
  } else {
    for (uint32_t t = n >> 1; t > 0; t >>= 1)
      for (uint32_t j = 0; j < t; j++) {
        int64_t w = p[t + j]; int one = j == 0 && !mixed;
        for (uint32_t s = j; s < n; s += 2 * t) { int64_t x = a[s + t], y = a[s] - x; a[s + t] = one ? y : gred(y * w); a[s] += x; }
      }
  }
}
typedef struct {
  uint32_t n; int kind;             /* std2rev kinds only: K_TREV (CT), K_GS, and their mixed forms */
  const int16_t *p, *tw;            /* transform table; twist applied before it (or NULL) */
  int32_t lo, hi; int centred;      /* input range; centre modulo Q first */
  const float *m;                   /* linear response of the transform (without the twist) */
  int32_t *amax, *amin;             /* per position: input with the largest / smallest twisted value */
} adv_t;
static int64_t adv_in(const adv_t *v, uint32_t i, int32_t x) {
  int64_t y = v->centred && x > 6144 ? x - Q : x;
  return v->tw ? gred(y * v->tw[i]) : y;
}
static void adv_init(adv_t *v) {
  v->amax = malloc(4 * v->n); v->amin = malloc(4 * v->n);
  for (uint32_t i = 0; i < v->n; i++) {
    int64_t bx = INT64_MIN, bn = INT64_MAX;
    for (int32_t x = v->lo; x <= v->hi; x++) { int64_t y = adv_in(v, i, x); if (y > bx) { bx = y; v->amax[i] = x; } if (y < bn) { bn = y; v->amin[i] = x; } }
  }
}
static void adv_free(adv_t *v) { free(v->amax); free(v->amin); }
/* input driving output position k towards +infinity (dir>0) or -infinity; returns the value reached in the model */
static int64_t adv_climb(rng_t *r, const adv_t *v, int32_t *a, uint32_t k, int dir, uint32_t evals) {
  uint32_t n = v->n; static _Thread_local int64_t y[2048], z[2048];
  for (uint32_t i = 0; i < n; i++) {
    a[i] = ((v->m[(size_t) k * n + i] > 0) == (dir > 0)) ? v->amax[i] : v->amin[i];
    y[i] = adv_in(v, i, a[i]);
  }
  memcpy(z, y, 8 * n); xf_exact(z, n, v->p, v->kind);
  int64_t best = z[k];
  for (uint32_t e = 0; e < evals; e++) {
    uint32_t i = rng_below(r, n); int32_t x;
    switch (rng_below(r, 4)) {
    case 0: x = a[i] == v->amax[i] ? v->amin[i] : v->amax[i]; break;
    case 1: x = a[i] + (int32_t) rng_range(r, -8, 8); if (x < v->lo) x = v->lo; if (x > v->hi) x = v->hi; break;
    default: x = (int32_t) rng_range(r, v->lo, v->hi);
    }
    int64_t old = y[i]; y[i] = adv_in(v, i, x);
    memcpy(z, y, 8 * n); xf_exact(z, n, v->p, v->kind);
    if (dir > 0 ? z[k] >= best : z[k] <= best) { best = z[k]; a[i] = x; } else y[i] = old;
  }
  return best;
}
#endif

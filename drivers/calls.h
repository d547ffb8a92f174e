/* One uniform view of every public routine: random in-contract calls, execution
 * on caller-chosen memory, and what a call may modify. */
#ifndef CALLS_H
#define CALLS_H
#include "xf.h"
enum { S_PROD, S_WRAP, S_XF, S_MUL16, S_MUL, S_SCAL, S_SHIFT, S_RED, S_RED2, S_NORM, S_NORM3, S_CORR, S_BITREV, S_SHUF };
typedef struct { const char *name; int impl; int sig; uint32_t n; int kind; void *f; } routine_t;
static routine_t RT[600]; static int NRT;
static impl_t IMPL[4];
static void add_rt(const char *impl, const char *name, int im, int sig, uint32_t n, int kind, void *f) {
  if (!f) return;
  char *s = malloc(80); snprintf(s, 80, "%s%s%s", impl, impl[0] ? "/" : "", name);
  RT[NRT++] = (routine_t) { s, im, sig, n, kind, f };
}
/* which: bit mask of implementations (1 std, 2 naive, 4 red, 8 asm) */
static void calls_init(int which) {
#ifndef NO_ASM
  if (which & 8) IMPL[3] = impl_asm_full();
#endif
  IMPL[0] = impl_std; IMPL[1] = impl_naive; IMPL[2] = impl_red;
  for (int im = 0; im < 4; im++) if (which >> im & 1) {
    const impl_t *t = &IMPL[im];
    for (const prod_t *p = t->prods; p->name; p++) add_rt("", p->name, im, S_PROD, p->n, 0, p->f);
    for (const wrap_t *p = t->wraps; p->name; p++) add_rt("", p->name, im, S_WRAP, p->n, p->kind, p->f);
    for (const xf_t *p = t->xfs; p->name; p++) add_rt("", p->name, im, S_XF, 0, p->kind, p->f);
    add_rt(t->impl, "mul16", im, S_MUL16, 0, 0, t->mul16); add_rt(t->impl, "mul", im, S_MUL, 0, 0, t->mul); add_rt(t->impl, "scalar", im, S_SCAL, 0, 0, t->scal);
    add_rt(t->impl, "shift", im, S_SHIFT, 0, 0, t->shift); add_rt(t->impl, "reduce", im, S_RED, 0, 0, t->reduce); add_rt(t->impl, "reduce_twice", im, S_RED2, 0, 0, t->reduce2);
    add_rt(t->impl, "normalize", im, S_NORM, 0, 0, t->normalize); add_rt(t->impl, "normalize_inv3", im, S_NORM3, 0, 0, t->normalize_inv3); add_rt(t->impl, "correct", im, S_CORR, 0, 0, t->correct);
    add_rt(t->impl, "bitrev_shuffle", im, S_BITREV, 0, 0, t->bitrev); add_rt(t->impl, "shuffle_with_table", im, S_SHUF, 0, 0, t->shuffle);
    add_rt(t->impl, "reduce(v2)", im, S_RED, 0, 0, t->reduce_v2); add_rt(t->impl, "reduce_twice(v2)", im, S_RED2, 0, 0, t->reduce2_v2); add_rt(t->impl, "mul16(v2)", im, S_MUL16, 0, 0, t->mul16_v2);
  }
}
typedef struct {
  const routine_t *r;
  uint32_t n, np;                /* array length; number of 16-bit table elements */
  int32_t a[4096], b[2048]; uint16_t p[4096]; int32_t k;
  const char *what;
} call_t;
static inline int c_outofplace(const routine_t *r) { return r->sig == S_PROD || r->sig == S_MUL; }
static inline int c_hasb(const routine_t *r) { return c_outofplace(r); }
static inline int c_hasp(const routine_t *r) { return r->sig == S_XF || r->sig == S_MUL16 || r->sig == S_SHUF; }
/* a and b are const arguments of mul; a product may destroy its operands */
static inline int c_constab(const routine_t *r) { return r->sig == S_MUL; }

static uint32_t c_roots[12][2048]; static int c_rootn[12];
static uint32_t pick_root(rng_t *R, uint32_t n) {
  uint32_t l = lg2(n);
  if (!c_rootn[l]) c_rootn[l] = (int) psi_roots(n, c_roots[l]);
  return c_roots[l][rng_below(R, (uint32_t) c_rootn[l])];
}
static int64_t c_lo(int im) { return im < 2 ? 0 : -21499; }
static int64_t c_hi(int im) { return im < 2 ? Q - 1 : 21499; }

static void call_gen(call_t *c, rng_t *R, const routine_t *r) {
  int im = r->impl, kind = (int) rng_below(R, GEN_KINDS);
  static const char *shapes[GEN_KINDS] = { "random", "two-extremes", "alternating", "constant", "single", "edges", "all-extreme", "blocks", "sparse", "near-max", "near-min", "middle", "ramp", "step", "ternary", "two-values" };
  c->r = r; c->np = 0; c->k = 0; c->what = shapes[kind];
  uint32_t n = r->n;
  if (!n) {
    if (r->sig == S_XF || r->sig == S_BITREV || r->sig == S_SHUF) n = 1u << (im == 3 ? 4 + rng_below(R, 8) : 1 + rng_below(R, 11));
    else { n = rng_below(R, 4) ? rng_below(R, 80) : rng_below(R, 1100); if (im == 3) n = n < 16 ? 16 : n & ~15u; }
    if (r->sig == S_BITREV && rng_below(R, 16) == 0) n = 1;
  }
  c->n = n;
  int64_t lo = c_lo(im), hi = c_hi(im);
  switch (r->sig) {
  case S_PROD: lo = 0; hi = Q - 1; break;
  case S_SHIFT: lo = 0; hi = Q - 1; break;
  case S_CORR: lo = -Q; hi = 2 * Q - 1; break;
  case S_RED: case S_RED2: case S_NORM: case S_NORM3: case S_BITREV: case S_SHUF: lo = INT32_MIN; hi = INT32_MAX; break;
  case S_MUL16: if (im >= 2) { lo = -200000000; hi = 200000000; } break;
  case S_MUL: if (im >= 2) { if (rng_u64(R) & 1) { lo = -524287; hi = 536573; } else { lo = -2900000; hi = 2900000; } } break;
  case S_SCAL: if (im >= 2) { lo = -524287; hi = 536573; } break;
  }
  if (n) {
    if (lo == INT32_MIN) { if (kind & 1) for (uint32_t i = 0; i < n; i++) c->a[i] = (int32_t) rng_u64(R); else { gen_vec(R, c->a, n, -1000000000, 1000000000, kind); if (kind == 6) for (uint32_t i = 0; i < n; i++) c->a[i] = (rng_u64(R) & 1) ? INT32_MIN : INT32_MAX; } }
    else gen_vec(R, c->a, n, (int32_t) lo, (int32_t) hi, kind);
  }
  if (c_hasb(r) && n) {
    gen_vec(R, c->b, n, (int32_t) lo, (int32_t) hi, (int) rng_below(R, GEN_KINDS));
    if (im >= 2 && r->sig == S_MUL) for (uint32_t i = 0; i < n; i++) { int64_t z = (int64_t) c->a[i] * c->b[i]; if (z > 8796093026303LL || z < -8796042698752LL) c->b[i] /= 4; }
  }
  if (r->sig == S_SCAL) c->k = (int32_t) rng_range(R, im >= 2 ? -524287 : 0, im >= 2 ? 536573 : Q - 1);
  if (r->sig == S_MUL16) { c->np = n; for (uint32_t i = 0; i < n; i++) c->p[i] = im >= 2 ? (uint16_t)(int16_t) rng_range(R, -6144, 6144) : (uint16_t) rng_below(R, Q); if (im >= 2 && (kind & 1)) for (uint32_t i = 0; i < n; i++) c->p[i] = (uint16_t)(int16_t) ((rng_u64(R) & 1) ? 6144 : -6144); }
  if (r->sig == S_XF) {
    static _Thread_local root_t rt; static _Thread_local uint32_t t[2048];
    root_init(&rt, n, pick_root(R, n)); kind_table(t, &rt, r->kind, im >= 2 ? 8193 : 1);
    for (uint32_t i = 0; i < n; i++) c->p[i] = im >= 2 ? (uint16_t)(int16_t) shiftq(t[i]) : (uint16_t) t[i];
    c->np = n; c->k = (int32_t) rt.psi;
  }
  if (r->sig == S_SHUF) { uint32_t m = 0, l = lg2(n); for (uint32_t i = 0; i < n; i++) { uint32_t j = brev(i, l); if (i < j) { c->p[2 * m] = (uint16_t) i; c->p[2 * m + 1] = (uint16_t) j; m++; } } c->np = 2 * m; }
}
/* out: where the result goes (in place for a); for in-place routines out==a */
static void call_exec(const call_t *c, int32_t *out, int32_t *a, int32_t *b, const void *p) {
  const routine_t *r = c->r;
  switch (r->sig) {
  case S_PROD: ((prod_f) r->f)(out, a, b); break;
  case S_WRAP: ((wrap_f) r->f)(a); break;
  case S_XF: case S_MUL16: ((void (*)(int32_t *, uint32_t, const void *)) r->f)(a, c->n, p); break;
  case S_MUL: ((void (*)(int32_t *, uint32_t, const int32_t *, const int32_t *)) r->f)(out, c->n, a, b); break;
  case S_SCAL: ((void (*)(int32_t *, uint32_t, int32_t)) r->f)(a, c->n, c->k); break;
  case S_SHUF: ((void (*)(int32_t *, const uint16_t (*)[2], uint32_t)) r->f)(a, (const uint16_t (*)[2]) p, c->np / 2); break;
  default: ((void (*)(int32_t *, uint32_t)) r->f)(a, c->n);
  }
}
static uint64_t call_hash(const call_t *c) {
  uint64_t h = hash_bytes(c->a, 4 * c->n, (uint64_t)(c->r - RT) * 4096 + c->n);
  if (c_hasb(c->r)) h = hash_bytes(c->b, 4 * c->n, h);
  return hash_bytes(c->p, 2 * c->np, h) + (uint32_t) c->k;
}
/* simple semantic oracle for a call's result (exact or modulo Q); returns -1 if fine, else index */
static int call_check(const call_t *c, const int32_t *out) {
  const routine_t *r = c->r; uint32_t n = c->n; int im = r->impl;
  static _Thread_local int32_t ref[2048];
  switch (r->sig) {
  case S_PROD: ref_negacyclic(ref, c->a, c->b, n); for (uint32_t i = 0; i < n; i++) if (out[i] != ref[i]) return (int) i; return -1;
  case S_WRAP: case S_XF: {
    static _Thread_local root_t rt; static _Thread_local uint32_t vm[2048], ex[2048];
    uint32_t psi;
    if (r->sig == S_XF) psi = (uint32_t) c->k; else { const par_t *p = IMPL[im].pars; while (p->n != n) p++; psi = (uint32_t) p->psi; if (r->kind & K_INV) psi = invq(psi); }
    root_init(&rt, n, psi);
    for (uint32_t i = 0; i < n; i++) vm[(r->kind & K_REVIN) ? rt.rev[i] : i] = (uint32_t) modq64(c->a[i]);
    expect_std(ex, vm, &rt, (r->kind & K_PRE) != 0, (r->kind & K_POST) != 0);
    for (uint32_t i = 0; i < n; i++) if ((uint32_t) modq64(out[i]) != ((r->kind & K_REVIN) ? ex[i] : ex[rt.rev[i]])) return (int) i;
    return -1; }
  default:
    for (uint32_t i = 0; i < n; i++) {
      int64_t x = c->a[i], w;
      switch (r->sig) {
      case S_MUL16: w = im < 2 ? x * c->p[i] % Q : red_def(x * (int16_t) c->p[i]); break;
      case S_MUL: w = im < 2 ? x * c->b[i] % Q : red_def(x * c->b[i]); break;
      case S_SCAL: w = im < 2 ? x * c->k % Q : red_def(x * c->k); break;
      case S_SHIFT: w = x > 6144 ? x - Q : x; break;
      case S_RED: w = red_def(x); break;
      case S_RED2: w = red_def(red_def(x)); break;
      case S_NORM: w = modq64(x); break;
      case S_NORM3: w = modq64((int64_t) modq64(x) * 8193); break;
      case S_CORR: w = x < 0 ? x + Q : x >= Q ? x - Q : x; break;
      case S_BITREV: case S_SHUF: w = c->a[brev(i, lg2(n))]; break;
      default: return -1;
      }
      if (out[i] != w) return (int) i;
    }
    return -1;
  }
}
#endif

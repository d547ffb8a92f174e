/* Transform oracle: what a transform of a given kind must produce. */
#ifndef XF_H
#define XF_H
#include "gen.h"

typedef struct {
  uint32_t n, lg, psi, omega;
  uint32_t pw[2048];        /* psi^i */
  uint32_t rev[2048];
} root_t;
static void root_init(root_t *r, uint32_t n, uint32_t psi) {
  r->n = n; r->lg = lg2(n); r->psi = psi; r->omega = (uint32_t)((uint64_t) psi * psi % Q);
  def_powers(r->pw, n, 1, psi);
  for (uint32_t i = 0; i < n; i++) r->rev[i] = brev(i, r->lg);
}
/* constant table a transform of this kind documents, scaled by s */
static void kind_table(uint32_t *t, const root_t *r, int kind, uint32_t s) {
  if (kind & K_POW) { def_powers(t, r->n, s, r->psi); return; }
  def_table(t, r->n, (kind & (K_PRE | K_POST)) ? r->psi : 1, r->omega, (kind & K_TREV) != 0, s);
}
/* logical input vector v (standard order, mod Q) -> expected output in standard order.
 * pre: multiplied by psi^i before; post: output k multiplied by psi^k */
static void expect_std(uint32_t *out, const uint32_t *v, const root_t *r, int pre, int post) {
  uint32_t in[2048], n = r->n;
  if (pre) for (uint32_t i = 0; i < n; i++) in[i] = (uint32_t)((uint64_t) v[i] * r->pw[i] % Q);
  else memcpy(in, v, 4 * n);
  ref_ntt(out, in, n, r->omega);
  if (post) for (uint32_t k = 0; k < n; k++) out[k] = (uint32_t)((uint64_t) out[k] * r->pw[k] % Q);
}
/* definition of output k, by direct evaluation */
static uint32_t expect_at(const uint32_t *v, const root_t *r, int pre, int post, uint32_t k) {
  uint64_t w = powq(r->omega, k);
  if (pre) w = w * r->psi % Q;
  uint64_t y = ref_eval(v, r->n, (uint32_t) w);
  return post ? (uint32_t)(y * r->pw[k] % Q) : (uint32_t) y;
}
#endif

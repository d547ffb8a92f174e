/* Function tables exported by each implementation (public API only). */
#ifndef SHIM_H
#define SHIM_H
#include <stdint.h>
#include <stdbool.h>

enum {
  K_REVIN = 1,   /* input bit-reversed, output standard; otherwise standard in, bit-reversed out */
  K_PRE   = 2,   /* a[i] multiplied by psi^i first */
  K_POST  = 4,   /* output k multiplied by psi^k */
  K_INV   = 8,   /* uses omega^-1, psi^-1 */
  K_TREV  = 16,  /* constant table in bit-reversed order within each round */
  K_GS    = 32,  /* Gentleman-Sande */
  K_POW   = 64,  /* table is plain psi powers (version 1) */
};
typedef void (*prod_f)(int32_t *c, int32_t *a, int32_t *b);
typedef void (*wrap_f)(int32_t *a);
typedef struct { const char *name; uint32_t n; prod_f f; } prod_t;
typedef struct { const char *name; uint32_t n; int kind; wrap_f f; } wrap_t;
/* generic transform, table of 16-bit entries (unsigned or signed by implementation) */
typedef struct { const char *name; int kind; void (*f)(int32_t *a, uint32_t n, const void *p); } xf_t;
typedef struct { uint32_t n; int32_t psi, omega, inv_psi, inv_omega, inv_n; } par_t;

typedef struct {
  const char *impl;
  const prod_t *prods;       /* name==NULL terminated */
  const wrap_t *wraps;
  const xf_t *xfs;
  const par_t *pars;         /* n==0 terminated */
  /* elementwise (NULL when the implementation has none) */
  void (*mul16)(int32_t *a, uint32_t n, const void *p);
  void (*mul)(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b);
  void (*scal)(int32_t *a, uint32_t n, int32_t c);
  void (*normalize)(int32_t *a, uint32_t n);
  void (*normalize_inv3)(int32_t *a, uint32_t n);
  void (*shift)(int32_t *a, uint32_t n);
  void (*reduce)(int32_t *a, uint32_t n);
  void (*reduce2)(int32_t *a, uint32_t n);
  void (*correct)(int32_t *a, uint32_t n);
  void (*bitrev)(int32_t *a, uint32_t n);
  void (*shuffle)(int32_t *a, const uint16_t p[][2], uint32_t n);
  bool (*avx2)(void);
  /* optional extra variants present in the object but not in the header */
  void (*reduce_v2)(int32_t *a, uint32_t n);
  void (*reduce2_v2)(int32_t *a, uint32_t n);
  void (*mul16_v2)(int32_t *a, uint32_t n, const void *p);
} impl_t;

extern const impl_t impl_std, impl_naive, impl_red, impl_asm_;
extern impl_t impl_asm_full(void);
#define FOR_SIZES(X) X(16) X(256) X(512) X(1024)
#endif

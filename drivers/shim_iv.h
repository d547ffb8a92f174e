#ifndef SHIM_IV_H
#define SHIM_IV_H
#include <stdint.h>
typedef struct { int64_t min, max; } ivl_t;      /* same layout as interval_t (public struct) */
typedef struct { const char *name; const char *conc; int kind; void (*f1)(ivl_t **, uint32_t, const int16_t *); void (*f2)(ivl_t **, uint32_t, const ivl_t **); } axf_t;
typedef struct {
  ivl_t *(*point)(int64_t), *(*interval)(int64_t, int64_t); void (*del)(ivl_t *);
  ivl_t *(*add)(const ivl_t *, const ivl_t *), *(*sub)(const ivl_t *, const ivl_t *), *(*neg)(const ivl_t *);
  ivl_t *(*red)(const ivl_t *), *(*red_mul)(const ivl_t *, const ivl_t *), *(*red_scale)(int64_t, const ivl_t *), *(*red_twice)(const ivl_t *);
  ivl_t *(*normal)(const ivl_t *), *(*normal_inv3)(const ivl_t *), *(*shift)(const ivl_t *), *(*correct)(const ivl_t *);
  int64_t (*max_red)(int64_t, int64_t, int64_t *), (*min_red)(int64_t, int64_t, int64_t *);
  int64_t (*max_red_mul)(int64_t, int64_t, int64_t, int64_t *), (*min_red_mul)(int64_t, int64_t, int64_t, int64_t *);
  int64_t (*max_red_mul_interval)(int64_t, int64_t, int64_t, int64_t, int64_t *, int64_t *), (*min_red_mul_interval)(int64_t, int64_t, int64_t, int64_t, int64_t *, int64_t *);
  int64_t (*ct_bound)(int64_t, int64_t, int64_t), (*gs_bound)(int64_t, int64_t, int64_t), (*ct_bound_fixed)(int64_t, int64_t), (*gs_bound_fixed)(int64_t, int64_t);
  int64_t (*ntt_ct_bounds)(int64_t, uint32_t, const int16_t *, int64_t *), (*ntt_gs_bounds)(int64_t, uint32_t, const int16_t *, int64_t *);
  void (*a_normalize)(ivl_t **, uint32_t), (*a_normalize_inv3)(ivl_t **, uint32_t), (*a_shift)(ivl_t **, uint32_t), (*a_reduce)(ivl_t **, uint32_t), (*a_reduce2)(ivl_t **, uint32_t), (*a_correct)(ivl_t **, uint32_t);
  void (*a_mul16)(ivl_t **, uint32_t, const int16_t *), (*a_mul)(ivl_t **, uint32_t, const ivl_t **, const ivl_t **), (*a_scalar)(ivl_t **, uint32_t, int32_t);
  const axf_t *xfs;
} iv_api_t;
extern const iv_api_t iv_api;
#endif

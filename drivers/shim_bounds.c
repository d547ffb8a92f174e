#include <stdint.h>
#include "shim_iv.h"
#include "red_bounds.h"
const iv_api_t iv_api = {
  .max_red = max_red, .min_red = min_red, .max_red_mul = max_red_mul, .min_red_mul = min_red_mul, .max_red_mul_interval = max_red_mul_interval, .min_red_mul_interval = min_red_mul_interval,
  .ct_bound = ct_bound, .gs_bound = gs_bound, .ct_bound_fixed = ct_bound_fixed, .gs_bound_fixed = gs_bound_fixed, .ntt_ct_bounds = ntt_ct_bounds, .ntt_gs_bounds = ntt_gs_bounds };

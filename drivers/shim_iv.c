#include "shim.h"
#include "shim_iv.h"
#include "intervals.h"
#include "red_bounds.h"
#ifndef IV_NO_NTT
#include "ntt_red_interval.h"
#endif
_Static_assert(sizeof(ivl_t) == sizeof(interval_t), "interval_t");
#ifndef IV_NO_NTT
#define F(x) {#x, #x, 0, (void (*)(ivl_t **, uint32_t, const int16_t *)) abstract_##x, (void (*)(ivl_t **, uint32_t, const ivl_t **)) abstract2_##x},
static const axf_t xfs[] = { F(ntt_red_ct_rev2std) F(mulntt_red_ct_rev2std) F(ntt_red_ct_std2rev) F(mulntt_red_ct_std2rev) F(ntt_red_gs_rev2std) F(nttmul_red_gs_rev2std) F(ntt_red_gs_std2rev) F(nttmul_red_gs_std2rev) {0} };
#endif
const iv_api_t iv_api = {
  .point = (void *) point, .interval = (void *) interval, .del = (void *) delete_interval, .add = (void *) add, .sub = (void *) sub, .neg = (void *) neg,
  .red = (void *) red, .red_mul = (void *) red_mul, .red_scale = (void *) red_scale, .red_twice = (void *) red_twice, .normal = (void *) normal, .normal_inv3 = (void *) normal_inv3,
  .shift = (void *) shift, .correct = (void *) correct,
  .max_red = max_red, .min_red = min_red, .max_red_mul = max_red_mul, .min_red_mul = min_red_mul, .max_red_mul_interval = max_red_mul_interval, .min_red_mul_interval = min_red_mul_interval,
  .ct_bound = ct_bound, .gs_bound = gs_bound, .ct_bound_fixed = ct_bound_fixed, .gs_bound_fixed = gs_bound_fixed, .ntt_ct_bounds = ntt_ct_bounds, .ntt_gs_bounds = ntt_gs_bounds,
#ifndef IV_NO_NTT
  .a_normalize = (void *) abstract_normalize, .a_normalize_inv3 = (void *) abstract_normalize_inv3, .a_shift = (void *) abstract_shift_array, .a_reduce = (void *) abstract_reduce_array,
  .a_reduce2 = (void *) abstract_reduce_array_twice, .a_correct = (void *) abstract_correct, .a_mul16 = (void *) abstract_mul_reduce_array16, .a_mul = (void *) abstract_mul_reduce_array, .a_scalar = (void *) abstract_scalar_mul_reduce_array,
  .xfs = xfs,
#endif
};

#include "shim.h"
#include "ntt_red.h"
#include "ntt_red16.h"
#include "ntt_red256.h"
#include "ntt_red512.h"
#include "ntt_red1024.h"
#define S
#include "shim_redasm.inc"
const impl_t impl_red = { .impl = "red", .prods = prods, .wraps = wraps, .xfs = xfs, .pars = pars,
  .mul16 = mul16, .mul = mul_reduce_array, .scal = scalar_mul_reduce_array,
  .normalize = normalize, .normalize_inv3 = normalize_inv3, .shift = shift_array,
  .reduce = reduce_array, .reduce2 = reduce_array_twice, .correct = correct };

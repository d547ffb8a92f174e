#include "shim.h"
#include "ntt_asm.h"
#include "ntt_red_asm16.h"
#include "ntt_red_asm256.h"
#include "ntt_red_asm512.h"
#include "ntt_red_asm1024.h"
#define S _asm
#include "shim_redasm.inc"
extern void reduce_array_asm2(int32_t *, uint32_t) __attribute__((weak));
extern void reduce_array_twice_asm2(int32_t *, uint32_t) __attribute__((weak));
extern void mul_reduce_array16_asm2(int32_t *, uint32_t, const int16_t *) __attribute__((weak));
static void mul16b(int32_t *a, uint32_t n, const void *p) { mul_reduce_array16_asm2(a, n, p); }
const impl_t impl_asm_ = { .impl = "asm", .prods = prods, .wraps = wraps, .xfs = xfs, .pars = pars,
  .mul16 = mul16, .mul = mul_reduce_array_asm, .scal = scalar_mul_reduce_array_asm,
  .shift = shift_array_asm, .reduce = reduce_array_asm, .reduce2 = reduce_array_twice_asm, .correct = correct_asm,
  .avx2 = avx2_supported };
/* the optional variants are resolved at run time (they are not declared in the public header) */
impl_t impl_asm_full(void) {
  impl_t x = impl_asm_;
  x.reduce_v2 = reduce_array_asm2; x.reduce2_v2 = reduce_array_twice_asm2;
  x.mul16_v2 = mul_reduce_array16_asm2 ? mul16b : 0;
  return x;
}

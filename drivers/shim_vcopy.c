/* The routines of the copies analysed by the verifier (verifier/vstte20-benchmarks). */
#include "shim.h"
#include "ntt.h"
#include "ntt_red.h"
#include "ntt_red1024.h"
#include "bitrev1024_table.h"
#include "sort.h"
#undef FOR_SIZES
#define FOR_SIZES(X) X(1024)
#define S
#include "shim_redasm.inc"
const impl_t vimpl_red = { .impl = "red", .prods = prods, .wraps = wraps, .xfs = xfs, .pars = pars,
  .mul16 = mul16, .mul = mul_reduce_array, .scal = scalar_mul_reduce_array,
  .normalize = normalize, .normalize_inv3 = normalize_inv3, .shift = shift_array,
  .reduce = reduce_array, .reduce2 = reduce_array_twice, .correct = correct };
#define Y(f, k) static void y_##f(int32_t *a, uint32_t n, const void *p) { f(a, n, (const uint16_t *) p); }
#define YL Y(ntt_ct_rev2std_v1, K_REVIN|K_POW) Y(ntt_ct_rev2std, K_REVIN) Y(mulntt_ct_rev2std, K_REVIN|K_PRE) \
  Y(ntt_ct_std2rev, K_TREV) Y(mulntt_ct_std2rev, K_TREV|K_PRE) Y(ntt_gs_rev2std, K_REVIN|K_TREV|K_GS) \
  Y(nttmul_gs_rev2std, K_REVIN|K_TREV|K_POST|K_GS) Y(ntt_gs_std2rev, K_GS) Y(nttmul_gs_std2rev, K_GS|K_POST)
YL
#undef Y
#define Y(f, k) {#f, k, y_##f},
static const xf_t yfs[] = { YL {0} };
static const prod_t noprods[] = { {0} }; static const wrap_t nowraps[] = { {0} };
static void vmul16(int32_t *a, uint32_t n, const void *p) { mul_array16(a, n, (const uint16_t *) p); }
const impl_t vimpl_std = { .impl = "std", .prods = noprods, .wraps = nowraps, .xfs = yfs,
  .mul16 = vmul16, .mul = mul_array, .scal = scalar_mul_array, .bitrev = bitrev_shuffle, .shuffle = shuffle_with_table };
void (*const vsort_api)(uint64_t *, uint32_t) = sort;
const uint16_t (*vbitrev_table)[2] = bitrev1024; 
const uint32_t vbitrev_pairs = BITREV1024_NPAIRS;

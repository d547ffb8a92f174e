#include "shim.h"
#include "ntt.h"
#include "ntt16.h"
#include "ntt256.h"
#include "ntt512.h"
#include "ntt1024.h"
#define PR(N) {"ntt" #N "_product1", N, ntt##N##_product1}, {"ntt" #N "_product2", N, ntt##N##_product2}, {"ntt" #N "_product3", N, ntt##N##_product3}, {"ntt" #N "_product4", N, ntt##N##_product4}, {"ntt" #N "_product5", N, ntt##N##_product5},
static const prod_t prods[] = { FOR_SIZES(PR) {0} };
#define W(N, base, k) {#base, N, k, base},
#define WR(N) W(N, ntt##N##_ct_rev2std, K_REVIN) W(N, ntt##N##_gs_rev2std, K_REVIN|K_GS) W(N, ntt##N##_ct_std2rev, 0) W(N, ntt##N##_gs_std2rev, K_GS) \
  W(N, intt##N##_ct_rev2std, K_REVIN|K_INV) W(N, intt##N##_gs_rev2std, K_REVIN|K_GS|K_INV) W(N, intt##N##_ct_std2rev, K_INV) W(N, intt##N##_gs_std2rev, K_GS|K_INV) \
  W(N, mulntt##N##_ct_rev2std, K_REVIN|K_PRE) W(N, mulntt##N##_ct_std2rev, K_PRE) \
  W(N, inttmul##N##_gs_rev2std, K_REVIN|K_GS|K_INV|K_POST) W(N, inttmul##N##_gs_std2rev, K_GS|K_INV|K_POST)
static const wrap_t wraps[] = { FOR_SIZES(WR) {0} };
#define X(f, k) static void x_##f(int32_t *a, uint32_t n, const void *p) { f(a, n, (const uint16_t *) p); }
#define XL X(ntt_ct_rev2std_v1, K_REVIN|K_POW) X(ntt_ct_rev2std, K_REVIN) X(mulntt_ct_rev2std, K_REVIN|K_PRE) \
  X(ntt_ct_std2rev, K_TREV) X(mulntt_ct_std2rev, K_TREV|K_PRE) X(ntt_gs_rev2std, K_REVIN|K_TREV|K_GS) \
  X(nttmul_gs_rev2std, K_REVIN|K_TREV|K_POST|K_GS) X(ntt_gs_std2rev, K_GS) X(nttmul_gs_std2rev, K_GS|K_POST)
XL
#undef X
#define X(f, k) {#f, k, x_##f},
static const xf_t xfs[] = { XL {0} };
#undef X
static void mul16(int32_t *a, uint32_t n, const void *p) { mul_array16(a, n, (const uint16_t *) p); }
#define PA(N) {N, ntt##N##_psi, ntt##N##_omega, ntt##N##_inv_psi, ntt##N##_inv_omega, ntt##N##_inv_n},
static const par_t pars[] = { FOR_SIZES(PA) {0} };
const impl_t impl_std = { .impl = "std", .prods = prods, .wraps = wraps, .xfs = xfs, .pars = pars,
  .mul16 = mul16, .mul = mul_array, .scal = scalar_mul_array, .bitrev = bitrev_shuffle, .shuffle = shuffle_with_table };

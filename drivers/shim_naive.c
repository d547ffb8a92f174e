#include "shim.h"
#include "naive_ntt.h"
#include "naive_ntt16.h"
#include "naive_ntt256.h"
#include "naive_ntt512.h"
#include "naive_ntt1024.h"
#define PR(N) {"naive_ntt" #N "_product1", N, naive_ntt##N##_product1}, {"naive_ntt" #N "_product2", N, naive_ntt##N##_product2}, {"naive_ntt" #N "_product3", N, naive_ntt##N##_product3}, {"naive_ntt" #N "_product4", N, naive_ntt##N##_product4}, {"naive_ntt" #N "_product5", N, naive_ntt##N##_product5},
static const prod_t prods[] = { FOR_SIZES(PR) {0} };
#define W(N, base, k) {#base, N, k, base},
#define WR(N) W(N, naive_ntt##N##_ct_rev2std, K_REVIN) W(N, naive_ntt##N##_gs_rev2std, K_REVIN|K_GS) W(N, naive_ntt##N##_ct_std2rev, 0) W(N, naive_ntt##N##_gs_std2rev, K_GS) \
  W(N, naive_intt##N##_ct_rev2std, K_REVIN|K_INV) W(N, naive_intt##N##_gs_rev2std, K_REVIN|K_GS|K_INV) W(N, naive_intt##N##_ct_std2rev, K_INV) W(N, naive_intt##N##_gs_std2rev, K_GS|K_INV) \
  W(N, naive_mulntt##N##_ct_rev2std, K_REVIN|K_PRE) W(N, naive_mulntt##N##_ct_std2rev, K_PRE) \
  W(N, naive_inttmul##N##_gs_rev2std, K_REVIN|K_GS|K_INV|K_POST) W(N, naive_inttmul##N##_gs_std2rev, K_GS|K_INV|K_POST)
static const wrap_t wraps[] = { FOR_SIZES(WR) {0} };
#define X(f, k) static void x_##f(int32_t *a, uint32_t n, const void *p) { f(a, n, (const uint16_t *) p, 12289); }
#define XL X(ntt_ct_rev2std_naive, K_REVIN) X(mulntt_ct_rev2std_naive, K_REVIN|K_PRE) \
  X(ntt_ct_std2rev_naive, K_TREV) X(mulntt_ct_std2rev_naive, K_TREV|K_PRE) X(ntt_gs_rev2std_naive, K_REVIN|K_TREV|K_GS) \
  X(nttmul_gs_rev2std_naive, K_REVIN|K_TREV|K_POST|K_GS) X(ntt_gs_std2rev_naive, K_GS) X(nttmul_gs_std2rev_naive, K_GS|K_POST)
XL
#undef X
#define X(f, k) {#f, k, x_##f},
static const xf_t xfs[] = { XL {0} };
#undef X
static void mul16(int32_t *a, uint32_t n, const void *p) { mul_array16_naive(a, n, (const uint16_t *) p, 12289); }
static void mul(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b) { mul_array_naive(c, n, a, b, 12289); }
static void scal(int32_t *a, uint32_t n, int32_t c) { scalar_mul_array_naive(a, n, c, 12289); }
#define PA(N) {N, ntt##N##_psi, ntt##N##_omega, ntt##N##_inv_psi, ntt##N##_inv_omega, ntt##N##_inv_n},
static const par_t pars[] = { FOR_SIZES(PA) {0} };
const impl_t impl_naive = { .impl = "naive", .prods = prods, .wraps = wraps, .xfs = xfs, .pars = pars,
  .mul16 = mul16, .mul = mul, .scal = scal, .bitrev = bitrev_shuffle, .shuffle = shuffle_with_table };

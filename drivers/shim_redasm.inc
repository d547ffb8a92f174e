/* S = function suffix (empty or _asm) */
#define CAT3_(a, b, c) a##b##c
#define CAT3(a, b, c) CAT3_(a, b, c)
#define STR_(x) #x
#define STR(x) STR_(x)
#define F(base) CAT3(base, S, )
#define P1(N, k) {STR(F(ntt_red##N##_product##k)), N, F(ntt_red##N##_product##k)},
#define PR(N) P1(N, 1) P1(N, 2) P1(N, 3) P1(N, 4) P1(N, 5)
static const prod_t prods[] = { FOR_SIZES(PR) {0} };
#define W(N, base, k) {STR(F(base)), N, k, F(base)},
#define WR(N) W(N, ntt_red##N##_ct_rev2std, K_REVIN) W(N, ntt_red##N##_gs_rev2std, K_REVIN|K_GS) W(N, ntt_red##N##_ct_std2rev, 0) W(N, ntt_red##N##_gs_std2rev, K_GS) \
  W(N, intt_red##N##_ct_rev2std, K_REVIN|K_INV) W(N, intt_red##N##_gs_rev2std, K_REVIN|K_GS|K_INV) W(N, intt_red##N##_ct_std2rev, K_INV) W(N, intt_red##N##_gs_std2rev, K_GS|K_INV) \
  W(N, mulntt_red##N##_ct_rev2std, K_REVIN|K_PRE) W(N, mulntt_red##N##_ct_std2rev, K_PRE) \
  W(N, inttmul_red##N##_gs_rev2std, K_REVIN|K_GS|K_INV|K_POST) W(N, inttmul_red##N##_gs_std2rev, K_GS|K_INV|K_POST)
static const wrap_t wraps[] = { FOR_SIZES(WR) {0} };
#define XL X(ntt_red_ct_rev2std, K_REVIN) X(mulntt_red_ct_rev2std, K_REVIN|K_PRE) \
  X(ntt_red_ct_std2rev, K_TREV) X(mulntt_red_ct_std2rev, K_TREV|K_PRE) X(ntt_red_gs_rev2std, K_REVIN|K_TREV|K_GS) \
  X(nttmul_red_gs_rev2std, K_REVIN|K_TREV|K_POST|K_GS) X(ntt_red_gs_std2rev, K_GS) X(nttmul_red_gs_std2rev, K_GS|K_POST)
#define X(f, k) static void x_##f(int32_t *a, uint32_t n, const void *p) { F(f)(a, n, (const int16_t *) p); }
XL
#undef X
#define X(f, k) {STR(F(f)), k, x_##f},
static const xf_t xfs[] = { XL {0} };
#undef X
static void mul16(int32_t *a, uint32_t n, const void *p) { F(mul_reduce_array16)(a, n, (const int16_t *) p); }
#define PA(N) {N, ntt_red##N##_psi, ntt_red##N##_omega, ntt_red##N##_inv_psi, ntt_red##N##_inv_omega, ntt_red##N##_inv_n},
static const par_t pars[] = { FOR_SIZES(PA) {0} };

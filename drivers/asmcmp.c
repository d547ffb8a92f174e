/* C05 monitor: each AVX2 routine and its C counterpart run on the same data;
 * the two arrays must be identical bit for bit. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "calls.h"
#include "cpuemu.h"
static rng_t R;
static uint64_t pairs_run, lanes[32];
static uint8_t A1[4 * 4096 + 128], A2[4 * 4096 + 128], B1[4 * 2048 + 128], B2[4 * 2048 + 128], O1[4 * 2048 + 128], O2[4 * 2048 + 128], P1[2 * 4096 + 128], P2[2 * 4096 + 128];
static void *al(uint8_t *base, size_t elt, uint32_t off) { uintptr_t x = ((uintptr_t) base + 31) & ~(uintptr_t) 31; return (void *)(x + elt * off); }
static uint8_t *SM[4];
static void cmp(const call_t *c, const routine_t *cr) {
  uint32_t n = c->n; uint64_t z = rng_u64(&R);
  int32_t *a1 = al(A1, 4, z & 7), *b1 = al(B1, 4, z >> 3 & 7), *o1 = al(O1, 4, z >> 6 & 7), *a2 = al(A2, 4, z >> 9 & 7), *b2 = al(B2, 4, z >> 12 & 7), *o2 = al(O2, 4, z >> 15 & 7);
  uint16_t *p1 = al(P1, 2, z >> 18 & 15), *p2 = al(P2, 2, z >> 22 & 15);
  if ((z >> 40 & 3) == 0) { /* the assembler routine's arrays across a 4 GiB boundary */
    if (SM[0]) a1 = (int32_t *) SM[0] - (n / 2 & ~7u) - (z & 7);
    if (SM[1]) b1 = (int32_t *) SM[1] - (n / 2 & ~7u) - (z >> 3 & 7);
    if (SM[2]) o1 = (int32_t *) SM[2] - (n / 2 & ~7u) - (z >> 6 & 7);
    if (SM[3]) p1 = (uint16_t *) SM[3] - (c->np / 2 & ~7u) - (z >> 18 & 15);
    stat_add("across_4GiB", 1);
  }
  memcpy(a1, c->a, 4 * n); memcpy(a2, c->a, 4 * n);
  if (c_hasb(c->r)) { memcpy(b1, c->b, 4 * n); memcpy(b2, c->b, 4 * n); memset(o1, 0x11, 4 * n); memset(o2, 0x77, 4 * n); }
  memcpy(p1, c->p, 2 * c->np); memcpy(p2, c->p, 2 * c->np);
  OP("%s n=%u %s", c->r->name, n, c->what);
  call_exec(c, c_outofplace(c->r) ? o1 : a1, a1, b1, p1);
  call_t *m = (call_t *) c; const routine_t *save = c->r; m->r = cr;
  OP("%s n=%u %s", cr->name, n, c->what);
  call_exec(c, c_outofplace(cr) ? o2 : a2, a2, b2, p2);
  m->r = save;
  const int32_t *x = c_outofplace(cr) ? o1 : a1, *y = c_outofplace(cr) ? o2 : a2;
  if (memcmp(x, y, 4 * n)) for (uint32_t i = 0; i < n; i++) if (x[i] != y[i]) {
    viol(c->r->name, "n=%u input class %s: element %u is %d, the C routine gives %d (operand %d; placement offsets %d,%d,%d,%d); seed=%llu shard=%d", n, c->what, i, x[i], y[i], c->a[i], (int)(z & 7), (int)(z >> 3 & 7), (int)(z >> 6 & 7), (int)(z >> 18 & 15), (unsigned long long) H_seed, H_shard);
    break;
  }
  pairs_run++; lanes[z & 7]++;
}
static const routine_t *counterpart(const routine_t *r) {
  for (int i = 0; i < NRT; i++) if (RT[i].impl == 2 && RT[i].sig == r->sig && RT[i].n == r->n && RT[i].kind == r->kind) {
    if (r->sig == S_PROD) { /* product k <-> product k */
      const char *p = strstr(r->name, "product"), *q = strstr(RT[i].name, "product");
      if (p[7] != q[7]) continue;
    }
    return &RT[i];
  }
  return NULL;
}
static call_t C;
/* the AVX2 query on simulated processors */
static void query_avx2(void) {
  emu_init();
  for (uint32_t i = 0; i < 512; i++) {
    cpuemu_t e; emu_make(&e, &R, i); OP("avx2_supported on simulated processor %u", i);
    EMU_ON(&e); bool got = IMPL[3].avx2(); EMU_OFF();
    if (!e.cpuids) continue;                      /* the routine has another source: nothing to compare */
    if (e.bad_xgetbv) viol("avx2_supported", "executes XGETBV although the operating system has not enabled it (CPUID.1:ECX=%08x)", e.l1_ecx);
    else if (!!got != emu_expected(&e)) viol("avx2_supported", "returns %d on a processor with CPUID.1:ECX=%08x CPUID.7.0:EBX=%08x XCR0=%x", (int) got, e.l1_ecx, e.l7_ebx, e.xcr0);
    stat_add("simulated_processors", 1); stat_add(emu_expected(&e) ? "simulated_with_avx2" : "simulated_without_avx2", 1);
  }
}
/* long arrays: lengths beyond 16-bit counters, up to a few million elements */
static void long_arrays(void) {
  static const uint32_t L[] = { 65520, 65536, 65552, 131072, 131088, 1048576, 1048592, 3000000 / 16 * 16 };
  uint32_t n = L[H_shard % 8];
  int32_t *src = malloc(4 * n), *x = malloc(4 * n + 64), *y = malloc(4 * n), *o = malloc(4 * n + 64), *q = malloc(4 * n), *b = malloc(4 * n); uint16_t *p = malloc(2 * n);
  for (int i = 0; i < NRT; i++) if (RT[i].impl == 3 && RT[i].n == 0 && RT[i].sig != S_XF && RT[i].sig != S_BITREV && RT[i].sig != S_SHUF) {
    const routine_t *r = &RT[i], *cr = counterpart(r); if (!cr) continue;
    for (uint32_t j = 0; j < n; j++) {
      switch (r->sig) { case S_SHIFT: src[j] = (int32_t) rng_below(&R, Q); break; case S_CORR: src[j] = (int32_t) rng_range(&R, -Q, 2 * Q - 1); break; case S_RED: case S_RED2: src[j] = (int32_t) rng_u64(&R); break; default: src[j] = (int32_t) rng_range(&R, -21499, 21499); }
      b[j] = (int32_t) rng_range(&R, -6144, 6144); p[j] = (uint16_t) b[j];
    }
    int32_t *X = SM[0] && (H_seed + (uint64_t) i) % 2 && n <= 2000000 ? (int32_t *) SM[0] - (n / 2 & ~15u) : x + 1;
    memcpy(X, src, 4 * n); memcpy(y, src, 4 * n); memset(o, 1, 4 * n); memset(q, 2, 4 * n);
    C.r = r; C.n = n; C.np = n; C.k = 4321; C.what = "long";
    OP("%s n=%u long array", r->name, n);
    call_exec(&C, c_outofplace(r) ? o + 3 : X, X, b, p);
    C.r = cr; call_exec(&C, c_outofplace(r) ? q : y, y, b, p); C.r = r;
    const int32_t *g = c_outofplace(r) ? o + 3 : X, *w = c_outofplace(r) ? q : y;
    for (uint32_t j = 0; j < n; j++) if (g[j] != w[j]) { viol(r->name, "length %u: element %u is %d, the C routine gives %d (operand %d)", n, j, g[j], w[j], src[j]); break; }
    stat_add("long_calls", 1); case_seen(hash_bytes(src, 4 * n, (uint64_t) i), 1);
  }
  free(src); free(x); free(y); free(o); free(q); free(b); free(p);
}
int main(int argc, char **argv) {
  h_init(argc, argv); h_watch("C05"); rng_seed(&R, 5);
  calls_init(12);
  __builtin_cpu_init();
  if (!!IMPL[3].avx2() != !!__builtin_cpu_supports("avx2")) viol("avx2_supported", "returns %d but the processor reports %d", (int) IMPL[3].avx2(), __builtin_cpu_supports("avx2"));
  stat_add("avx2_query", 1);
  query_avx2();
  for (int i = 0; i < 4; i++) SM[i] = straddle_map(i, 8u << 20);
  long_arrays();
  int nasm = 0;
  uint32_t rounds = H_thorough ? 60000 : 10000;
  for (int i = 0; i < NRT; i++) if (RT[i].impl == 3) {
    const routine_t *cr = counterpart(&RT[i]);
    if (!cr) { fprintf(stderr, "no counterpart for %s\n", RT[i].name); return 3; }
    nasm++;
    uint32_t k = rounds; if (RT[i].sig == S_PROD || RT[i].sig == S_WRAP) k = rounds / 20; else if (RT[i].sig == S_XF) k = rounds * 2;
    for (uint32_t it = 0; it < k; it++) { call_gen(&C, &R, &RT[i]); cmp(&C, cr); case_seen(call_hash(&C), 1); if (it == 0) sample("%s vs %s n=%u %s", RT[i].name, cr->name, C.n, C.what); }
    if (RT[i].sig == S_XF) { /* extremal inputs */
      for (uint32_t n = 16; n <= 2048; n <<= 1) for (uint32_t m = 0; m < (n <= 256 ? 3u : 1u); m++) {
        static root_t rt; static uint32_t t[2048];
        root_init(&rt, n, pick_root(&R, n)); kind_table(t, &rt, RT[i].kind, 8193);
        C.r = &RT[i]; C.n = C.np = n; C.k = (int32_t) rt.psi; C.what = "adversarial";
        for (uint32_t j = 0; j < n; j++) C.p[j] = (uint16_t)(int16_t) shiftq(t[j]);
        float *M = xf_matrix(n, (int16_t *) C.p, RT[i].kind);
        for (uint32_t q = 0; q < (H_thorough ? 400u : 60u); q++) { gen_adversarial(&R, C.a, n, -21499, 21499, M); cmp(&C, cr); case_seen(call_hash(&C), 1); stat_add("adversarial", 1); }
        free(M);
      }
    }
  }
  if (H_shard == 0) stat_add("asm_routines", nasm);
  /* operand sweeps: every routine against its counterpart on enumerated values; the value walks through all lanes */
  const impl_t *r = &IMPL[2], *s = &IMPL[3]; enum { B = 4096 };
  static int32_t x[B] __attribute__((aligned(64))), y[B] __attribute__((aligned(64))), z[B] __attribute__((aligned(64)));
  struct { const char *n; void (*f)(int32_t *, uint32_t), (*g)(int32_t *, uint32_t); } un[] = { { "reduce_array_asm", s->reduce, r->reduce }, { "reduce_array_twice_asm", s->reduce2, r->reduce2 }, { "reduce_array_asm2", s->reduce_v2, r->reduce }, { "reduce_array_twice_asm2", s->reduce2_v2, r->reduce2 } };
  uint64_t span = (1ull << 32) / (uint64_t) H_nshards; int64_t lo = INT32_MIN + (int64_t)(span * (uint64_t) H_shard);
  for (int k = 0; k < 4; k++) if (un[k].f) {
    for (uint64_t d = 0; d < span; d += B) {
      for (int i = 0; i < B; i++) x[i] = y[i] = (int32_t)(lo + (int64_t) d + ((i + (int)(d / B)) & (B - 1)));
      OP("%s x=%lld", un[k].n, (long long)(lo + (int64_t) d));
      un[k].f(x, B); un[k].g(y, B);
      if (memcmp(x, y, sizeof x)) for (int i = 0; i < B; i++) if (x[i] != y[i]) { int32_t v = (int32_t)(lo + (int64_t) d + ((i + (int)(d / B)) & (B - 1))); viol(un[k].n, "value %d in lane %d: AVX2 gives %d, C gives %d", v, i & 7, x[i], y[i]); break; }
    }
    case_exhaustive(span); stat_add("values_swept_unary", span);
  }
  /* shift and correct: full domain in every lane of a 16-element block (others random) */
  for (int op = 0; op < 2; op++) for (int64_t v = (op ? -Q : 0) + H_shard; v < (op ? 2 * Q : Q); v += H_nshards) {
    for (int lane = 0; lane < 16; lane++) for (int i = 0; i < 16; i++) x[16 * lane + i] = i == lane ? (int32_t) v : (int32_t) rng_range(&R, op ? -Q : 0, op ? 2 * Q - 1 : Q - 1);
    memcpy(y, x, 4 * 256); memcpy(z, x, 4 * 256);
    OP("%s v=%lld", op ? "correct_asm" : "shift_array_asm", (long long) v);
    (op ? s->correct : s->shift)(x, 256); (op ? r->correct : r->shift)(y, 256);
    for (int i = 0; i < 256; i++) if (x[i] != y[i]) { viol(op ? "correct_asm" : "shift_array_asm", "value %d lane %d: AVX2 gives %d, C gives %d", z[i], i & 15, x[i], y[i]); break; }
    case_exhaustive(16);
  }
  /* products: one operand swept over 16-bit table values, the other over extremes and random, rotating lanes */
  uint64_t nm = H_thorough ? 800000 : 100000;
  static int16_t p16[B];
  for (uint64_t it = 0; it < nm; it++) {
    for (int i = 0; i < 256; i++) {
      int64_t u = (rng_u64(&R) & 3) == 0 ? (int64_t) rng_range(&R, -200000000, 200000000) : rng_range(&R, -600000, 600000); int16_t w = (int16_t) rng_range(&R, -12288, 12288);
      if ((rng_u64(&R) & 7) == 0) w = (rng_u64(&R) & 1) ? 6144 : -6144;
      if ((rng_u64(&R) & 15) == 0) w = (int16_t) rng_u64(&R);
      x[i] = (int32_t) u; p16[i] = w; z[i] = (int32_t) u;
    }
    memcpy(y, x, 1024);
    OP("mul16 sweep %llu", (unsigned long long) it);
    s->mul16(x, 256, p16); r->mul16(y, 256, p16);
    for (int i = 0; i < 256; i++) if (x[i] != y[i]) { viol("mul_reduce_array16_asm", "%d * %d in lane %d: AVX2 gives %d, C gives %d", z[i], p16[i], i & 15, x[i], y[i]); break; }
    case_exhaustive(256);
    if (s->mul16_v2) { memcpy(x, z, 1024); s->mul16_v2(x, 256, p16); for (int i = 0; i < 256; i++) if (x[i] != y[i]) { viol("mul_reduce_array16_asm2", "%d * %d in lane %d: AVX2 gives %d, C gives %d", z[i], p16[i], i & 15, x[i], y[i]); break; } }
    for (int i = 0; i < 256; i++) { x[i] = (int32_t) rng_range(&R, -2900000, 2900000); y[i] = (int32_t) rng_range(&R, -2900000, 2900000); }
    static int32_t o1[256], o2[256];
    s->mul(o1, 256, x, y); r->mul(o2, 256, x, y);
    for (int i = 0; i < 256; i++) if (o1[i] != o2[i]) { viol("mul_reduce_array_asm", "%d * %d in lane %d: AVX2 gives %d, C gives %d", x[i], y[i], i & 15, o1[i], o2[i]); break; }
    s->mul(o1, 256, x, x); r->mul(o2, 256, x, x); /* both operands the same (const) array */
    for (int i = 0; i < 256; i++) if (o1[i] != o2[i]) { viol("mul_reduce_array_asm", "%d squared in lane %d: AVX2 gives %d, C gives %d", x[i], i & 15, o1[i], o2[i]); break; }
    int32_t k = (int32_t) rng_range(&R, -2900000, 2900000);
    if (it & 1) k = (int32_t)(((it >> 1) * (uint64_t) H_nshards + (uint64_t) H_shard) % (4 * Q + 1)) - 2 * Q; /* every scalar up to 2Q in absolute value */
    memcpy(z, x, 1024); memcpy(y, x, 1024);
    s->scal(x, 256, k); r->scal(y, 256, k);
    for (int i = 0; i < 256; i++) if (x[i] != y[i]) { viol("scalar_mul_reduce_array_asm", "%d * %d in lane %d: AVX2 gives %d, C gives %d", z[i], k, i & 15, x[i], y[i]); break; }
    case_exhaustive(768);
    if (it % 8 == 0) { /* products at the documented limits of the reduction */
      for (int i = 0; i < 256; i++) {
        int64_t v; switch (rng_below(&R, 4)) { case 0: v = rng_range(&R, 4096, 9000); break; case 1: v = 1LL << rng_range(&R, 12, 30); break; case 2: v = rng_range(&R, 1, 3000000); break; default: v = rng_range(&R, 1, INT32_MAX); }
        if (rng_u64(&R) & 1) v = -v;
        int64_t u = ((rng_u64(&R) & 1) ? 8796093026303LL : -8796042698752LL) / v; if (u > INT32_MAX) u = INT32_MAX;
        if (u < INT32_MIN) u = INT32_MIN;
        x[i] = (int32_t) u; y[i] = (int32_t) v;
      }
      OP("products at the limits %llu", (unsigned long long) it);
      s->mul(o1, 256, x, y); r->mul(o2, 256, x, y);
      for (int i = 0; i < 256; i++) if (o1[i] != o2[i]) { viol("mul_reduce_array_asm", "%d * %d in lane %d: AVX2 gives %d, C gives %d", x[i], y[i], i & 15, o1[i], o2[i]); break; }
      case_exhaustive(256); stat_add("limit_products", 256);
    }
  }
  stat_add("products_swept", nm * 1024);
  stat_add("call_pairs_compared", pairs_run); for (int i = 0; i < 8; i++) if (lanes[i]) stat_add("placements", 1);
  return h_finish();
}

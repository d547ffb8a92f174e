/* C08 monitor: recorded calls are replayed under permuted histories and from
 * concurrent threads; every replay must give the recorded result. Built plainly
 * (all implementations) and with ThreadSanitizer (C implementations). */
#ifdef H_SANITIZED
#define NO_ASM
#endif
#include "calls.h"
#include <pthread.h>
#include <sched.h>
#include <fenv.h>
#include <immintrin.h>
static rng_t R;
static call_t *POOL; static int NPOOL; static int32_t **RES;
#define NTHR 8
static volatile int inflight[NTHR]; static uint64_t pairseen[512 * 512 / 64];
static pthread_barrier_t bar;
static uint64_t concurrent_calls, overlaps;
static int per_round, rounds;

static void dirty_regs(uint64_t z) {
#ifndef H_SANITIZED
  __m256i v = _mm256_set1_epi64x((long long) z);
  __asm__ volatile("vmovdqa %0, %%ymm0; vmovdqa %0, %%ymm1; vmovdqa %0, %%ymm2; vmovdqa %0, %%ymm3; vmovdqa %0, %%ymm4; vmovdqa %0, %%ymm5; vmovdqa %0, %%ymm6; vmovdqa %0, %%ymm7;"
                   "vmovdqa %0, %%ymm8; vmovdqa %0, %%ymm9; vmovdqa %0, %%ymm10; vmovdqa %0, %%ymm11; vmovdqa %0, %%ymm12; vmovdqa %0, %%ymm13; vmovdqa %0, %%ymm14; vmovdqa %0, %%ymm15"
                   : : "m"(v) : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
#endif
}
typedef struct { int32_t a[2048 + 16], b[2048 + 16], o[2048 + 16]; uint16_t p[4096 + 32]; } bufs_t;
/* run call i on the given buffers; fixed=1: always the same addresses, own copy of the table */
static const int32_t *run(int i, bufs_t *B, rng_t *r, int fixed, int share) {
  const call_t *c = &POOL[i]; uint32_t n = c->n; uint64_t z = rng_u64(r);
  int32_t *a = B->a + (fixed ? 0 : z & 7), *b = B->b + (fixed ? 0 : z >> 3 & 7), *o = B->o + (fixed ? 0 : z >> 6 & 7); uint16_t *p = B->p + (fixed ? 0 : z >> 9 & 15);
  memcpy(a, c->a, 4 * n); if (c_hasb(c->r)) memcpy(b, c->b, 4 * n);
  if (c_outofplace(c->r)) { int m = (int)(z >> 13 & 3); if (m == 0) memset(o, 0, 4 * n); else if (m == 1) memset(o, 0xFF, 4 * n); else for (uint32_t k = 0; k < n; k++) o[k] = (int32_t)(z * (k + 1)); }
  const void *pp = c->p;
  if (!share) { memcpy(p, c->p, 2 * c->np); pp = p; }
  dirty_regs(z);
  call_exec(c, c_outofplace(c->r) ? o : a, a, b, pp);
  return c_outofplace(c->r) ? o : a;
}
static void *thr(void *arg) {
  int id = (int)(intptr_t) arg; rng_t r; rng_seed(&r, 800 + (uint64_t) id);
  bufs_t *B = malloc(sizeof *B);
  uint64_t my = 0, ov = 0;
  for (int rd = 0; rd < rounds; rd++) {
    pthread_barrier_wait(&bar);
    /* some rounds: all threads run the same routine; others: any mix */
    int base = (int)((uint32_t)(rd * 7919) % (uint32_t) NPOOL), mode = rd % 4;
    for (int k = 0; k < per_round; k++) {
      int i = mode == 0 ? (base + k) % NPOOL : mode == 1 ? (base + k / 4) % NPOOL : (int) rng_below(&r, (uint32_t) NPOOL);
      int rt = (int)(POOL[i].r - RT) + 1;
      __atomic_store_n(&inflight[id], rt, __ATOMIC_RELAXED);
      const int32_t *res = run(i, B, &r, 0, (k & 1));
      for (int t = 0; t < NTHR; t++) if (t != id) { int x = __atomic_load_n(&inflight[t], __ATOMIC_RELAXED); if (x) { ov++; int u = rt * 512 + x; __atomic_fetch_or(&pairseen[u / 64], 1ull << (u % 64), __ATOMIC_RELAXED); } }
      __atomic_store_n(&inflight[id], 0, __ATOMIC_RELAXED);
      if (memcmp(res, RES[i], 4 * POOL[i].n)) { uint32_t q = 0; while (res[q] == RES[i][q]) q++; viol(POOL[i].r->name, "run concurrently (thread %d): element %u is %d, alone it is %d (n=%u)", id, q, res[q], RES[i][q], POOL[i].n); }
      my++; __atomic_fetch_add(&H_progress, 1, __ATOMIC_RELAXED);
      if ((rng_u64(&r) & 15) == 0) sched_yield();
    }
  }
  free(B);
  __atomic_fetch_add(&concurrent_calls, my, __ATOMIC_RELAXED); __atomic_fetch_add(&overlaps, ov, __ATOMIC_RELAXED);
  return NULL;
}
/* cold start: in a fresh process the very first calls are concurrent (state initialised on first use shows here) */
typedef struct { call_t c; const int32_t *res; } cold_t;
static cold_t COLD[NTHR];
static int cold_bad;
static void *cold_thr(void *arg) {
  int id = (int)(intptr_t) arg; call_t *c = &COLD[id].c; uint32_t n = c->n;
  int32_t *a = malloc(4 * n + 4), *b = malloc(4 * n + 4), *o = malloc(4 * n + 4);
  for (int rep = 0; rep < 2; rep++) {
    memcpy(a, c->a, 4 * n); memcpy(b, c->b, 4 * n); memset(o, 0x2C, 4 * n);
    pthread_barrier_wait(&bar);
    int32_t *res = c_outofplace(c->r) ? o : a;
    call_exec(c, res, a, b, c->p);
    int k = call_check(c, res);
    if (k >= 0) { __atomic_store_n(&cold_bad, 1, __ATOMIC_RELAXED); viol(c->r->name, "%s concurrent call in a fresh process: element %d is %d (n=%u)", rep ? "second" : "first", k, res[k], n); }
  }
  free(a); free(b); free(o);
  return NULL;
}
#include <sys/wait.h>
#include <unistd.h>
static int cold(void) {
  uint64_t runs = 0;
  int reps = H_thorough ? 12 : 1, mixes = H_thorough ? 600 : 60;
  for (int it = 0; it < NRT * reps + mixes * H_nshards; it++) {
    if (it % H_nshards != H_shard) continue;
    int mix = it >= NRT * reps; uint64_t h = (uint64_t) it;
    uint32_t size = mix && rng_below(&R, 2) ? 16u : 0;
    for (int t = 0; t < NTHR; t++) {
      const routine_t *r = &RT[it % NRT];
      if (mix) do r = &RT[rng_below(&R, (uint32_t) NRT)]; while (size && r->n && r->n != size);
      call_gen(&COLD[t].c, &R, r); h = hash_bytes(&h, 8, call_hash(&COLD[t].c));
    }
    fflush(stdout); fflush(stderr);
    OP("concurrent first calls: %s, %s, ..", COLD[0].c.r->name, COLD[1].c.r->name);
    pid_t pid = fork();
    if (pid < 0) exit(3);
    if (pid == 0) {
      pthread_barrier_init(&bar, NULL, NTHR);
      pthread_t T[NTHR];
      for (int t = 0; t < NTHR; t++) if (pthread_create(&T[t], NULL, cold_thr, (void *)(intptr_t) t)) _exit(3);
      for (int t = 0; t < NTHR; t++) pthread_join(T[t], NULL);
      fflush(stdout);
      exit(cold_bad ? 1 : 0);
    }
    int st; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) exit(3);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) viol(COLD[0].c.r->name, "concurrent first calls of %s, %s, .. in a fresh process: wrong result, data race or crash (status %x)", COLD[0].c.r->name, COLD[1].c.r->name, st);
    runs++; case_seen(h, 1);
  }
#ifdef H_SANITIZED
  stat_add("cold_starts_under_tsan", runs);
#else
  stat_add("cold_starts", runs);
#endif
  return h_finish();
}
/* nearby histories: consecutive calls at the same addresses whose arguments differ in as little as one element,
 * with the output array still holding the previous result (results remembered by address, length, end elements, sums
 * or table address show here); every result is compared with the oracle, not with a recording */
static int nearby(void) {
  static call_t base, cur, other; static int32_t a[4096], b[2048], o[2048], prev[2048]; static uint16_t p[4096];
  uint64_t calls = 0, changed = 0; int reps = H_thorough ? 400 : 24;
  for (int rep = 0; rep < reps; rep++) for (int ri = 0; ri < NRT; ri++) {
    const routine_t *r = &RT[ri];
    call_gen(&base, &R, r); cur = base;
    for (int step = 0; step < 12; step++) {
      uint32_t n = base.n; const char *what = "first call"; if (step) cur = base;
      if (step && n) {
        uint32_t i = rng_below(&R, n), j = rng_below(&R, n); if (n > 4 && (step & 1)) { i = 1 + rng_below(&R, n - 2); j = 1 + rng_below(&R, n - 2); }
        int32_t *x = c_hasb(r) && (rng_u64(&R) & 1) ? cur.b : cur.a, t;
        switch (step) {
        case 1: case 2: what = "two elements exchanged"; t = x[i]; x[i] = x[j]; x[j] = t; break;
        case 3: what = "two elements changed, same sum"; if (i != j && x[i] > 0 && x[j] >= 0 && x[j] < Q - 1 && x[i] < Q) { x[i]--; x[j]++; } break;
        case 10: what = "three elements changed, same sum and weighted sum";
          if (n >= 8) { uint32_t d = 1 + rng_below(&R, n / 4); i = rng_below(&R, n - 2 * d); if (x[i] >= 0 && x[i] < Q - 1 && x[i + 2 * d] >= 0 && x[i + 2 * d] < Q - 1 && x[i + d] >= 2 && x[i + d] < Q) { x[i]++; x[i + d] -= 2; x[i + 2 * d]++; } }
          break;
        case 4: what = "one element changed"; x[i] = x[i] > 0 ? x[i] - 1 : x[i] + 1; break;
        case 5: what = "second operand changed";
          if (c_hasb(r)) { call_gen(&other, &R, r); uint32_t m = other.n < n ? other.n : n; if (r->sig == S_PROD) memcpy(cur.b, other.b, 4 * m); else for (uint32_t k = 0; k < n; k++) cur.b[k] = cur.b[n - 1 - k] / 2; }
          break;
        case 6: what = "other table at the same address";
          if (r->sig == S_XF) { do call_gen(&other, &R, r); while (other.n != n && other.n > 2); if (other.n == n) { memcpy(cur.p, other.p, 2 * other.np); cur.k = other.k; } }
          else if (r->sig == S_MUL16) { uint16_t z = cur.p[i]; cur.p[i] = cur.p[j]; cur.p[j] = z; cur.p[i] = r->impl >= 2 ? (uint16_t) -(int16_t) cur.p[i] : cur.p[i]; }
          else if (r->sig == S_SCAL) cur.k = cur.k > 0 ? cur.k - 1 : cur.k + 1;
          break;
        case 7: what = "other length"; if (!r->n) { do call_gen(&other, &R, r); while (other.n > 2048); cur = other; if (other.n <= n && r->sig != S_XF && r->sig != S_SHUF && r->sig != S_MUL) memcpy(cur.a, base.a, 4 * other.n); } break;
        case 8: case 11: what = "same arguments"; break;
        case 9: what = "result of the previous call as argument"; if (r->sig == S_PROD) memcpy(cur.a, prev, 4 * n); break;
        }
      }
      n = cur.n; memcpy(a, cur.a, 4 * n); if (c_hasb(r)) memcpy(b, cur.b, 4 * n); memcpy(p, cur.p, 2 * cur.np);
      OP("%s (nearby history, %s)", r->name, what);
      int32_t *res = c_outofplace(r) ? o : a;
      call_exec(&cur, res, a, b, p);
      int k = call_check(&cur, res);
      if (k >= 0) viol(r->name, "after a call at the same addresses (now: %s): element %d is %d (n=%u)", what, k, res[k], n);
      if (n <= 2048) { if (step && memcmp(prev, res, 4 * n)) changed++; memcpy(prev, res, 4 * n); }
      calls++; case_seen(call_hash(&cur), n > 0);
    }
  }
  stat_add("nearby_calls", calls); stat_add("nearby_results_changed", changed);
  return h_finish();
}
int main(int argc, char **argv) {
  h_init(argc, argv); h_watch("C08"); rng_seed(&R, 8);
#ifdef NO_ASM
  calls_init(7);
#else
  calls_init(15);
#endif
  if (!strcmp(H_mode, "cold")) return cold();
  if (!strcmp(H_mode, "nearby")) return nearby();
  int per = H_thorough ? 12 : 4;
  NPOOL = NRT * per; POOL = malloc(sizeof(call_t) * (size_t) NPOOL); RES = calloc((size_t) NPOOL, sizeof *RES);
  if (NRT >= 511) return 3;
  bufs_t *B = calloc(1, sizeof *B);
  for (int i = 0; i < NPOOL; i++) {
    call_gen(&POOL[i], &R, &RT[i % NRT]);
    const int32_t *res = run(i, B, &R, 1, 0);
    int k = call_check(&POOL[i], res);
    if (k >= 0) viol(POOL[i].r->name, "first run: element %d is %d (n=%u)", k, res[k], POOL[i].n);
    RES[i] = malloc(4 * POOL[i].n + 4); memcpy(RES[i], res, 4 * POOL[i].n);
    case_seen(call_hash(&POOL[i]), POOL[i].n > 0);
    if (i % (NRT / 3) == 0) sample("%s n=%u %s", POOL[i].r->name, POOL[i].n, POOL[i].what);
  }
  if (H_shard == 0) stat_add("routines", NRT);
  if (!strcmp(H_mode, "history")) {
    int reps = H_thorough ? 6000 : 600; uint64_t nn = 0; int *perm = malloc(sizeof(int) * (size_t) NPOOL);
    static const int modes[4] = { FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO };
    for (int rep = 0; rep < reps; rep++) {
      for (int i = 0; i < NPOOL; i++) perm[i] = i;
      if (rep % 3 == 0) for (int i = NPOOL - 1; i > 0; i--) { int j = (int) rng_below(&R, (uint32_t) i + 1), t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
      else if (rep % 3 == 1) for (int i = 0; i < NPOOL; i++) perm[i] = (int)(((uint32_t) i / (uint32_t) NRT) + (uint32_t)(i % NRT) * (uint32_t) per) % NPOOL; /* other call order, grouped */
      else { /* runs of one routine with different data */ int r0 = (int) rng_below(&R, (uint32_t) NRT); for (int i = 0; i < NPOOL; i++) perm[i] = (r0 + i / per) % NRT + (i % per) * NRT; }
      fesetround(modes[rep % 4]);
      for (int i = 0; i < NPOOL; i++) {
        int q = perm[i]; OP("%s (history replay %d)", POOL[q].r->name, rep);
        const int32_t *res = run(q, B, &R, rep & 1, 0);
        if (memcmp(res, RES[q], 4 * POOL[q].n)) { uint32_t k = 0; while (res[k] == RES[q][k]) k++; viol(POOL[q].r->name, "after a different history: element %u is %d, before it was %d (n=%u, previous call %s)", k, res[k], RES[q][k], POOL[q].n, i ? POOL[perm[i - 1]].r->name : "none"); }
        nn++;
      }
      fesetround(FE_TONEAREST);
      case_seen(hash_bytes(perm, sizeof(int) * (size_t) NPOOL, (uint64_t) rep), 1);
    }
    stat_add("replays_under_permuted_history", nn); stat_add("histories", (uint64_t) reps);
    return h_finish();
  }
#ifdef H_SANITIZED
  per_round = 60; rounds = H_thorough ? 6000 : 600;
#else
  per_round = 400; rounds = H_thorough ? 8000 : 800;
#endif
  pthread_barrier_init(&bar, NULL, NTHR);
  pthread_t T[NTHR];
  for (int i = 0; i < NTHR; i++) pthread_create(&T[i], NULL, thr, (void *)(intptr_t) i);
  for (int i = 0; i < NTHR; i++) pthread_join(T[i], NULL);
  uint64_t dp = 0; for (size_t i = 0; i < sizeof pairseen / 8; i++) dp += (uint64_t) __builtin_popcountll(pairseen[i]);
  for (uint64_t i = 0; i < dp; i++) case_seen(hash_bytes(&i, 8, (uint64_t) H_shard + 99), 1);
#ifdef H_SANITIZED
  stat_add("concurrent_calls_under_tsan", concurrent_calls);
#else
  stat_add("concurrent_calls", concurrent_calls);
#endif
  stat_add("overlapping_call_observations", overlaps); stat_max("distinct_overlapping_routine_pairs", (int64_t) dp);
  return h_finish();
}

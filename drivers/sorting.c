/* C15 monitor: sort() on enumerated, hostile and random arrays placed against
 * guard pages, on a small stack; order, contents and surroundings are compared. */
#include "h.h"
#include <pthread.h>
#include <signal.h>
extern void (*const sort_api)(uint64_t *, uint32_t);
static rng_t R;
static uint64_t calls;
static int cmp(const void *a, const void *b) { uint64_t x = *(const uint64_t *) a, y = *(const uint64_t *) b; return x < y ? -1 : x > y; }
static void show(char *s, size_t l, const uint64_t *a, uint32_t n) { size_t k = 0; for (uint32_t i = 0; i < n && i < 24 && k + 24 < l; i++) k += (size_t) snprintf(s + k, l - k, "%llu ", (unsigned long long) a[i]); if (n > 24) snprintf(s + k, l - k, "..."); else s[k] = 0; }
/* linear reference for small arrays: counting through a sorted copy */
static uint64_t *ref, *in; static size_t cap;
static void check(const char *what, const uint64_t *src, uint32_t n, uint64_t *at) {
  char b[800], o[800];
  memcpy(ref, src, 8 * (size_t) n);
  if (n <= 16) { for (uint32_t i = 1; i < n; i++) { uint64_t x = ref[i]; uint32_t j = i; while (j && ref[j - 1] > x) { ref[j] = ref[j - 1]; j--; } ref[j] = x; } }
  else qsort(ref, n, 8, cmp);
  memcpy(at, src, 8 * (size_t) n);
  H_progress++;
  sort_api(at, n); calls++;
  if (memcmp(at, ref, 8 * (size_t) n)) {
    uint32_t i; for (i = 1; i < n && at[i - 1] <= at[i]; i++) ;
    show(b, sizeof b, src, n); show(o, sizeof o, at, n);
    viol(i < n ? "not in order" : "values changed", "%s n=%u: input %s -> %s", what, n, b, o);
  }
}
static gbuf_t G[2]; static uint32_t glen = ~0u;
static void guards(uint32_t n) { if (glen == n) return; if (glen != ~0u) { gbuf_free(&G[0]); gbuf_free(&G[1]); } gbuf_new(&G[0], 8 * (size_t) n, 0); gbuf_new(&G[1], 8 * (size_t) n, 1); glen = n; }
static uint32_t turn;
static void one(const char *what, const uint64_t *a, uint32_t n) {
  guards(n); gbuf_t *g = &G[turn++ & 1];
  check(what, a, n, (uint64_t *) g->data);
  if ((n > 16 || (turn & 63) == 0) && !gbuf_canary_ok(g)) viol("writes outside the array", "%s n=%u", what, n);
}
static void *work(void *arg) {
  uint64_t idx = 0, enumerated = 0; (void) arg;
#ifndef H_SANITIZED
  static uint8_t alt[65536]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, NULL);
#endif
#define MINE ((int)(idx++ % (uint64_t) H_nshards) == H_shard)
  /* every array over {0..k-1}: all orderings with ties, all small lengths */
  for (uint32_t n = 0; n <= 16; n++) {
    uint32_t k = n <= 6 ? n + 1 : n == 7 ? 7 : n == 8 ? 6 : n == 9 ? 5 : n <= 11 ? 4 : n == 12 ? 3 : n == 13 ? 3 : 2;
    if (H_thorough) k = n <= 7 ? n + 1 : n == 8 ? 8 : n == 9 ? 6 : n <= 11 ? 5 : n <= 13 ? 4 : n <= 16 ? 3 : 2;
    uint64_t tot = 1; for (uint32_t i = 0; i < n; i++) tot *= k;
#ifdef H_SANITIZED
    if (tot > 40000) continue;
#endif
    snprintf(H_op, sizeof H_op, "sort of all arrays of length %u over %u values", n, k);
    static const uint64_t map[4][9] = { { 0, 1, 2, 3, 4, 5, 6, 7, 8 }, { 0, UINT64_MAX, 1, UINT64_MAX - 1, 1ull << 63, (1ull << 63) - 1, 1ull << 32, (1ull << 32) - 1, 5 }, { UINT64_MAX, 0, 0xffffffffull, 0x100000000ull, 1ull << 63, 7, 8, 9, 10 }, { 8, 7, 6, 5, 4, 3, 2, 1, 0 } };
    for (uint64_t v = (uint64_t) H_shard; v < tot; v += (uint64_t) H_nshards) {
      uint64_t a[16], x = v; const uint64_t *m = map[v % 4]; for (uint32_t i = 0; i < n; i++) { a[i] = m[x % k]; x /= k; }
      one("enumerated array", a, n); enumerated++;
    }
  }
  /* all permutations of 9 and 10 */
  for (uint32_t n = 9; n <= (H_thorough ? 11u : 10u); n++) {
#ifdef H_SANITIZED
    break;
#endif
    snprintf(H_op, sizeof H_op, "sort of all permutations of length %u", n);
    uint64_t f = 1; for (uint32_t i = 2; i <= n; i++) f *= i;
    for (uint64_t v = (uint64_t) H_shard; v < f; v += (uint64_t) H_nshards) {
      uint64_t a[12]; uint8_t pool[12]; for (uint32_t i = 0; i < n; i++) pool[i] = (uint8_t) i; uint64_t x = v;
      for (uint32_t i = 0; i < n; i++) { uint32_t q = (uint32_t)(x % (n - i)); x /= n - i; a[i] = pool[q]; pool[q] = pool[n - i - 1]; }
      one("permutation", a, n); enumerated++;
    }
  }
  case_exhaustive(enumerated); stat_add("enumerated_arrays", enumerated);
  /* random and structured, every length up to 1200, then long ones */
  uint32_t shapes = 18, reps = H_thorough ? 12 : 2, extra = H_thorough ? 40 : 16;
#ifdef H_SANITIZED
  reps = 1; extra = H_thorough ? 16 : 8;
#endif
  for (uint32_t n = 0; n <= 1200 + extra; n++) {
    uint32_t len = n <= 1200 ? n : n <= 1200 + extra * 3 / 4 ? 1200 + rng_below(&R, 60000) : 100000 + rng_below(&R, 400000);
    if (!MINE) continue;
    for (uint32_t s = 0; s < shapes * (n <= 1200 ? reps : 1); s++) {
      uint32_t sh = s % shapes; uint64_t mask = ~0ull >> rng_below(&R, 64), base = rng_u64(&R);
      snprintf(H_op, sizeof H_op, "sort n=%u shape %u", len, sh);
      for (uint32_t i = 0; i < len; i++) switch (sh) {
        case 0: in[i] = rng_u64(&R); break;
        case 1: in[i] = i; break;
        case 2: in[i] = len - i; break;
        case 3: in[i] = base; break;
        case 4: in[i] = rng_u64(&R) & mask; break;
        case 5: in[i] = rng_u64(&R) & 1 ? UINT64_MAX : 0; break;
        case 6: in[i] = i < len / 2 ? i : len - i; break;           /* organ pipe */
        case 7: in[i] = i < len / 2 ? len - i : i; break;
        case 8: in[i] = i % 7; break;
        case 9: in[i] = i == len - 1 ? 0 : i + 1; break;
        case 10: in[i] = i == 0 ? len : i; break;
        case 11: in[i] = (1ull << 63) + (rng_u64(&R) & 3) - 2; break;
        case 12: in[i] = ((uint64_t) rng_below(&R, 4) << 32) | rng_below(&R, 4); break;
        case 13: in[i] = i * 0x9E3779B97F4A7C15ull; break;
        case 14: in[i] = UINT64_MAX - (rng_u64(&R) & 3); break;
        case 15: in[i] = (i & 1) ? i : len - i; break;
        case 16: in[i] = i; break;
        default: in[i] = rng_below(&R, len ? len : 1); break;
      }
      if (sh == 16) { /* middle element always the largest of what is left: unbalanced partitions */
        uint32_t m = len > 20000 ? 20000 : len; len = len > m ? m : len;
        if (len) in[0] = 1;
        for (uint32_t q = 2; q <= len; q++) { uint64_t l0 = in[0], lm = in[q / 2 < q - 1 ? q / 2 : 0]; in[q - 1] = l0; if (q / 2 != q - 1) in[0] = lm; in[q / 2] = q; }
        if (s & 1) for (uint32_t i = 0; i < len; i++) in[i] = len + 1 - in[i];
        stat_max("longest_unbalanced", len);
      }
      one("array", in, len);
      case_seen(hash_bytes(in, 8 * (size_t) len, len), len > 1);
      stat_max("longest", len);
    }
  }
  stat_add("shaped_arrays", calls - enumerated);
  return NULL;
}
int main(int argc, char **argv) {
  h_init(argc, argv); rng_seed(&R, 0x50); h_watch("sort");
  cap = 600000; ref = malloc(8 * cap); in = malloc(8 * cap);
  /* 512 KiB of stack: recursion must not grow with the length of the array */
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 << 10);
  pthread_t t; 
#ifdef H_SANITIZED
  work(NULL); (void) t;
#else
  if (pthread_create(&t, &at, work, NULL)) { perror("thread"); return 3; }
  pthread_join(t, NULL);
#endif
  stat_add("sort_calls", calls);
  sample("last: %s", H_op);
  return h_finish();
}

/* C07 monitor (sanitizers): every C routine on exactly sized heap blocks. Built
 * with AddressSanitizer (redzones around every block and table) or with
 * MemorySanitizer (outputs start uninitialised; results must not depend on that). */
#define NO_ASM
#include "calls.h"
#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define MSAN 1
# endif
#endif
static rng_t R;
static call_t C;
int main(int argc, char **argv) {
  h_init(argc, argv); h_watch("C07"); rng_seed(&R, 71); calls_init(7);
  uint64_t n_calls = 0;
  uint32_t rounds = H_thorough ? 900 : 60;
  for (uint32_t it = 0; it < rounds; it++) for (int i = 0; i < NRT; i++) {
    call_gen(&C, &R, &RT[i]);
    const routine_t *r = C.r; uint32_t n = C.n;
    int32_t *a = malloc(4 * n), *b = malloc(c_hasb(r) ? 4 * n : 1), *o = c_outofplace(r) ? malloc(4 * n) : a; uint16_t *p = malloc(2 * C.np);
    memcpy(a, C.a, 4 * n); if (c_hasb(r)) memcpy(b, C.b, 4 * n); memcpy(p, C.p, 2 * C.np);
    OP("%s n=%u", r->name, n);
    call_exec(&C, o, a, b, p);
#ifdef MSAN
    if (n) __msan_check_mem_is_initialized(o, 4 * n);
#endif
    int k = call_check(&C, o);
    if (k >= 0) viol(r->name, "n=%u element %d wrong: %d", n, k, o[k]);
    if (c_constab(r) && (memcmp(a, C.a, 4 * n) || memcmp(b, C.b, 4 * n))) viol(r->name, "modifies a constant operand (n=%u)", n);
    if (memcmp(p, C.p, 2 * C.np)) viol(r->name, "modifies its constant table (n=%u)", n);
    if (o != a) free(o);
    free(a); free(b); free(p);
    n_calls++; case_seen(call_hash(&C), n > 0);
  }
  stat_add(
#ifdef MSAN
    "calls_under_memory_sanitizer"
#else
    "calls_under_address_sanitizer"
#endif
    , n_calls);
  return h_finish();
}

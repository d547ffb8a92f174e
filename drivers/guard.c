/* C07 monitor (hardware): every routine on arrays flush against unmapped pages,
 * const arguments in read-only pages, canaries around misaligned placements, and
 * a register/stack/flags snapshot around every call. */
#include "calls.h"
#include "cpuemu.h"
#include <sys/mman.h>
static rng_t R;
static call_t C;
extern void tramp_call(void *f, uint64_t *args, uint64_t *st);
static uint64_t calls_ok, prot_ro, snaps;
/* pools: one big guarded mapping per role; data placed flush at the end or at the start, or in the middle with canaries */
typedef struct { uint8_t *map, *mid; size_t body; } pool_t;
static pool_t PL[4];
#define BODY 20480u
static void pool_init(pool_t *p) {
  /* the body straddles a 4 GiB boundary, so that address arithmetic in fewer than 64 bits shows */
  p->body = BODY; uint8_t *mid = straddle_map((int)(p - PL), BODY / 2 / 4096 * 4096 + 8192);
  if (mid) { p->map = mid - 4096 - (BODY / 2 / 4096 * 4096); p->mid = mid; stat_add("pools_across_4GiB", 1); }
  else { p->map = mmap(NULL, BODY + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p->map == MAP_FAILED) exit(3); p->mid = p->map + 8192; }
  mprotect(p->map, 4096, PROT_NONE); mprotect(p->map + 4096 + BODY, 4096, PROT_NONE); p->map += 4096;
}
static uint8_t *place(pool_t *p, size_t len, int where, uint32_t off) {
  memset(p->map, 0xC7, p->body);
  if (where == 0) return p->map + p->body - len;
  if (where == 1) return p->map;
  if (where == 3) { uint8_t *x = p->mid - (len / 2 & ~(size_t) 63) - (off & 28); if (x < p->map) x = p->map; if (x + len > p->map + p->body) x = p->map + p->body - len; return x; }
  return p->map + 512 + off;
}
static bool canary(pool_t *p, uint8_t *d, size_t len) {
  for (uint8_t *x = p->map; x < d; x++) if (*x != 0xC7) return false;
  for (uint8_t *x = d + len; x < p->map + p->body; x++) if (*x != 0xC7) return false;
  return true;
}
static const char *regs[6] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
static void snapshot(const char *name, uint32_t n, const uint64_t st[13]) {
  for (int k = 0; k < 6; k++) if (st[k] != 0x1111111111111111ull * (uint64_t)(k + 1)) { viol(name, "callee-saved register %s not preserved (n=%u)", regs[k], n); }
  if (st[6] & 0x400) viol(name, "direction flag left set (n=%u)", n);
  if (st[7]) viol(name, "stack pointer changed by %lld (n=%u)", (long long) st[7], n);
  if (st[8]) viol(name, "caller's stack frame overwritten (n=%u)", n);
  if ((st[9] & 0xFFC0) != (st[10] & 0xFFC0)) viol(name, "MXCSR control bits changed (n=%u)", n);
  if (st[11] != 0x37F) viol(name, "x87 control word changed to %llx (n=%u)", (unsigned long long) st[11], n);
  if (st[12] != 0xFFFF) viol(name, "x87/MMX registers left in use, tag word %llx (n=%u)", (unsigned long long) st[12], n);
  snaps++;
}
/* the AVX2 query, on this processor and on simulated ones (so that each of its exits is taken) */
static void query_avx2(void) {
  uint64_t args[4] = { 0 }, st[13] = { 0 };
  OP("avx2_supported"); tramp_call((void *) IMPL[3].avx2, args, st); snapshot("avx2_supported", 0, st);
  emu_init();
  for (uint32_t i = 0; i < 128; i++) {
    cpuemu_t e; emu_make(&e, &R, i); memset(st, 0, sizeof st); OP("avx2_supported on simulated processor %u", i);
    EMU_ON(&e); tramp_call((void *) IMPL[3].avx2, args, st); EMU_OFF();
    snapshot("avx2_supported", i, st); stat_add("simulated_processors", e.cpuids > 0); case_seen(hash_bytes(&e, sizeof e, 99), 1);
  }
}
int main(int argc, char **argv) {
  h_init(argc, argv); h_watch("C07"); rng_seed(&R, 7); calls_init(15);
  for (int i = 0; i < 4; i++) pool_init(&PL[i]);
  uint32_t rounds = H_thorough ? 2000 : 150;
  query_avx2();
  if (H_shard == 0) stat_add("routines", NRT);
  for (uint32_t it = 0; it < rounds; it++) for (int i = 0; i < NRT; i++) {
    call_gen(&C, &R, &RT[i]);
    const routine_t *r = C.r; uint32_t n = C.n; size_t L = 4 * (size_t) n, LP = 2 * (size_t) C.np;
    int w = (int)(rng_u64(&R) & 3), w2 = (int)(rng_u64(&R) & 3), w3 = (int)(rng_u64(&R) & 3), w4 = (int)(rng_u64(&R) & 3);
    int32_t *a = (int32_t *) place(&PL[0], L, w, 4 * rng_below(&R, 16)); memcpy(a, C.a, L);
    int32_t *b = (int32_t *) place(&PL[1], c_hasb(r) ? L : 0, w2, 4 * rng_below(&R, 16)); if (c_hasb(r)) memcpy(b, C.b, L);
    int32_t *o = a;
    if (c_outofplace(r)) o = (int32_t *) place(&PL[2], L, w3, 4 * rng_below(&R, 16));
    uint16_t *p = (uint16_t *) place(&PL[3], LP, w4, 2 * rng_below(&R, 32)); memcpy(p, C.p, LP);
    if (c_hasp(r)) mprotect(PL[3].map, BODY, PROT_READ);
    if (c_constab(r)) { mprotect(PL[0].map, BODY, PROT_READ); mprotect(PL[1].map, BODY, PROT_READ); prot_ro++; }
    if (c_hasp(r)) prot_ro++;
    OP("%s n=%u (placement a:%d b:%d c:%d table:%d)", r->name, n, w, w2, w3, w4);
    /* the shim wrapper for S_XF/MUL16 is a tail call into the routine, so the snapshot covers both */
    uint64_t args[4] = { 0 }, st[13] = { 0 };
    switch (r->sig) {
    case S_PROD: args[0] = (uint64_t) o; args[1] = (uint64_t) a; args[2] = (uint64_t) b; break;
    case S_WRAP: args[0] = (uint64_t) a; break;
    case S_XF: case S_MUL16: args[0] = (uint64_t) a; args[1] = n; args[2] = (uint64_t) p; break;
    case S_MUL: args[0] = (uint64_t) o; args[1] = n; args[2] = (uint64_t) a; args[3] = (uint64_t) b; break;
    case S_SCAL: args[0] = (uint64_t) a; args[1] = n; args[2] = (uint32_t) C.k | 0xABCD000000000000ull; break; /* upper half of a 32-bit argument is unspecified */
    case S_SHUF: args[0] = (uint64_t) a; args[1] = (uint64_t) p; args[2] = C.np / 2; break;
    default: args[0] = (uint64_t) a; args[1] = n;
    }
    if (r->sig != S_PROD && r->sig != S_WRAP && r->sig != S_SHUF) args[1] |= 0x7F00000000000000ull * (rng_u64(&R) & 1);
    tramp_call(r->f, args, st);
    snapshot(r->name, n, st);
    if (c_hasp(r)) mprotect(PL[3].map, BODY, PROT_READ | PROT_WRITE);
    if (c_constab(r)) { mprotect(PL[0].map, BODY, PROT_READ | PROT_WRITE); mprotect(PL[1].map, BODY, PROT_READ | PROT_WRITE); }
    if (!canary(&PL[0], (uint8_t *) a, L)) viol(r->name, "writes outside its first array (n=%u, placement %d)", n, w);
    if (c_hasb(r) && !canary(&PL[1], (uint8_t *) b, L)) viol(r->name, "writes outside its second operand (n=%u, placement %d)", n, w2);
    if (c_outofplace(r) && !canary(&PL[2], (uint8_t *) o, L)) viol(r->name, "writes outside its output array (n=%u, placement %d)", n, w3);
    if (c_hasp(r) && (!canary(&PL[3], (uint8_t *) p, LP) || memcmp(p, C.p, LP))) viol(r->name, "modifies its constant table (n=%u)", n);
    int k = call_check(&C, o);
    if (k >= 0) viol(r->name, "wrong result at element %d when placed at %d,%d,%d,%d (n=%u): %d", k, w, w2, w3, w4, n, o[k]);
    calls_ok++;
    case_seen(call_hash(&C) + (uint64_t)(w * 64 + w2 * 16 + w3 * 4 + w4), n > 0);
    if (it == 0 && i % 37 == H_shard) sample("%s n=%u placement %d%d%d%d (0: ends at an unmapped page, 1: begins after one, 2: misaligned with canaries, 3: across a 4 GiB boundary)", r->name, n, w, w2, w3, w4);
  }
  stat_add("calls_guarded", calls_ok); stat_add("calls_with_readonly_arguments", prot_ro); stat_add("register_snapshots", snaps);
  return h_finish();
}

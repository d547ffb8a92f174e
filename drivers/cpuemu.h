/* Runs a routine instruction by instruction (trap flag) and answers its CPUID and XGETBV
 * instructions on behalf of a simulated processor. The routine's own code is what executes. */
#ifndef CPUEMU_H
#define CPUEMU_H
#include <signal.h>
#include <ucontext.h>
#include <sys/ucontext.h>
typedef struct {
  uint32_t l1_ecx, l7_ebx, xcr0, noise;      /* what the simulated processor reports */
  uint32_t cpuids, leaf1, leaf7, xgetbvs, steps, bad_xgetbv;   /* what the routine asked */
} cpuemu_t;
static cpuemu_t *volatile EMU;
static void emu_step(int sig, siginfo_t *si, void *uc_) {
  (void) sig; (void) si;
  cpuemu_t *e = EMU; greg_t *g = ((ucontext_t *) uc_)->uc_mcontext.gregs;
  if (!e) { g[REG_EFL] &= ~0x100; return; }
  e->steps++;
  for (;;) {
    const uint8_t *c = (const uint8_t *) g[REG_RIP];
    if (c[0] == 0x0F && c[1] == 0xA2) {
      uint32_t leaf = (uint32_t) g[REG_RAX], sub = (uint32_t) g[REG_RCX], a = e->noise, b = e->noise * 3, cx = e->noise * 5, d = e->noise * 7;
      e->cpuids++;
      if (leaf == 0) { a = 7; b = 0x756e6547; d = 0x49656e69; cx = 0x6c65746e; }
      else if (leaf == 1) { e->leaf1++; cx = e->l1_ecx; }
      else if (leaf == 7) { e->leaf7++; a = 0; b = sub == 0 ? e->l7_ebx : 0; if (sub) cx = d = 0; }
      else if (leaf >= 0x80000000u) { a = 0x80000008u; }
      else if (leaf == 0xD) { a = sub == 0 ? e->xcr0 : 0; b = cx = d = 0; }
      g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = cx; g[REG_RDX] = d; g[REG_RIP] += 2;
    } else if (c[0] == 0x0F && c[1] == 0x01 && c[2] == 0xD0) {
      e->xgetbvs++;
      if (!(e->l1_ecx >> 27 & 1)) e->bad_xgetbv++;      /* would raise #UD */
      g[REG_RAX] = (uint32_t) g[REG_RCX] == 0 ? e->xcr0 : 0; g[REG_RDX] = 0; g[REG_RIP] += 3;
    } else return;
  }
}
static void emu_init(void) { struct sigaction s; memset(&s, 0, sizeof s); s.sa_sigaction = emu_step; s.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &s, NULL); }
#define EMU_ON(e) do { EMU = (e); __asm__ volatile("lea -128(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc"); } while (0)
#define EMU_OFF() do { __asm__ volatile("lea -128(%%rsp), %%rsp; pushfq; andq $-257, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc"); EMU = NULL; } while (0)
static int emu_expected(const cpuemu_t *e) { return (e->l1_ecx >> 27 & 1) && (e->l1_ecx >> 28 & 1) && (e->l7_ebx >> 5 & 1) && (e->xcr0 & 6) == 6; }
/* simulated processor number i: all combinations of the bits that decide, other bits varied
 * (no operating system can enable AVX state without SSE state, so XCR0 bit 2 implies bit 1) */
static void emu_make(cpuemu_t *e, rng_t *r, uint32_t i) {
  memset(e, 0, sizeof *e); uint32_t z = i / 32 % 4;
  uint32_t f1 = z == 0 ? 0 : z == 1 ? ~0u : (uint32_t) rng_u64(r), f7 = z == 0 ? 0 : z == 1 ? ~0u : (uint32_t) rng_u64(r), fx = z == 0 ? 1 : z == 1 ? 0xE7 : ((uint32_t) rng_u64(r) & 0xE7) | 1;
  e->l1_ecx = (f1 & ~0x18000000u) | (i & 1) << 27 | (i >> 1 & 1) << 28; e->l7_ebx = (f7 & ~0x20u) | (i >> 2 & 1) << 5; e->xcr0 = (fx & ~6u) | ((i >> 3 & 3) == 2 ? 3 : (i >> 3 & 3)) << 1; e->noise = z == 0 ? 0 : (uint32_t) rng_u64(r);
}
#endif

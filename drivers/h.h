/* Shared monitor runtime: RNG, violation log, event counters, crash and
 * no-progress monitors, guard-page buffers, arithmetic oracles for Q=12289. */
#ifndef H_H
#define H_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define Q 12289

/* ---- run parameters (from argv: --seed S --tier quick|thorough --shard i/N) ---- */
extern uint64_t H_seed;
extern int H_thorough, H_shard, H_nshards;
extern const char *H_mode;          /* --mode X */
void h_init(int argc, char **argv);
int h_finish(void);                 /* prints STAT lines; returns process exit status */

/* ---- RNG: every random choice derives from (seed, shard, stream) ---- */
typedef struct { uint64_t s[4]; } rng_t;
void rng_seed(rng_t *r, uint64_t stream);      /* seeded by H_seed, H_shard, stream */
void rng_seed_global(rng_t *r, uint64_t stream); /* seeded by H_seed, stream only */
uint64_t rng_u64(rng_t *r);
static inline uint32_t rng_below(rng_t *r, uint32_t n) { return (uint32_t)(((rng_u64(r) >> 32) * (uint64_t) n) >> 32); }
static inline int64_t rng_range(rng_t *r, int64_t lo, int64_t hi) { /* inclusive */
  uint64_t span = (uint64_t) hi - (uint64_t) lo + 1;
  if (span == 0) return (int64_t) rng_u64(r);
  return (int64_t)((uint64_t) lo + (uint64_t)(((unsigned __int128) rng_u64(r) * span) >> 64));
}

/* ---- reporting ---- */
/* key: short stable identification of what failed; detail: inputs/outputs */
void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
extern uint64_t H_viols;
void stat_add(const char *name, uint64_t v);
void stat_max(const char *name, int64_t v);
void stat_min(const char *name, int64_t v);
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* count a case: evaluations++, and distinct if hash not yet seen */
void case_seen(uint64_t hash, int nontrivial);
void case_exhaustive(uint64_t count);       /* an enumerated block of distinct cases */
uint64_t hash_bytes(const void *p, size_t n, uint64_t h);

/* ---- operation context, used by the crash and no-progress monitors ---- */
extern char H_op[512];
extern volatile uint64_t H_progress;
#define OP(...) (H_progress++, (void) snprintf(H_op, sizeof H_op, __VA_ARGS__))
#define TICK() (H_progress++)
void h_watch(const char *key);      /* install: crash or CPU stall => viol(key) and exit */

/* ---- guard buffers ---- */
typedef struct {
  uint8_t *map; size_t maplen;
  uint8_t *data;    /* usable start */
  size_t len;       /* usable bytes, flush against a guard page */
  int at_end;
} gbuf_t;
/* at_end=1: data+len is the first byte of an unmapped page; =0: data-1 is unmapped.
 * The slack on the other side (same page) is filled with a canary. */
void gbuf_new(gbuf_t *g, size_t len, int at_end);
void gbuf_free(gbuf_t *g);
bool gbuf_canary_ok(const gbuf_t *g);
void gbuf_readonly(gbuf_t *g, int ro);

/* ---- arithmetic oracles ---- */
static inline int32_t modq64(int64_t x) { int64_t r = x % Q; return (int32_t)(r < 0 ? r + Q : r); }
static inline int64_t red_def(int64_t x) { /* floor semantics, from the definition */
  int64_t q = x / 4096, r = x % 4096;
  if (r < 0) { r += 4096; q--; }
  return 3 * r - q;
}
uint32_t powq(uint32_t x, uint64_t k);
uint32_t invq(uint32_t x);
uint32_t brev(uint32_t i, uint32_t k);
uint32_t lg2(uint32_t n);

/* roots of -1: all psi with psi^n = -1 mod Q; returns the count */
uint32_t psi_roots(uint32_t n, uint32_t *out);

/* table definitions: kind bits */
enum { T_POW = 0, T_NTT = 1 };
/* t[tt+j] = x^(n/2tt) * (y^(n/2tt))^(rev? brev(j) : j) * s ; t[0]=0 */
void def_table(uint32_t *t, uint32_t n, uint32_t x, uint32_t y, int rev, uint32_t s);
/* t[i] = s*y^i */
void def_powers(uint32_t *t, uint32_t n, uint32_t s, uint32_t y);
static inline int32_t shiftq(uint32_t x) { return x > 6144 ? (int32_t) x - Q : (int32_t) x; }

/* reference transform: out[k] = sum_i in[i]*w^(ik) mod Q, in/out in standard order.
 * Own recursive evaluation; spot_check re-evaluates some outputs from the definition. */
void ref_ntt(uint32_t *out, const uint32_t *in, uint32_t n, uint32_t w);
uint32_t ref_eval(const uint32_t *in, uint32_t n, uint32_t x); /* Horner at x */
/* c = a*b mod x^n+1 : schoolbook, int64 accumulation */
void ref_negacyclic(int32_t *c, const int32_t *a, const int32_t *b, uint32_t n);
/* memory mapped around a 4 GiB boundary (a different one per slot): returns the boundary address,
 * with `half` usable bytes on each side, or NULL if none is free */
uint8_t *straddle_map(int slot, size_t half);
#endif

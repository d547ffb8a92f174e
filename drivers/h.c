#include "h.h"
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <errno.h>

uint64_t H_seed = 1;
int H_thorough = 0, H_shard = 0, H_nshards = 1;
const char *H_mode = "";
uint64_t H_viols = 0;
char H_op[512] = "(none)";
volatile uint64_t H_progress = 0;

void h_init(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--seed")) H_seed = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--tier")) H_thorough = !strcmp(argv[++i], "thorough");
    else if (!strcmp(argv[i], "--mode")) H_mode = argv[++i];
    else if (!strcmp(argv[i], "--shard")) {
      if (sscanf(argv[++i], "%d/%d", &H_shard, &H_nshards) != 2) exit(3);
    }
  }
  setvbuf(stdout, NULL, _IOLBF, 1 << 16);
}

static uint64_t splitmix(uint64_t *x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void rng_seed_global(rng_t *r, uint64_t stream) {
  uint64_t x = H_seed * 0x2545F4914F6CDD1Dull ^ (stream * 0xD6E8FEB86659FD93ull) ^ 0x1234567;
  for (int i = 0; i < 4; i++) r->s[i] = splitmix(&x);
}
void rng_seed(rng_t *r, uint64_t stream) {
  rng_seed_global(r, stream ^ ((uint64_t)(H_shard + 1) << 40));
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t rng_u64(rng_t *r) {
  uint64_t *s = r->s, result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return result;
}

/* ---- reporting ---- */
static pid_t main_pid;
void viol(const char *key, const char *fmt, ...) {
  uint64_t k = __atomic_add_fetch(&H_viols, 1, __ATOMIC_RELAXED);
  if (k > 40) return;
  char buf[2048];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  for (char *p = buf; *p; p++) if (*p == '\n' || *p == '\t') *p = ' ';
  printf("VIOL\t%s\t%s\n", key, buf);
  fflush(stdout);
}

#define NSTAT 256
static struct { char name[64]; int kind; int64_t v; } stats[NSTAT];
static int nstats;
static int stat_idx(const char *name, int kind, int64_t init) {
  for (int i = 0; i < nstats; i++) if (stats[i].kind == kind && !strcmp(stats[i].name, name)) return i;
  if (nstats == NSTAT) { fprintf(stderr, "too many stats\n"); exit(3); }
  snprintf(stats[nstats].name, 64, "%s", name);
  stats[nstats].kind = kind; stats[nstats].v = init;
  return nstats++;
}
void stat_add(const char *name, uint64_t v) { stats[stat_idx(name, 0, 0)].v += (int64_t) v; }
void stat_max(const char *name, int64_t v) { int i = stat_idx(name, 1, v); if (v > stats[i].v) stats[i].v = v; }
void stat_min(const char *name, int64_t v) { int i = stat_idx(name, 2, v); if (v < stats[i].v) stats[i].v = v; }

static char *samples[12]; static int nsamples;
void sample(const char *fmt, ...) {
  if (nsamples >= 12) return;
  char buf[400];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  samples[nsamples++] = strdup(buf);
}

static uint64_t evals, distinct;
static uint64_t *hset; static size_t hcap, hcnt;
void case_exhaustive(uint64_t c) { evals += c; distinct += c; }
void case_seen(uint64_t h, int nontrivial) {
  evals++;
  if (!nontrivial) return;
  if (!hset) { hcap = 1u << 16; hset = calloc(hcap, 8); }
  if (h == 0) h = 1;
  if (hcnt * 2 > hcap) {
    if (hcap >= (1u << 25)) return; /* table full: later cases are not counted as distinct */
    size_t nc = hcap * 4; uint64_t *ns = calloc(nc, 8);
    for (size_t i = 0; i < hcap; i++) if (hset[i]) {
      size_t j = hset[i] & (nc - 1); while (ns[j]) j = (j + 1) & (nc - 1); ns[j] = hset[i];
    }
    free(hset); hset = ns; hcap = nc;
  }
  size_t j = h & (hcap - 1);
  while (hset[j]) { if (hset[j] == h) return; j = (j + 1) & (hcap - 1); }
  hset[j] = h; hcnt++; distinct++;
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = p;
  h ^= 0xcbf29ce484222325ull + n;
  while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = (h ^ w) * 0x9FB21C651E98DF25ull; h ^= h >> 29; b += 8; n -= 8; }
  while (n--) { h = (h ^ *b++) * 0x100000001b3ull; }
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
  return h;
}
int h_finish(void) {
  free(hset); hset = NULL;
  printf("STAT\tadd\tevaluations\t%llu\n", (unsigned long long) evals);
  printf("STAT\tadd\tdistinct\t%llu\n", (unsigned long long) distinct);
  for (int i = 0; i < nstats; i++)
    printf("STAT\t%s\t%s\t%lld\n", stats[i].kind == 0 ? "add" : stats[i].kind == 1 ? "max" : "min", stats[i].name, (long long) stats[i].v);
  for (int i = 0; i < nsamples; i++) printf("SAMPLE\t%s\n", samples[i]);
  printf("STAT\tadd\tviolations\t%llu\n", (unsigned long long) H_viols);
  printf("DONE\n");
  fflush(stdout);
  return H_viols ? 1 : 0;
}

/* ---- crash / stall monitor ---- */
static const char *watch_key = "crash";
static void emit(const char *s) { ssize_t r = write(1, s, strlen(s)); (void) r; }
static void on_crash(int sig) {
  if (getpid() != main_pid) _exit(128 + sig);
  emit("\nVIOL\t"); emit(watch_key); emit(":");
  emit(sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : sig == SIGILL ? "SIGILL" : "SIGBUS");
  emit("\tcrash while executing: "); emit(H_op); emit("\n");
  _exit(1);
}
static uint64_t last_progress; static int stalled;
static void on_prof(int sig) {
  (void) sig;
  if (getpid() != main_pid) return;
  uint64_t now = __atomic_load_n(&H_progress, __ATOMIC_RELAXED); int st = 0; /* any thread may run this */
  if (now == __atomic_load_n(&last_progress, __ATOMIC_RELAXED)) st = __atomic_add_fetch(&stalled, 1, __ATOMIC_RELAXED);
  else { __atomic_store_n(&stalled, 0, __ATOMIC_RELAXED); __atomic_store_n(&last_progress, now, __ATOMIC_RELAXED); }
  if (st >= 12) { /* 12 consecutive 10-second CPU ticks inside one call */
    emit("\nVIOL\t"); emit(watch_key);
    emit(":no-return\tcall used 120 s of CPU without returning: "); emit(H_op); emit("\n");
    _exit(1);
  }
}
void h_watch(const char *key) {
  watch_key = key; main_pid = getpid();
  static uint8_t alt[65536];
  stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
  sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
#if !defined(__SANITIZE_ADDRESS__) && !defined(H_SANITIZED)
  sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sigs[] = { SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS };
  for (int i = 0; i < 5; i++) sigaction(sigs[i], &sa, NULL);
#else
  (void) on_crash;
#endif
  sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, NULL);
  struct itimerval it = { { 10, 0 }, { 10, 0 } };
  setitimer(ITIMER_PROF, &it, NULL);
}

/* ---- guard buffers ---- */
#define PG 4096u
void gbuf_new(gbuf_t *g, size_t len, int at_end) {
  size_t body = (len + PG - 1) / PG * PG; if (!body) body = PG;
  g->maplen = body + 2 * PG;
  g->map = mmap(NULL, g->maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (g->map == MAP_FAILED) { perror("mmap"); exit(3); }
  memset(g->map + PG, 0xA5, body);
  mprotect(g->map, PG, PROT_NONE);
  mprotect(g->map + PG + body, PG, PROT_NONE);
  g->len = len; g->at_end = at_end;
  g->data = at_end ? g->map + PG + body - len : g->map + PG;
}
void gbuf_free(gbuf_t *g) { munmap(g->map, g->maplen); g->map = NULL; }
bool gbuf_canary_ok(const gbuf_t *g) {
  const uint8_t *lo = g->map + PG, *hi = g->map + g->maplen - PG;
  for (const uint8_t *p = lo; p < g->data; p++) if (*p != 0xA5) return false;
  for (const uint8_t *p = g->data + g->len; p < hi; p++) if (*p != 0xA5) return false;
  return true;
}
void gbuf_readonly(gbuf_t *g, int ro) {
  mprotect(g->map + PG, g->maplen - 2 * PG, ro ? PROT_READ : PROT_READ | PROT_WRITE);
}

/* ---- oracles ---- */
uint32_t powq(uint32_t x, uint64_t k) {
  uint64_t y = 1, b = x % Q;
  while (k) { if (k & 1) y = y * b % Q; b = b * b % Q; k >>= 1; }
  return (uint32_t) y;
}
uint32_t invq(uint32_t x) { return powq(x, Q - 2); }
uint32_t brev(uint32_t i, uint32_t k) { uint32_t r = 0; while (k--) { r = (r << 1) | (i & 1); i >>= 1; } return r; }
uint32_t lg2(uint32_t n) { uint32_t k = 0; while ((1u << k) < n) k++; return k; }
uint32_t psi_roots(uint32_t n, uint32_t *out) {
  uint32_t c = 0;
  for (uint32_t x = 1; x < Q; x++) if (powq(x, n) == Q - 1) out[c++] = x;
  return c;
}
void def_table(uint32_t *t, uint32_t n, uint32_t x, uint32_t y, int rev, uint32_t s) {
  t[0] = 0;
  uint32_t k = 0;
  for (uint32_t tt = 1; tt < n; tt <<= 1, k++) {
    uint64_t b = (uint64_t) powq(x, n / (2 * tt)) * s % Q, c = powq(y, n / (2 * tt));
    for (uint32_t j = 0; j < tt; j++) {
      t[tt + (rev ? brev(j, k) : j)] = (uint32_t) b;
      b = b * c % Q;
    }
  }
}
void def_powers(uint32_t *t, uint32_t n, uint32_t s, uint32_t y) {
  uint64_t b = s;
  for (uint32_t i = 0; i < n; i++) { t[i] = (uint32_t) b; b = b * y % Q; }
}
static void rec(uint32_t *out, const uint32_t *in, uint32_t n, uint32_t stride, uint32_t w) {
  if (n == 1) { out[0] = in[0]; return; }
  uint32_t h = n / 2;
  uint64_t w2 = (uint64_t) w * w % Q;
  uint32_t e[h], o[h];
  rec(e, in, h, stride * 2, (uint32_t) w2);
  rec(o, in + stride, h, stride * 2, (uint32_t) w2);
  uint64_t z = 1;
  for (uint32_t k = 0; k < h; k++) {
    uint32_t v = (uint32_t)(z * o[k] % Q);
    out[k] = (e[k] + v) % Q;
    out[k + h] = (e[k] + Q - v) % Q;
    z = z * w % Q;
  }
}
void ref_ntt(uint32_t *out, const uint32_t *in, uint32_t n, uint32_t w) { rec(out, in, n, 1, w); }
uint32_t ref_eval(const uint32_t *in, uint32_t n, uint32_t x) {
  uint64_t r = 0;
  for (uint32_t i = n; i-- > 0; ) r = (r * x + in[i]) % Q;
  return (uint32_t) r;
}
void ref_negacyclic(int32_t *c, const int32_t *a, const int32_t *b, uint32_t n) {
  /* c[k] = sum_{i+j=k} a_i b_j - sum_{i+j=k+n} a_i b_j ; n*(Q-1)^2 < 2^63 */
  static _Thread_local int64_t acc[4096];
  memset(acc, 0, 2 * n * sizeof acc[0]);
  for (uint32_t i = 0; i < n; i++) {
    int64_t x = a[i];
    if (!x) continue;
    int64_t *d = acc + i;
    for (uint32_t j = 0; j < n; j++) d[j] += x * b[j];
  }
  for (uint32_t k = 0; k < n; k++) c[k] = modq64(acc[k] - acc[k + n]);
}

#include <sys/mman.h>
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
uint8_t *straddle_map(int slot, size_t half) {
  for (uint64_t k = 1 + (uint64_t) slot; k < 4096; k += 16) {
    uint8_t *want = (uint8_t *)((k << 32) - half);
    uint8_t *m = mmap(want, 2 * half, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (m == want) return m + half;
    if (m != MAP_FAILED) munmap(m, 2 * half);
  }
  return NULL;
}

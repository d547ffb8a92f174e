/* C20 monitor: what the interval analysis cannot handle must end the program with a
 * failure status and a message; what it can handle, up to the very limits, must be handled.
 * Every attempt runs in a child process; allocations of the code under test can be made to fail. */
#include "xf.h"
#include "shim_iv.h"
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include "ivcommon.h"
/* ---- allocation faults (linked with --wrap) ---- */
static long f_count, f_at; static int f_on, f_more; static volatile uint64_t *f_hits;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void *__real_aligned_alloc(size_t, size_t);
static int hit(void) { if (!f_on) return 0; f_count++; if (f_at && (f_more ? f_count >= f_at : f_count == f_at)) { ++*f_hits; errno = ENOMEM; return 1; } return 0; }
void *__wrap_malloc(size_t n) { return hit() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return hit() ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return hit() ? NULL : __real_realloc(p, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return hit() ? NULL : __real_aligned_alloc(a, n); }
int __real_posix_memalign(void **, size_t, size_t); int __wrap_posix_memalign(void **p, size_t a, size_t n) { return hit() ? ENOMEM : __real_posix_memalign(p, a, n); }

/* ---- one attempt ---- */
enum { O_POINT, O_INTERVAL, O_ADD, O_SUB, O_NEG, O_RED, O_RED2, O_SCALE, O_REDMUL, O_NORMAL, O_INV3, O_SHIFT, O_CORRECT, O_ELEMENTARY, E_NORMALIZE = O_ELEMENTARY, E_INV3, E_SHIFT, E_REDUCE, E_REDUCE2, E_CORRECT, E_MUL16, E_MUL, E_SCALAR, E_END };
static const char *ONAME[] = { "point", "interval", "add", "sub", "neg", "red", "red_twice", "red_scale", "red_mul", "normal", "normal_inv3", "shift", "correct",
  "abstract_normalize", "abstract_normalize_inv3", "abstract_shift_array", "abstract_reduce_array", "abstract_reduce_array_twice", "abstract_correct", "abstract_mul_reduce_array16", "abstract_mul_reduce_array", "abstract_scalar_mul_reduce_array" };
static int NXF;
typedef struct { int op; uint32_t n; ivl_t a[64], b[64]; int64_t k; int16_t p[64]; } att_t;  /* op >= E_END: transform; odd variant: table of intervals */
static char nbuf[100];
static const char *att_name(const att_t *t) { if (t->op < E_END) return ONAME[t->op]; int x = t->op - E_END; snprintf(nbuf, sizeof nbuf, "abstract%s_%s", x & 1 ? "2" : "", A->xfs[x / 2].name); return nbuf; }
static int is_array(int op) { return op >= O_ELEMENTARY; }
static uint64_t att_hash(const att_t *t) { return hash_bytes(t->a, sizeof(ivl_t) * t->n, hash_bytes(t->b, sizeof(ivl_t) * t->n, hash_bytes(t->p, 2 * t->n, (uint64_t) t->op * 1000003 + (uint64_t) t->k))); }
static ivl_t *own(const ivl_t *v) { ivl_t *r = A->interval(v->min, v->max); return r; }
/* runs the operation, leaves the results in out; 0: refused before arming */
static long att_run(const att_t *t, ivl_t *out, long at, int more) {
  static ivl_t *ia[64], *ib[64], *io[64]; ivl_t *r = NULL; const ivl_t *a = t->a, *b = t->b; uint32_t n = t->n;
  if (is_array(t->op)) for (uint32_t i = 0; i < n; i++) { ia[i] = own(&t->a[i]); ib[i] = own(&t->b[i]); io[i] = t->op == E_MUL ? A->point(0) : NULL; }
  f_count = 0; f_at = at; f_more = more; f_on = 1;
  switch (t->op) {
  case O_POINT: r = A->point(a->min); break; case O_INTERVAL: r = A->interval(t->a->min, t->a->max); break; case O_ADD: r = A->add(a, b); break; case O_SUB: r = A->sub(a, b); break; case O_NEG: r = A->neg(a); break;
  case O_RED: r = A->red(a); break; case O_RED2: r = A->red_twice(a); break; case O_SCALE: r = A->red_scale(t->k, a); break; case O_REDMUL: r = A->red_mul(a, b); break;
  case O_NORMAL: r = A->normal(a); break; case O_INV3: r = A->normal_inv3(a); break; case O_SHIFT: r = A->shift(a); break; case O_CORRECT: r = A->correct(a); break;
  case E_NORMALIZE: A->a_normalize(ia, n); break; case E_INV3: A->a_normalize_inv3(ia, n); break; case E_SHIFT: A->a_shift(ia, n); break; case E_REDUCE: A->a_reduce(ia, n); break; case E_REDUCE2: A->a_reduce2(ia, n); break;
  case E_CORRECT: A->a_correct(ia, n); break; case E_MUL16: A->a_mul16(ia, n, t->p); break; case E_MUL: A->a_mul(io, n, (const ivl_t **) ia, (const ivl_t **) ib); break; case E_SCALAR: A->a_scalar(ia, n, (int32_t) t->k); break;
  default: { const axf_t *x = &A->xfs[(t->op - E_END) / 2]; if ((t->op - E_END) & 1) x->f2(ia, n, (const ivl_t **) ib); else x->f1(ia, n, t->p); }
  }
  f_on = 0;
  if (!is_array(t->op)) out[0] = *r; else for (uint32_t i = 0; i < n; i++) out[i] = *(t->op == E_MUL ? io[i] : ia[i]);
  return f_count;
}
typedef struct { int end; int sig; int status; int msg; long allocs; ivl_t out[64]; } res_t; /* end: 1 returned, 2 ended with a failure, 3 ended successfully without returning, 4 crashed */
static void attempt(const att_t *t, long at, int more, res_t *r) {
  int fd[2], pd[2]; if (pipe(fd) || pipe(pd)) { perror("pipe"); exit(3); }
  OP("%s", att_name(t));
  fflush(stdout); pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    for (int s = 1; s < 32; s++) if (s != SIGKILL && s != SIGSTOP) signal(s, SIG_DFL);
    sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, NULL);
    dup2(fd[1], 2); int z = open("/dev/null", O_WRONLY); dup2(z, 1);
    alarm(100); /* only a backstop against an endless run: reported as no answer, never as a violation */
    static res_t x; memset(&x, 0, sizeof x); x.allocs = att_run(t, x.out, at, more); x.end = 1;
    size_t off = 0; while (off < sizeof x) { ssize_t w = write(pd[1], (char *) &x + off, sizeof x - off); if (w <= 0) _exit(99); off += (size_t) w; }
    _exit(0);
  }
  close(fd[1]); close(pd[1]);
  static res_t x; size_t off = 0; ssize_t k; while (off < sizeof x && (k = read(pd[0], (char *) &x + off, sizeof x - off)) > 0) off += (size_t) k;
  char buf[512]; int msg = 0; while ((k = read(fd[0], buf, sizeof buf)) > 0) msg = 1;
  close(fd[0]); close(pd[0]);
  int st; if (waitpid(p, &st, 0) != p) { perror("waitpid"); exit(3); }
  if (off == sizeof x) { *r = x; r->msg = msg; return; }
  memset(r, 0, sizeof *r); r->msg = msg;
  if (WIFSIGNALED(st)) { r->sig = WTERMSIG(st); if (r->sig == SIGALRM || r->sig == SIGKILL) { fprintf(stderr, "no answer from %s\n", att_name(t)); exit(3); } r->end = r->sig == SIGABRT ? 2 : 4; }
  else { r->status = WEXITSTATUS(st); r->end = r->status ? 2 : 3; }
}
static uint64_t refused, accepted, faults, fault_ok;
static void desc(const att_t *t, char *s, size_t z, uint32_t i) { snprintf(s, z, "%s n=%u, element %u: [%lld,%lld], [%lld,%lld], k=%lld w=%d", att_name(t), t->n, i, (long long) t->a[i].min, (long long) t->a[i].max, (long long) t->b[i].min, (long long) t->b[i].max, (long long) t->k, t->p[i]); }
static void must_refuse(const att_t *t, uint32_t i, const char *why) {
  static res_t r; char d[300]; desc(t, d, sizeof d, i); attempt(t, 0, 0, &r); refused++;
  if (r.end == 1) viol(att_name(t), "%s: %s, but it returned ([%lld,%lld] for that element)", d, why, (long long) r.out[is_array(t->op) ? i : 0].min, (long long) r.out[is_array(t->op) ? i : 0].max);
  else if (r.end == 3) viol(att_name(t), "%s: %s, but the program ended successfully", d, why);
  else if (r.end == 4) viol(att_name(t), "%s: %s, and the program crashed (signal %d)", d, why, r.sig);
  else if (!r.msg) viol(att_name(t), "%s: %s, and the program ended without a message", d, why);
  if (refused <= 4) sample("%s: refused (%s)", d, why);
  case_seen(att_hash(t), 1);
}
static void must_accept(const att_t *t, uint32_t i, int64_t lo, int64_t hi) {
  static res_t r; char d[300]; desc(t, d, sizeof d, i); attempt(t, 0, 0, &r); accepted++;
  if (r.end != 1) viol(att_name(t), "%s: admissible, but the program stopped (status %d, signal %d)", d, r.status, r.sig);
  else { const ivl_t *o = &r.out[is_array(t->op) ? i : 0]; if (o->min != lo || o->max != hi) viol(att_name(t), "%s: [%lld,%lld] instead of [%lld,%lld]", d, (long long) o->min, (long long) o->max, (long long) lo, (long long) hi); }
  case_seen(att_hash(t), 1);
}
static void base_att(att_t *t, int op, uint32_t n) { /* moderate operands: no overflow anywhere */
  t->op = op; t->n = n; t->k = rng_range(&R, -6144, 6144);
  for (uint32_t i = 0; i < n; i++) {
    if (op == O_SHIFT || op == E_SHIFT) pick_iv(&t->a[i], 0, Q - 1); else if (op == O_CORRECT || op == E_CORRECT) pick_iv(&t->a[i], -Q, 2 * Q - 1); else pick_iv(&t->a[i], -21499, 21499);
    t->p[i] = (int16_t) rng_range(&R, -6144, 6144);
    pick_iv(&t->b[i], -6144, 6144); if (t->b[i].max - t->b[i].min > 40) t->b[i].max = t->b[i].min + 40;
    if (op >= E_END && rng_below(&R, 2)) t->b[i].max = t->b[i].min;
  }
}
int main(int argc, char **argv) {
  h_init(argc, argv); h_watch("C20"); rng_seed(&R, 20);
  while (A->xfs[NXF].name) NXF++;
  f_hits = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (f_hits == MAP_FAILED) return 3;
  static att_t t; int cases = H_thorough ? 12000 : 700;
  for (int c = 0; c < cases; c++) {
    /* 1. bounds out of order, and in order */
    memset(&t, 0, sizeof t); t.op = O_INTERVAL; t.n = 1; ivl_t v; pick_iv(&v, INT64_MIN, INT64_MAX);
    if (rng_below(&R, 3) == 0 && v.min < INT64_MAX) v.max = v.min + 1;
    if (v.min < v.max) { t.a[0].min = v.max; t.a[0].max = v.min; must_refuse(&t, 0, "bounds out of order"); }
    t.a[0] = v; must_accept(&t, 0, v.min, v.max);
    if (c % 4 == 0) { t.a[0].max = t.a[0].min; must_accept(&t, 0, v.min, v.min); }
    /* 2. final correction outside and at the limits of its domain */
    uint32_t n = 1 + rng_below(&R, 32), i = rng_below(&R, 3) ? rng_below(&R, n) : rng_below(&R, 2) ? n - 1 : 0;
    base_att(&t, E_CORRECT, n);
    switch (rng_below(&R, 5)) {
    case 0: t.a[i].min = -Q - 1; break; case 1: t.a[i].max = 2 * Q; break; case 2: t.a[i].min = t.a[i].max = 2 * Q + (int64_t) rng_below(&R, 50000); break;
    case 3: t.a[i].min = t.a[i].max = -Q - 1 - (int64_t) rng_below(&R, 50000); break; default: t.a[i].min = rng_below(&R, 2) ? INT64_MIN : -((int64_t) 1 << (15 + rng_below(&R, 48))); if (rng_u64(&R) & 1) { t.a[i].max = -(t.a[i].min + 1); t.a[i].min = 0; } break; }
    must_refuse(&t, i, "not included in [-12289, 24577]");
    base_att(&t, E_CORRECT, n);
    switch (rng_below(&R, 4)) { case 0: t.a[i] = (ivl_t) { -Q, -Q }; must_accept(&t, i, 0, 0); break; case 1: t.a[i] = (ivl_t) { 2 * Q - 1, 2 * Q - 1 }; must_accept(&t, i, Q - 1, Q - 1); break; case 2: t.a[i] = (ivl_t) { -Q, 2 * Q - 1 }; must_accept(&t, i, 0, Q - 1); break; default: t.a[i] = (ivl_t) { -Q, -1 }; must_accept(&t, i, 0, Q - 1); break; }
    /* 3. sums and differences leaving 64 bits, alone and inside a one-round transform */
    int64_t d = (int64_t) rng_below(&R, rng_below(&R, 2) ? 2 : 100000);
    memset(&t, 0, sizeof t); t.n = 1; t.op = O_ADD + (int) rng_below(&R, 2);
    int up = (int) (rng_u64(&R) & 1); int64_t w = 1 + (int64_t) (rng_u64(&R) >> (2 + rng_below(&R, 60)));
    if (w <= 0 || w > INT64_MAX - 200000) w = 7;
    t.a[0] = up ? (ivl_t) { 0, INT64_MAX - w + 1 } : (ivl_t) { INT64_MIN + w - 1, 0 };
    if (t.op == O_ADD) t.b[0] = up ? (ivl_t) { -3, w } : (ivl_t) { -w, 3 }; else t.b[0] = up ? (ivl_t) { -w, 3 } : (ivl_t) { -3, w };
    must_refuse(&t, 0, "the exact bounds leave 64 bits");
    if (up) t.a[0].max--; else t.a[0].min++;
    must_accept(&t, 0, up ? -3 : INT64_MIN, up ? INT64_MAX : 3);
    if (c % 8 == 0) { t.op = O_NEG; t.a[0] = (ivl_t) { INT64_MIN, rng_below(&R, 2) ? INT64_MIN : INT64_MAX - d }; must_refuse(&t, 0, "the exact bounds leave 64 bits"); t.a[0] = (ivl_t) { INT64_MIN + 1, INT64_MAX - d }; must_accept(&t, 0, -(INT64_MAX - d), INT64_MAX); }
    { int x = (int) rng_below(&R, (uint32_t) NXF * 2), ct = strstr(A->xfs[x / 2].name, "_ct_") != NULL;
      base_att(&t, E_END + x, 2); for (int j = 0; j < 2; j++) { t.p[j] = (int16_t) (1 + rng_below(&R, 6144)); t.b[j] = (ivl_t) { t.p[j], t.p[j] }; }
      if (ct) { t.a[1] = (ivl_t) { -6000, 6000 }; t.a[0] = up ? (ivl_t) { 0, INT64_MAX - (int64_t) rng_below(&R, 2) } : (ivl_t) { INT64_MIN + (int64_t) rng_below(&R, 2), 0 }; }
      else { int64_t h = up ? INT64_MAX / 2 + 1 : INT64_MIN / 2 - 1; t.a[0] = (ivl_t) { h - (up ? 0 : d), h + (up ? d : 0) }; t.a[1] = (ivl_t) { h, h }; }
      must_refuse(&t, 0, "the sum of the two elements leaves 64 bits"); }
    /* 4. memory exhaustion at any allocation of any operation */
    int op = c < E_END + 2 * NXF ? c : (int) rng_below(&R, (uint32_t) (E_END + 2 * NXF)); n = op >= E_END ? 1u << (1 + rng_below(&R, 5)) : is_array(op) ? 1 + rng_below(&R, 40) : 1;
    base_att(&t, op, n); static res_t ref, r; attempt(&t, 0, 0, &ref);
    if (ref.end != 1) { viol(att_name(&t), "moderate operands: the program stopped (status %d, signal %d)", ref.status, ref.sig); continue; }
    for (int q = 0; q < 5 && ref.allocs > 0; q++) {
      long at = q == 0 ? 1 : q == 1 ? ref.allocs : 1 + (long) rng_below(&R, (uint32_t) ref.allocs); int more = (int) (rng_u64(&R) & 1);
      attempt(&t, at, more, &r); faults++; char ds[300]; desc(&t, ds, sizeof ds, 0);
      if (r.end == 1) { if (memcmp(r.out, ref.out, sizeof(ivl_t) * (is_array(op) ? n : 1))) viol(att_name(&t), "%s: with allocation %ld of %ld failing it returned other intervals", ds, at, ref.allocs); fault_ok++; }
      else if (r.end == 3) viol(att_name(&t), "%s: with allocation %ld of %ld failing the program ended successfully", ds, at, ref.allocs);
      else if (r.end == 4) viol(att_name(&t), "%s: with allocation %ld of %ld failing the program crashed (signal %d)", ds, at, ref.allocs, r.sig);
      else if (!r.msg) viol(att_name(&t), "%s: with allocation %ld of %ld failing the program ended without a message", ds, at, ref.allocs);
      case_seen(hash_bytes(&at, sizeof at, att_hash(&t)) + (uint64_t) more, 1);
    }
  }
  stat_add("refusals_checked", refused); stat_add("limit_cases_accepted", accepted); stat_add("allocation_faults", faults); stat_add("allocations_failed", *f_hits);
  return h_finish();
}

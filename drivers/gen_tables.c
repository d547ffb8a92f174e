/* C09/C10/C11 monitor: runs the real generator programs in scratch directories
 * (also with injected faults) and judges exit status, files and their contents. */
#include "h.h"
#include "shim.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <spawn.h>
#include <dirent.h>
#include <ctype.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
extern char **environ;
static rng_t R;
static uint32_t stride = 1;
static const char *gendir = ".", *scratch = ".", *preload = "", *shipped = ".", *srcdir = ".", *datadir = ".";
static char dir[600];
enum { G_STD, G_RED, G_BITREV };
static const char *gname[3] = { "make_tables", "make_red_tables", "make_bitrev_table" };

/* ---------- files ---------- */
static void clean_dir(void) {
  DIR *d = opendir(dir); struct dirent *e;
  if (!d) { perror(dir); exit(3); }
  while ((e = readdir(d))) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    char p[900]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
    struct stat st; if (lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) rmdir(p); else unlink(p);
  }
  closedir(d);
}
/* digest of the directory: names, kinds, sizes, contents, modification times */
static uint64_t dir_digest(int *count) {
  DIR *d = opendir(dir); struct dirent *e; uint64_t h = 0; *count = 0;
  if (!d) { perror(dir); exit(3); }
  while ((e = readdir(d))) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    char p[900]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
    struct stat st; if (lstat(p, &st) != 0) continue;
    uint64_t k = hash_bytes(e->d_name, strlen(e->d_name), 7);
    k = hash_bytes(&st.st_mode, sizeof st.st_mode, k); k = hash_bytes(&st.st_size, sizeof st.st_size, k);
    k = hash_bytes(&st.st_mtim, sizeof st.st_mtim, k); k = hash_bytes(&st.st_ino, sizeof st.st_ino, k);
    if (S_ISREG(st.st_mode)) { int f = open(p, O_RDONLY); char b[4096]; ssize_t r; while (f >= 0 && (r = read(f, b, sizeof b)) > 0) k = hash_bytes(b, (size_t) r, k); if (f >= 0) close(f); }
    h += k; ++*count;
  }
  closedir(d);
  return h;
}
static char *slurp(const char *path, size_t *len) {
  struct stat st; int f = open(path, O_RDONLY);
  if (f < 0) return NULL;
  if (fstat(f, &st) != 0 || !S_ISREG(st.st_mode)) { close(f); return NULL; }
  char *b = malloc((size_t) st.st_size + 1); size_t k = 0; ssize_t r;
  while (k < (size_t) st.st_size && (r = read(f, b + k, (size_t) st.st_size - k)) > 0) k += (size_t) r;
  close(f); b[k] = 0; if (len) *len = k;
  return b;
}
static char *slurp_in(const char *name, size_t *len) { char p[900]; snprintf(p, sizeof p, "%s/%s", dir, name); return slurp(p, len); }

/* ---------- running a generator ---------- */
typedef struct { long fsize; const char *fault; int drop; } fault_t; /* fsize<0: no limit */
/* returns exit status, or 256+signal, or -1 if it did not stop */
static int run_gen(int g, char *const args[], const fault_t *fl) {
  TICK();
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGPROF, SIG_DFL);
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 30; setrlimit(RLIMIT_CPU, &rl);
    if (chdir(dir) != 0) _exit(211);
    int z = open("/dev/null", O_RDWR); if (z >= 0) { dup2(z, 0); dup2(z, 1); dup2(z, 2); if (z > 2) close(z); }
    char exe[900]; snprintf(exe, sizeof exe, "%s/%s", gendir, gname[g]);
    if (fl) {
      if (fl->fsize >= 0) { signal(SIGXFSZ, SIG_IGN); rl.rlim_cur = rl.rlim_max = (rlim_t) fl->fsize; setrlimit(RLIMIT_FSIZE, &rl); }
      if (fl->fault) { setenv("LD_PRELOAD", preload, 1); setenv("GENFAULT", fl->fault, 1); }
      if (fl->drop && (setgid(65534) != 0 || setuid(65534) != 0)) _exit(212);
    }
    execv(exe, args);
    _exit(213);
  }
  int st;
  while (waitpid(p, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(3); }
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? -1 : 256 + WTERMSIG(st);
  int rc = WEXITSTATUS(st);
  if (rc == 211 || rc == 213) { fprintf(stderr, "cannot run generator %s in %s (%d)\n", gname[g], dir, rc); exit(3); }
  return rc;
}
static int gen2(int g, const char *n, const char *psi, const fault_t *fl) {
  char *av[] = { (char *) gname[g], (char *) n, g == G_BITREV ? NULL : (char *) psi, NULL };
  return run_gen(g, av, fl);
}
static void fname(char *b, int g, uint32_t n, char ext) {
  if (g == G_BITREV) sprintf(b, "bitrev%u_table.%c", n, ext); else sprintf(b, "ntt%s%u_tables.%c", g == G_RED ? "_red" : "", n, ext);
}

/* ---------- tolerant reader of the emitted sources ---------- */
static void strip_comments(char *s) {
  for (; *s; s++) {
    if (s[0] == '/' && s[1] == '*') { while (*s && !(s[0] == '*' && s[1] == '/')) *s++ = ' '; if (!*s) return; s[0] = s[1] = ' '; }
    else if (s[0] == '/' && s[1] == '/') while (*s && *s != '\n') *s++ = ' ';
    if (!*s) return;
  }
}
static char *find_ident(char *s, const char *id) {
  size_t l = strlen(id);
  for (char *p = s; (p = strstr(p, id)); p += l)
    if ((p == s || !(isalnum((unsigned char) p[-1]) || p[-1] == '_')) && !(isalnum((unsigned char) p[l]) || p[l] == '_')) return p;
  return NULL;
}
/* values in the initializer of array id; -1 if not found */
static long find_array(char *s, const char *id, int32_t *v, long max) {
  for (char *p = find_ident(s, id); p; p = find_ident(p + 1, id)) {
    char *e = p + strlen(id);
    while (*e && *e != '=' && *e != ';') e++;
    if (*e != '=') continue;
    e++; int depth = 0; long k = 0;
    for (;;) {
      while (isspace((unsigned char) *e) || *e == ',') e++;
      if (*e == '{') { depth++; e++; continue; }
      if (*e == '}') { e++; if (--depth <= 0) return k; continue; }
      char *q; long x = strtol(e, &q, 0);
      if (q == e) return -1;
      e = q; while (*e == 'u' || *e == 'U' || *e == 'l' || *e == 'L') e++;
      if (k < max) v[k] = (int32_t) x;
      k++;
    }
  }
  return -1;
}
static int find_scalar(char *s, const char *id, long *v) {
  for (char *p = find_ident(s, id); p; p = find_ident(p + 1, id)) {
    char *e = p + strlen(id); while (isspace((unsigned char) *e)) e++;
    if (*e == '=') e++; else if (!(isdigit((unsigned char) *e) || *e == '-')) continue; /* "id = v" or "#define id v" */
    char *q; *v = strtol(e, &q, 0);
    if (q != e) return 1;
  }
  return 0;
}

/* ---------- definitions ---------- */
typedef struct { const char *name; int kind; int required; } tdef_t; /* kind: see expect_table */
static const tdef_t T_STD[] = { {"psi_powers", 0, 1}, {"inv_psi_powers", 1, 1}, {"inv_psi_powers_rev", 2, 0}, {"scaled_inv_psi_powers", 3, 1},
  {"omega_powers", 4, 1}, {"omega_powers_rev", 5, 1}, {"inv_omega_powers", 6, 1}, {"inv_omega_powers_rev", 7, 1},
  {"mixed_powers", 8, 1}, {"mixed_powers_rev", 9, 1}, {"inv_mixed_powers", 10, 1}, {"inv_mixed_powers_rev", 11, 1}, {0} };
static const tdef_t T_RED[] = { {"psi_powers", 0, 1}, {"psi_powers_rev", 12, 0}, {"inv_psi_powers", 1, 1}, {"scaled_inv_psi_powers", 13, 1}, {"scaled_inv_psi_powers_var", 14, 1},
  {"omega_powers", 4, 1}, {"omega_powers_rev", 5, 1}, {"inv_omega_powers", 6, 1}, {"inv_omega_powers_rev", 7, 1},
  {"mixed_powers", 8, 1}, {"mixed_powers_rev", 9, 1}, {"inv_mixed_powers", 10, 1}, {"inv_mixed_powers_rev", 11, 1}, {0} };
static void expect_table(uint32_t *t, int red, uint32_t n, uint32_t psi, int kind) {
  uint32_t s = red ? 8193 : 1, ip = invq(psi), om = (uint32_t)((uint64_t) psi * psi % Q), io = invq(om), in = invq(n);
  switch (kind) {
  case 0: def_powers(t, n, s, psi); break;
  case 1: def_powers(t, n, s, ip); break;
  case 2: def_table(t, n, 1, ip, 1, s); break;
  case 3: def_powers(t, n, in, ip); break;
  case 4: case 5: def_table(t, n, 1, om, kind & 1, s); break;
  case 6: case 7: def_table(t, n, 1, io, kind & 1, s); break;
  case 8: case 9: def_table(t, n, psi, om, kind & 1, s); break;
  case 10: case 11: def_table(t, n, ip, io, kind & 1, s); break;
  case 12: def_table(t, n, 1, psi, 1, s); break;
  case 13: def_powers(t, n, (uint32_t)((uint64_t) powq(8193, 8) * in % Q), ip); break;
  case 14: def_powers(t, n, (uint32_t)((uint64_t) powq(8193, 6) * in % Q), ip); break;
  }
}
static const char *P_NAMES[] = { "psi", "omega", "inv_psi", "inv_omega", "inv_n", "inv_k", "rescale8", "rescale6" };
static int nparams(int red) { return red ? 8 : 5; }
static uint32_t expect_param(uint32_t n, uint32_t psi, int k) {
  uint32_t om = (uint32_t)((uint64_t) psi * psi % Q);
  switch (k) {
  case 0: return psi; case 1: return om; case 2: return invq(psi); case 3: return invq(om); case 4: return invq(n);
  case 5: return 8193; case 6: return (uint32_t)((uint64_t) powq(8193, 8) * invq(n) % Q); default: return (uint32_t)((uint64_t) powq(8193, 6) * invq(n) % Q);
  }
}
static uint64_t tables_ok, entries_ok, params_ok;

/* judge through the compiler: builds a shared object from the emitted sources and reads
 * every table and parameter through it. Returns 1 if all is as defined. */
static int compiled_ok(int red, uint32_t n, uint32_t psi, const char *base, char *why, size_t wl) {
  static int serial; char p[900], so[900], cmd[3000];
  const tdef_t *T = red ? T_RED : T_STD;
  snprintf(p, sizeof p, "%s/chk%d.c", dir, ++serial); snprintf(so, sizeof so, "%s/chk%d.so", dir, serial);
  FILE *f = fopen(p, "w");
  fprintf(f, "#include \"%s.c\"\n#include \"%s.h\"\n", base, base);
  for (const tdef_t *t = T; t->name; t++) if (t->required)
    fprintf(f, "long t_%s(unsigned i) { return ntt%s%u_%s[i]; }\nlong s_%s(void) { return sizeof(ntt%s%u_%s)/sizeof(ntt%s%u_%s[0]); }\n", t->name, red ? "_red" : "", n, t->name, t->name, red ? "_red" : "", n, t->name, red ? "_red" : "", n, t->name);
  for (int k = 0; k < nparams(red); k++) fprintf(f, "long p_%s(void) { return ntt%s%u_%s; }\n", P_NAMES[k], red ? "_red" : "", n, P_NAMES[k]);
  fclose(f);
  snprintf(cmd, sizeof cmd, "cd '%s' && gcc -std=c99 -w -O0 -shared -fPIC -o '%s' '%s' > '%s/cc.log' 2>&1", dir, so, p, dir);
  if (system(cmd) != 0) { char *l = slurp_in("cc.log", NULL); snprintf(why, wl, "the emitted sources do not compile: %.300s", l ? l : ""); free(l); return 0; }
  void *h = dlopen(so, RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
  int ok = 1; static uint32_t ex[2048];
  for (const tdef_t *t = T; t->name && ok; t++) if (t->required) {
    char nm[100]; snprintf(nm, 100, "t_%s", t->name); long (*get)(unsigned) = (long (*)(unsigned)) dlsym(h, nm);
    snprintf(nm, 100, "s_%s", t->name); long (*size)(void) = (long (*)(void)) dlsym(h, nm);
    expect_table(ex, red, n, psi, t->kind);
    if (size() != (long) n) { snprintf(why, wl, "table %s has %ld entries", t->name, size()); ok = 0; break; }
    for (uint32_t i = 0; i < n; i++) { long w = red ? shiftq(ex[i]) : (long) ex[i]; if (get(i) != w) { snprintf(why, wl, "table %s entry %u is %ld, expected %ld", t->name, i, get(i), w); ok = 0; break; } }
  }
  for (int k = 0; k < nparams(red) && ok; k++) {
    char nm[100]; snprintf(nm, 100, "p_%s", P_NAMES[k]); long (*get)(void) = (long (*)(void)) dlsym(h, nm);
    if (get() != (long) expect_param(n, psi, k)) { snprintf(why, wl, "parameter %s is %ld, expected %u", P_NAMES[k], get(), expect_param(n, psi, k)); ok = 0; }
  }
  dlclose(h); unlink(p); unlink(so);
  return ok;
}
/* quick reader over the text; 1 = everything as defined */
static int text_ok(int red, uint32_t n, uint32_t psi, char *c, char *h) {
  static int32_t v[2048]; static uint32_t ex[2048]; char id[120];
  strip_comments(c); strip_comments(h);
  for (const tdef_t *t = red ? T_RED : T_STD; t->name; t++) {
    snprintf(id, sizeof id, "ntt%s%u_%s", red ? "_red" : "", n, t->name);
    long k = find_array(c, id, v, 2048);
    if (k < 0 && !t->required) continue;
    if (k != (long) n) return 0;
    expect_table(ex, red, n, psi, t->kind);
    for (uint32_t i = 0; i < n; i++) if (v[i] != (red ? shiftq(ex[i]) : (int32_t) ex[i])) return 0;
    tables_ok++; entries_ok += n;
  }
  for (int k = 0; k < nparams(red); k++) {
    long x; snprintf(id, sizeof id, "ntt%s%u_%s", red ? "_red" : "", n, P_NAMES[k]);
    if (!find_scalar(h, id, &x) || x != (long) expect_param(n, psi, k)) return 0;
    params_ok++;
  }
  return 1;
}

static void do_tables(void) {
  static uint32_t ps[2048]; uint64_t cs = 0, runs = 0, comp = 0;
  uint64_t idx = 0;
  for (uint32_t n = 2; n <= 2048; n <<= 1) {
    uint32_t m = psi_roots(n, ps);
    uint32_t pick = rng_below(&R, m);
    for (uint32_t k = 0; k < m; k++) for (int g = 0; g < 2; g++) {
      if ((int)(idx++ % (uint64_t) H_nshards) != H_shard) continue;
      if (stride > 1 && k != pick && k % stride) continue;
      char a1[20], a2[20], fc[60], fh[60], base[60], why[600] = "";
      sprintf(a1, "%u", n); sprintf(a2, "%u", ps[k]);
      OP("%s %s %s", gname[g], a1, a2);
      int rc = gen2(g, a1, a2, NULL); runs++; cs++;
      case_seen(hash_bytes(H_op, strlen(H_op), 3), 1);
      if (rc != 0) { viol("generator fails on valid parameters", "%s %u %u: status %d", gname[g], n, ps[k], rc); continue; }
      fname(fc, g, n, 'c'); fname(fh, g, n, 'h'); snprintf(base, sizeof base, "%.*s", (int) strlen(fc) - 2, fc);
      char *c = slurp_in(fc, NULL), *h = slurp_in(fh, NULL);
      if (!c || !h) { viol("generator reports success without its files", "%s %u %u", gname[g], n, ps[k]); free(c); free(h); continue; }
      int ok = text_ok(g == G_RED, n, ps[k], c, h);
      if (!ok || k / (uint32_t) H_nshards == pick / (uint32_t) H_nshards) {
        comp++;
        if (!compiled_ok(g == G_RED, n, ps[k], base, why, sizeof why)) viol("generated tables wrong", "%s %u %u: %s", gname[g], n, ps[k], why);
      }
      free(c); free(h); clean_dir();
      if (cs == 1 || cs == 300) sample("%s %u %u: %s tables and parameters all as defined", gname[g], n, ps[k], g ? "13" : "12");
    }
  }
  stat_add(stride > 1 ? "generator_runs_under_sanitizers" : "generator_runs", runs); stat_add("tables_read", tables_ok); stat_add("entries_read", entries_ok); stat_add("parameters_read", params_ok); stat_add("outputs_compiled_and_read_back", comp);
  if (H_shard == 0) {
    /* shipped: ntt32 tables */
    char p[900], why[600] = ""; size_t l;
    const char *sf[2] = { "ntt32_tables.c", "ntt32_tables.h" };
    int have = 1;
    for (int i = 0; i < 2; i++) { snprintf(p, sizeof p, "%s/%s", srcdir, sf[i]); char *t = slurp(p, &l); if (!t) { have = 0; continue; } snprintf(p, sizeof p, "%s/%s", dir, sf[i]); FILE *f = fopen(p, "w"); fwrite(t, 1, l, f); fclose(f); free(t); }
    if (!have) { fprintf(stderr, "shipped ntt32 tables not found\n"); exit(3); }
    OP("shipped ntt32 tables");
    if (!compiled_ok(0, 32, 563, "ntt32_tables", why, sizeof why)) viol("shipped tables wrong", "ntt32_tables: %s", why);
    stat_add("shipped_tables_checked", 11); case_exhaustive(1);
    clean_dir();
    /* shipped: lists of roots; complete, no repetition, nothing else */
    for (uint32_t n = 1024; n <= 4096; n *= 2) {
      snprintf(p, sizeof p, "%s/primitive-roots-%u.txt", datadir, n);
      char *t = slurp(p, &l); if (!t) { fprintf(stderr, "%s not found\n", p); exit(3); }
      static uint8_t seen[Q]; memset(seen, 0, sizeof seen); uint32_t cnt = 0;
      OP("list %s", p);
      for (char *s = strtok(t, "\n"); s; s = strtok(NULL, "\n")) {
        while (isspace((unsigned char) *s)) s++;
        if (*s == '#' || !*s) continue;
        char *e; 
        for (;;) { long x = strtol(s, &e, 10); if (e == s) break; s = e; while (*s == ',' || isspace((unsigned char) *s)) s++;
          if (x < 1 || x >= Q || powq((uint32_t) x, n) != 1 || powq((uint32_t) x, n / 2) != Q - 1) viol("root list wrong", "%u-th roots: %ld is not a primitive root", n, x);
          else if (seen[x]) viol("root list wrong", "%u-th roots: %ld listed twice", n, x);
          else { seen[x] = 1; cnt++; } }
        if (*s && *s != '#') viol("root list wrong", "%u-th roots: unreadable text '%.20s'", n, s);
      }
      if (cnt != n / 2) viol("root list wrong", "%u-th roots: %u listed, %u exist", n, cnt, n / 2);
      stat_add("listed_roots_checked", cnt); case_exhaustive(cnt);
      free(t);
    }
  }
}

/* ---------- C10: rejection ---------- */
static uint64_t rejects;
static void must_reject(int g, char *const av[], const char *desc, const char *pre[], int npre) {
  int c0, c1;
  clean_dir();
  for (int i = 0; i < npre; i++) { char p[900]; snprintf(p, sizeof p, "%s/%s", dir, pre[i]); FILE *f = fopen(p, "w"); fprintf(f, "/* precious %s */\n", pre[i]); fclose(f); struct timespec ts[2] = { { 1000000000, 5 }, { 1000000000, 5 } }; utimensat(AT_FDCWD, p, ts, 0); }
  uint64_t d0 = dir_digest(&c0);
  OP("%s %s", gname[g], desc);
  int rc = run_gen(g, av, NULL);
  uint64_t d1 = dir_digest(&c1);
  if (rc == 0) viol("bad parameters accepted", "%s %s: exit status 0", gname[g], desc);
  else if (rc == -1) viol("generator does not stop on bad parameters", "%s %s", gname[g], desc);
  if (c0 != c1 || d0 != d1) viol("files touched although parameters are bad", "%s %s: %d entries before, %d after%s", gname[g], desc, c0, c1, c0 == c1 ? ", contents altered" : "");
  rejects++;
  case_seen(hash_bytes(desc, strlen(desc), (uint64_t) g + 11), 1);
}
static void reject2(int g, const char *n, const char *psi, uint32_t nn) {
  char d[120], f1[60], f2[60]; snprintf(d, sizeof d, "'%s' '%s'", n, psi);
  fname(f1, g, nn, 'c'); fname(f2, g, nn, 'h');
  const char *pre[] = { f1, f2 };
  char *av[] = { (char *) gname[g], (char *) n, (char *) psi, NULL };
  must_reject(g, av, d, pre, rng_below(&R, 3) ? 2 : 0);
}
static void reject1(const char *n, uint32_t nn) {
  char d[120], f1[60], f2[60]; snprintf(d, sizeof d, "'%s'", n);
  fname(f1, G_BITREV, nn, 'c'); fname(f2, G_BITREV, nn, 'h');
  const char *pre[] = { f1, f2 };
  char *av[] = { (char *) gname[G_BITREV], (char *) n, NULL };
  must_reject(G_BITREV, av, d, pre, rng_below(&R, 3) ? 2 : 0);
}
static void do_bad(void) {
  static const long sizes[] = { -9223372036854775807L, -4294967280L, -65536, -1024, -16, -2, -1, 0, 1, 3, 5, 6, 7, 9, 12, 15, 17, 24, 31, 33, 48, 63, 96, 100, 127, 129, 255, 257, 384, 511, 513, 768, 1000, 1023, 1025, 1536, 2000, 2047, 2049,
    3072, 4096, 4097, 8192, 16384, 32768, 32769, 49152, 65535, 65536, 65537, 98304, 99999, 100000, 131072, 262144, 1048576, 2147483648L, 2147483664L, 4294967296L, 4294967298L, 4294967312L, 4294968320L, 8589934592L + 1024, 1099511627776L, 4611686018427387904L, 9223372036854775807L };
  static const char *junk[] = { "", "x", "abc", "-", "+", "n=16", "0x10", "99999999999999999999999", "-99999999999999999999999", " ", "\t", ".16", "(16)" };
  static uint32_t ps[2048]; char a1[40], a2[40];
  uint64_t idx = 0;
#define MINE ((int)(idx++ % (uint64_t) H_nshards) == H_shard)
  /* sizes no psi can fit; sizes <= 2048 that are not powers of two */
  for (size_t i = 0; i < sizeof sizes / sizeof *sizes; i++) {
    snprintf(a1, sizeof a1, "%ld", sizes[i]);
    for (int g = 0; g < 2; g++) {
      uint32_t lo = sizes[i] > 0 ? (uint32_t) sizes[i] : 16;
      static const int32_t psis[] = { 1212, 1002, 1003, 1014, 2, 12288, 5736, 1479, 7, 41, 49, 563, 3 };
      for (size_t j = 0; j < sizeof psis / sizeof *psis; j++) if (MINE) { snprintf(a2, sizeof a2, "%d", psis[j]); reject2(g, a1, a2, lo); }
      /* a psi that satisfies psi^n = -1 if n is read modulo 2^32 or 2^16, or rounded to a power of two */
      uint32_t m = psi_roots((uint32_t) 1 << (1 + rng_below(&R, 11)), ps);
      if (MINE) { snprintf(a2, sizeof a2, "%u", ps[rng_below(&R, m)]); reject2(g, a1, a2, lo); }
    }
    int bit_ok = sizes[i] >= 2 && sizes[i] <= 32768 && !(sizes[i] & (sizes[i] - 1));
    if (!bit_ok && MINE) reject1(a1, sizes[i] > 0 ? (uint32_t) sizes[i] : 16);
  }
  /* every size up to 2100 (thorough: 70000) that is not a power of two, with a psi for which psi^n = -1 when one exists */
  uint32_t top = H_thorough ? 70000 : 2100;
  for (uint32_t n = 3; n <= top; n++) if (n & (n - 1)) {
    if (!MINE) continue;
    uint32_t psi = 12288; /* (-1)^n = -1 for odd n */
    if (!(n & 1)) for (psi = 2 + rng_below(&R, 1000); psi < Q && powq(psi, n) != Q - 1; psi++) ;
    if (psi >= Q) psi = 2 + rng_below(&R, Q - 2);
    snprintf(a1, sizeof a1, "%u", n); snprintf(a2, sizeof a2, "%u", psi);
    int g = (int)(n / 2 & 1);
    if (H_thorough || n < 200) { reject2(G_STD, a1, a2, n); reject2(G_RED, a1, a2, n); } else reject2(g, a1, a2, n);
    reject1(a1, n);
  }
  /* psi values: for every size, non-roots from the whole residue range */
  for (uint32_t n = 2; n <= 2048; n <<= 1) {
    snprintf(a1, sizeof a1, "%u", n);
    uint32_t step = H_thorough ? 1 : 13;
    for (uint32_t psi = rng_below(&R, step); psi < Q; psi += step) {
      if (powq(psi, n) == Q - 1) continue;
      for (int g = 0; g < 2; g++) if (MINE) { snprintf(a2, sizeof a2, "%u", psi); reject2(g, a1, a2, n); }
    }
    uint32_t m = psi_roots(n, ps);
    /* roots of the neighbouring sizes and of unity; representatives out of range */
    for (int k = 0; k < (H_thorough ? 60 : 12); k++) {
      uint32_t r = ps[rng_below(&R, m)];
      long cand[] = { (long) r - Q, (long) r + Q, (long) r + 4294967296L, (long) r - 4294967296L, (long) r + 65536, (long) r + 12289L * 65536, -(long) r, (long) r + 12289L * 4294967296L,
        (long) ((uint64_t) r * r % Q), (long) ((uint64_t) r * r % Q * r % Q * r % Q), 0, 1, -1, Q, Q + 1, 12288, -12288, 2147483647L, 2147483648L, 4294967295L, 9223372036854775807L };
      for (size_t j = 0; j < sizeof cand / sizeof *cand; j++) {
        if (cand[j] > 1 && cand[j] < Q && powq((uint32_t) cand[j], n) == Q - 1) continue;
        for (int g = 0; g < 2; g++) if (MINE && (H_thorough || k < 2 || rng_below(&R, 4) == 0)) { snprintf(a2, sizeof a2, "%ld", cand[j]); reject2(g, a1, a2, n); }
      }
      for (size_t j = 0; j < sizeof junk / sizeof *junk && k == 0; j++) for (int g = 0; g < 2; g++) if (MINE) reject2(g, a1, junk[j], n);
    }
    /* wrong number of arguments, the supplied ones being valid */
    snprintf(a2, sizeof a2, "%u", ps[rng_below(&R, m)]);
    for (int g = 0; g < 3; g++) for (int na = 0; na < 6; na++) {
      if (na == (g == G_BITREV ? 1 : 2) || !MINE) continue;
      char *av[8] = { (char *) gname[g] }, f1[60], f2[60], d[100];
      for (int i = 1; i <= na; i++) av[i] = i & 1 ? a1 : a2;
      av[na + 1] = NULL;
      fname(f1, g, n, 'c'); fname(f2, g, n, 'h'); const char *pre[] = { f1, f2 };
      snprintf(d, sizeof d, "with %d arguments, n=%u psi=%s", na, n, a2);
      must_reject(g, av, d, pre, (int) rng_below(&R, 2) * 2);
      stat_add("wrong_argument_counts", 1);
    }
  }
  for (size_t j = 0; j < sizeof junk / sizeof *junk; j++) { if (MINE) reject1(junk[j], 16); for (int g = 0; g < 2; g++) if (MINE) reject2(g, junk[j], "1212", 16); }
  stat_add("rejections_checked", rejects);
  sample("e.g. %s: rejected, directory digest unchanged", H_op);
  clean_dir();
}

/* ---------- C10: faults ---------- */
typedef struct { char *c, *h; size_t cl, hl; } gold_t;
static void put(const char *name, const char *text) { char p[900]; snprintf(p, sizeof p, "%s/%s", dir, name); FILE *f = fopen(p, "w"); fputs(text, f); fclose(f); }
static uint64_t f_fail, f_succ;
static void judge_fault(int g, uint32_t n, int rc, const gold_t *go, const char *desc) {
  char fc[60], fh[60]; fname(fc, g, n, 'c'); fname(fh, g, n, 'h');
  if (rc == -1) viol("generator does not stop after a fault", "%s", desc);
  if (rc == 0) {
    size_t cl = 0, hl = 0; char *c = slurp_in(fc, &cl), *h = slurp_in(fh, &hl);
    if (!c || !h || cl != go->cl || hl != go->hl || memcmp(c, go->c, cl) || memcmp(h, go->h, hl))
      viol("success reported but output incomplete", "%s: exit status 0, %s is %ld of %zu bytes, %s is %ld of %zu bytes%s", desc, fh, h ? (long) hl : -1, go->hl, fc, c ? (long) cl : -1, go->cl, c && h && cl == go->cl && hl == go->hl ? ", contents differ" : "");
    free(c); free(h); f_succ++;
  } else f_fail++;
  case_seen(hash_bytes(desc, strlen(desc), 5), 1);
}
static void do_fault(void) {
  static uint32_t ps[2048]; uint64_t idx = 0; char a1[20], a2[20], fc[60], fh[60], desc[300];
  for (int g = 0; g < 3; g++) for (uint32_t n = 2; n <= (g == G_BITREV ? 32768u : 2048u); n <<= 1) {
    uint32_t m = n <= 2048 ? psi_roots(n, ps) : 1, psi = ps[rng_below(&R, m)];
    sprintf(a1, "%u", n); sprintf(a2, "%u", psi); fname(fc, g, n, 'c'); fname(fh, g, n, 'h');
    clean_dir(); OP("%s %s %s", gname[g], a1, a2);
    if (gen2(g, a1, a2, NULL) != 0) { viol("generator fails on valid parameters", "%s %s %s", gname[g], a1, a2); continue; }
    gold_t go; go.c = slurp_in(fc, &go.cl); go.h = slurp_in(fh, &go.hl);
    if (!go.c || !go.h) { viol("success reported but output incomplete", "%s %s %s: file missing", gname[g], a1, a2); continue; }
    /* limit on file size at offset L: every write beyond L fails */
    uint32_t np = H_thorough ? 2500 : 250;
    size_t big = go.cl > go.hl ? go.cl : go.hl;
    for (uint32_t i = 0; i < np + 16; i++) {
      size_t L;
      if (i < 8) L = (size_t[]) { 0, 1, go.hl - 1, go.hl, go.cl - 1, go.cl, go.hl + 1, go.cl + 1 }[i];
      else if (i < 16) L = (size_t[]) { 4096, 4095, 4097, 8192, 512, go.hl / 2, go.cl / 2, go.cl > 4096 ? go.cl / 4096 * 4096 : 7 }[i - 8];
      else if (i & 1) L = (size_t) rng_below(&R, (uint32_t) big + 2);
      else L = (size_t) rng_below(&R, (uint32_t) go.hl + 2);
      int stale = (int) rng_below(&R, 3);
      if (!MINE) continue;
      clean_dir(); if (stale == 1) { put(fc, "/* stale */\n"); put(fh, "/* stale */\n"); }
      if (stale == 2) { char *big_ = malloc(big + 500); memset(big_, '\n', big + 400); big_[big + 400] = 0; put(fc, big_); put(fh, big_); free(big_); }
      snprintf(desc, sizeof desc, "%s %s %s with files limited to %zu bytes", gname[g], a1, a2, L); OP("%s", desc);
      fault_t fl = { (long) L, NULL, 0 };
      judge_fault(g, n, gen2(g, a1, a2, &fl), &go, desc);
      stat_add("faults_file_size_limit", 1);
    }
    /* stream faults: see genfault.c */
    static const char *modes[] = { "open:1", "open:2", "close:1", "close:2", "closelose:1", "closelose:2", "malloc:1", "malloc:2", "malloc:3", "malloc:4", "malloc:5", "malloc:6", "malloc:7", "malloc:8" };
    uint32_t nm = sizeof modes / sizeof *modes, nw = H_thorough ? 400 : 100;
    for (uint32_t i = 0; i < nm + nw; i++) {
      char fb[60];
      if (i < nm) snprintf(fb, sizeof fb, "%s", modes[i]);
      else { static const char *wk[] = { "once", "ever", "short" }; uint32_t fileno = 1 + (i & 1); size_t lim = fileno == 1 ? go.hl : go.cl;
        uint32_t maxc = (uint32_t)(lim / 1024) + 3;
        snprintf(fb, sizeof fb, "write%s:%u:%u", wk[rng_below(&R, 3)], fileno, 1 + ((i - nm) < 12 ? (i - nm) / 2 : rng_below(&R, maxc))); }
      if (!MINE) continue;
      clean_dir(); snprintf(desc, sizeof desc, "%s %s %s with fault %s", gname[g], a1, a2, fb); OP("%s", desc);
      fault_t fl = { -1, fb, 0 };
      judge_fault(g, n, gen2(g, a1, a2, &fl), &go, desc);
      stat_add("faults_injected_in_library_calls", 1);
    }
    /* files that cannot be opened or written */
    for (int k = 0; k < 6; k++) {
      if (!MINE) continue;
      clean_dir(); const char *f = k & 1 ? fh : fc; char p[900]; snprintf(p, sizeof p, "%s/%s", dir, f);
      int ok = 1; fault_t fl = { -1, NULL, 0 };
      if (k < 2) ok = mkdir(p, 0755) == 0;
      else if (k < 4) ok = access("/dev/full", W_OK) == 0 && symlink("/dev/full", p) == 0;
      else if (k == 4) ok = symlink("/nonexistent-dir/x", p) == 0;
      else { ok = getuid() == 0 && chmod(dir, 0555) == 0; fl.drop = 1; }
      if (!ok) continue;
      snprintf(desc, sizeof desc, "%s %s %s with unusable output (%d)", gname[g], a1, a2, k); OP("%s", desc);
      int rc = gen2(g, a1, a2, &fl);
      chmod(dir, 0755);
      if (rc == 212) continue;
      judge_fault(g, n, rc, &go, desc);
      stat_add("faults_unusable_files", 1);
    }
    clean_dir();
    free(go.c); free(go.h);
  }
  stat_add("faulted_runs_reporting_failure", f_fail); stat_add("faulted_runs_reporting_success", f_succ);
  sample("last: %s", H_op);
}

/* ---------- C11 ---------- */
static int32_t *A, *Bf; static uint16_t (*TB)[2]; static int32_t *vals;
static void fill(int32_t *a, uint32_t n, int k) {
  for (uint32_t i = 0; i < n; i++) a[i] = k == 0 ? (int32_t) i : k == 1 ? (int32_t) rng_u64(&R) : k == 2 ? ((rng_u64(&R) & 1) ? INT32_MIN : INT32_MAX) : (int32_t)(n - i) * -1;
}
static void check_shuffle(const char *what, const int32_t *in, const int32_t *out, uint32_t n) {
  uint32_t l = lg2(n);
  for (uint32_t i = 0; i < n; i++) if (out[brev(i, l)] != in[i]) { viol("shuffle is not the bit-reversal permutation", "%s n=%u: element %u (value %d) not at index %u", what, n, i, in[i], brev(i, l)); return; }
}
static void check_pairs(const char *what, uint32_t n, long declared, const int32_t *v, long k) {
  uint32_t l = lg2(n), want = 0; static uint8_t seen[65536]; memset(seen, 0, sizeof seen);
  for (uint32_t i = 0; i < n; i++) want += i < brev(i, l);
  if (declared != (long) want) viol("declared number of pairs wrong", "%s n=%u: declares %ld, there are %u", what, n, declared, want);
  if (k != 2 * (long) want) { viol("bit-reversal table wrong", "%s n=%u: %ld values for %u pairs", what, n, k, want); return; }
  for (long i = 0; i < k; i += 2) {
    int32_t a = v[i], b = v[i + 1];
    if (a < 0 || (uint32_t) a >= n || b <= a || (uint32_t) b != brev((uint32_t) a, l) || seen[a]) { viol("bit-reversal table wrong", "%s n=%u: pair %ld is {%d,%d}", what, n, i / 2, a, b); return; }
    seen[a] = 1;
  }
  stat_add("pairs_checked", want); case_exhaustive(want + 1);
}
static void table_shuffles(const char *what, const impl_t *im, uint32_t n, const int32_t *v, long k) {
  for (long i = 0; i < k; i++) TB[i / 2][i & 1] = (uint16_t) v[i];
  for (int j = 0; j < 4; j++) {
    char w[100]; snprintf(w, sizeof w, "%s/shuffle_with_table using %s", im->impl, what); OP("%s n=%u", w, n);
    fill(A, n, j); memcpy(Bf, A, 4 * n);
    im->shuffle(Bf, (const uint16_t (*)[2]) TB, (uint32_t) (k / 2));
    check_shuffle(w, A, Bf, n); case_seen(hash_bytes(A, 4 * n, hash_bytes(w, strlen(w), n)), n > 2);
    im->shuffle(Bf, (const uint16_t (*)[2]) TB, (uint32_t) (k / 2));
    if (memcmp(A, Bf, 4 * n)) viol("shuffle twice is not the identity", "%s n=%u", w, n);
    stat_add("table_shuffles", 2);
  }
}
/* read a bit-reversal table through the compiler (any layout of the source) */
static long compiled_pairs(const char *base, const char *arr, const char *cnt, int32_t *v, long max, long *declared, char *why, size_t wl) {
  static int serial; char p[900], so[900], cmd[3000];
  snprintf(p, sizeof p, "%s/bchk%d.c", dir, ++serial); snprintf(so, sizeof so, "%s/bchk%d.so", dir, serial);
  FILE *f = fopen(p, "w");
  fprintf(f, "#include \"%s.c\"\n#include \"%s.h\"\nlong size(void) { return sizeof(%s)/sizeof(%s[0][0]); }\nlong declared(void) { return %s; }\nlong get(long i) { return %s[i/2][i&1]; }\n", base, base, arr, arr, cnt, arr);
  fclose(f);
  snprintf(cmd, sizeof cmd, "cd '%s' && gcc -std=gnu99 -w -O0 -shared -fPIC -o '%s' '%s' > '%s/cc.log' 2>&1", dir, so, p, dir);
  if (system(cmd) != 0) { char *l = slurp_in("cc.log", NULL); snprintf(why, wl, "does not compile: %.300s", l ? l : ""); free(l); return -1; }
  void *h = dlopen(so, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
  long k = ((long (*)(void)) dlsym(h, "size"))(); long (*get)(long) = (long (*)(long)) dlsym(h, "get");
  *declared = ((long (*)(void)) dlsym(h, "declared"))();
  for (long i = 0; i < k && i < max; i++) v[i] = (int32_t) get(i);
  dlclose(h); unlink(p); unlink(so);
  return k;
}
static void one_table(const char *what, const char *base, const char *arr, const char *cnt, uint32_t n) {
  long dec = -1; char why[600] = ""; OP("%s", what);
  long k = compiled_pairs(base, arr, cnt, vals, 70000, &dec, why, sizeof why);
  if (k < 0) { viol("bit-reversal table does not compile", "%s: %s", what, why); return; }
  check_pairs(what, n, dec, vals, k);
  uint32_t want = 0; for (uint32_t i = 0; i < n; i++) want += i < brev(i, lg2(n));
  if (k <= 2 * (long) want) { table_shuffles(what, &impl_std, n, vals, k); table_shuffles(what, &impl_naive, n, vals, k); }
  if (k > 0) stat_add("tables_checked", 1);
}
static void copy_in(const char *from, const char *name) {
  char p[900]; size_t l; snprintf(p, sizeof p, "%s/%s", from, name); char *t = slurp(p, &l);
  if (!t) { fprintf(stderr, "%s not found\n", p); exit(3); }
  snprintf(p, sizeof p, "%s/%s", dir, name); FILE *f = fopen(p, "w"); fwrite(t, 1, l, f); fclose(f); free(t);
}
static void do_bitrev(void) {
  uint64_t idx = 0; char a1[20], what[80], base[40], arr[40], cnt[40];
  uint32_t top = H_thorough ? 1u << 26 : 1u << 24;
  A = malloc(4 * (size_t) top + 64); Bf = malloc(4 * (size_t) top + 64); TB = malloc(70000 * 4); vals = malloc(70000 * 4);
  const impl_t *im[2] = { &impl_std, &impl_naive };
  for (uint32_t n = 2; n <= 32768; n <<= 1) if (MINE) {
    clean_dir(); sprintf(a1, "%u", n); sprintf(what, "make_bitrev_table %u", n); OP("%s", what);
    int rc = gen2(G_BITREV, a1, NULL, NULL); stat_add("generator_runs", 1);
    if (rc != 0) { viol("generator fails on valid parameters", "%s: status %d", what, rc); continue; }
    sprintf(base, "bitrev%u_table", n); sprintf(arr, "bitrev%u", n); sprintf(cnt, "BITREV%u_NPAIRS", n);
    one_table(what, base, arr, cnt, n);
  }
  static const uint32_t sz[] = { 16, 256, 512, 1024 };
  for (int i = 0; i < 4; i++) if (MINE) {
    clean_dir(); sprintf(base, "bitrev%u_table", sz[i]); sprintf(arr, "bitrev%u", sz[i]); sprintf(cnt, "BITREV%u_NPAIRS", sz[i]);
    char f[60]; sprintf(f, "%s.c", base); copy_in(shipped, f); sprintf(f, "%s.h", base); copy_in(shipped, f);
    sprintf(what, "shipped %s", base); one_table(what, base, arr, cnt, sz[i]); stat_add("shipped_tables", 1);
  }
  if (MINE) { clean_dir(); copy_in(srcdir, "ntt32_tables.c"); copy_in(srcdir, "ntt32_tables.h"); one_table("shipped ntt32_bitrev", "ntt32_tables", "ntt32_bitrev", "BITREV32_NPAIRS", 32); stat_add("shipped_tables", 1); }
  clean_dir();
  for (int k = 0; k < 2; k++) for (uint32_t n = 1; n <= top; n <<= 1) if (MINE) {
    int reps = n <= 4096 ? (H_thorough ? 4000 : 400) : n <= 65536 ? 40 : n <= 1u << 20 ? 4 : 1;
    for (int j = 0; j < reps; j++) {
      char w[60]; snprintf(w, sizeof w, "%s/bitrev_shuffle", im[k]->impl); OP("%s n=%u", w, n);
      fill(A, n, j & 3); memcpy(Bf, A, 4 * (size_t) n); A[n] = Bf[n] = 0x5A5A5A5A;
      im[k]->bitrev(Bf, n);
      if (Bf[n] != 0x5A5A5A5A) viol("shuffle writes beyond the array", "%s n=%u", w, n);
      check_shuffle(w, A, Bf, n); case_seen(hash_bytes(A, 4 * (size_t) n, (uint64_t) k * 77 + n), n > 2);
      im[k]->bitrev(Bf, n);
      if (memcmp(A, Bf, 4 * (size_t) n)) viol("shuffle twice is not the identity", "%s n=%u", w, n);
      stat_add("generic_shuffles", 2); stat_max("largest_length", n);
    }
  }
  sample("last: %s, all indices compared with the reversed ones", H_op);
}

int main(int argc, char **argv) {
  h_init(argc, argv); rng_seed_global(&R, 0x6e);
  for (int i = 1; i + 1 < argc; i++) {
    if (!strcmp(argv[i], "--stride")) stride = (uint32_t) atoi(argv[i + 1]);
    if (!strcmp(argv[i], "--gendir")) gendir = argv[i + 1]; else if (!strcmp(argv[i], "--scratch")) scratch = argv[i + 1];
    else if (!strcmp(argv[i], "--preload")) preload = argv[i + 1]; else if (!strcmp(argv[i], "--shipped")) shipped = argv[i + 1];
    else if (!strcmp(argv[i], "--srcdir")) srcdir = argv[i + 1]; else if (!strcmp(argv[i], "--datadir")) datadir = argv[i + 1];
  }
  snprintf(dir, sizeof dir, "%s/%s%d", scratch, H_mode, H_shard);
  mkdir(dir, 0755);
  h_watch("gen");
  if (!strcmp(H_mode, "tables")) do_tables();
  else if (!strcmp(H_mode, "bad")) do_bad();
  else if (!strcmp(H_mode, "fault")) do_fault();
  else if (!strcmp(H_mode, "bitrev")) do_bitrev();
  else return 3;
  clean_dir(); rmdir(dir);
  return h_finish();
}

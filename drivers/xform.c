/* C02/C03 monitor: every generic transform against the NTT it documents. */
#include "xf.h"

static rng_t R;
static root_t rt;
static uint8_t area[4 * 2048 + 64], parea[2 * 2048 + 64];
static uint64_t calls[4], entries;
static impl_t impls[4]; static int nimpl;

/* tables per kind: 8 combinations of (mixed, rev), POW */
static uint16_t tabs[2][5][2048]; /* [scaled][kind index] */
static int kidx(int kind) { return (kind & K_POW) ? 4 : ((kind & (K_PRE | K_POST)) ? 2 : 0) | ((kind & K_TREV) ? 1 : 0); }
static void build_tables(int red) {
  static const int ks[5] = { 0, K_TREV, K_PRE, K_PRE | K_TREV, K_POW };
  uint32_t t[2048];
  for (int i = 0; i < 5; i++) {
    kind_table(t, &rt, ks[i], red ? 8193 : 1);
    for (uint32_t j = 0; j < rt.n; j++) tabs[red][i][j] = red ? (uint16_t)(int16_t) shiftq(t[j]) : (uint16_t) t[j];
  }
}

static void run_vec(const int32_t *v, const char *what) {
  uint32_t n = rt.n, vm[2048], ex[3][2048];
  for (uint32_t i = 0; i < n; i++) vm[i] = (uint32_t) modq64(v[i]);
  expect_std(ex[0], vm, &rt, 0, 0);
  expect_std(ex[1], vm, &rt, 1, 0);
  for (uint32_t k = 0; k < n; k++) ex[2][k] = (uint32_t)((uint64_t) ex[0][k] * rt.pw[k] % Q);
  { uint32_t k = rng_below(&R, n); int m = (int) rng_below(&R, 3); /* re-derive one output from the definition */
    if (expect_at(vm, &rt, m == 1, m == 2, k) != ex[m][k]) { fprintf(stderr, "oracle disagreement\n"); exit(3); } }
  for (int im = 0; im < nimpl; im++) {
    int red = impls[im].impl[0] == 'r' || impls[im].impl[0] == 'a', naive = impls[im].impl[0] == 'n', as = impls[im].impl[0] == 'a';
    if (as && n < 16) continue;
    for (const xf_t *x = impls[im].xfs; x->name; x++) {
      uint64_t z = rng_u64(&R);
      int32_t *a = (int32_t *)(area + 4 * (z & 7));
      uint16_t *p = (uint16_t *)(parea + 2 * ((z >> 3) & 15));
      if (x->kind & K_REVIN) for (uint32_t i = 0; i < n; i++) a[i] = v[rt.rev[i]];
      else memcpy(a, v, 4 * n);
      memcpy(p, tabs[red][kidx(x->kind)], 2 * n);
      if (!(x->kind & K_POW) && (z & 128)) p[0] = red ? (uint16_t)(int16_t) rng_range(&R, -6144, 6144) : (uint16_t) rng_below(&R, Q); /* documented as unused */
      OP("%s n=%u psi=%u %s", x->name, n, rt.psi, what);
      x->f(a, n, p);
      const uint32_t *e = ex[(x->kind & K_PRE) ? 1 : (x->kind & K_POST) ? 2 : 0];
      for (uint32_t i = 0; i < n; i++) {
        uint32_t want = (x->kind & K_REVIN) ? e[i] : e[rt.rev[i]];
        int32_t g = a[i];
        bool ok = red ? (uint32_t) modq64(g) == want : naive ? (g > -Q && g < Q && (uint32_t) modq64(g) == want) : g == (int32_t) want;
        if (!ok) {
          viol(x->name, "n=%u psi=%u output position %u: got %d, NTT value %u mod Q; input class %s v[0..3]=%d,%d,%d,%d seed=%llu shard=%d", n, rt.psi, i, g, want, what,
               v[0], v[1], n > 2 ? v[2] : 0, n > 2 ? v[3] : 0, (unsigned long long) H_seed, H_shard);
          break;
        }
        if (red) { if (g < 0) stat_min("min_output_red", g); }
      }
      if (red) for (uint32_t i = 0; i < n; i += 17) { stat_max("max_output_red", a[i]); }
      calls[im]++; entries += n;
    }
  }
  int nz = 0; for (uint32_t i = 0; i < n; i++) nz |= v[i] != 0;
  case_seen(hash_bytes(v, 4 * n, n * 65536ull + rt.psi), nz);
}

int main(int argc, char **argv) {
  h_init(argc, argv); int red = !strcmp(H_mode, "red");
  h_watch(red ? "C03" : "C02");
  rng_seed(&R, 2 + red);
  if (red) { impls[0] = impl_red; impls[1] = impl_asm_full(); } else { impls[0] = impl_std; impls[1] = impl_naive; }
  nimpl = 2;
  int32_t lo = red ? -21499 : 0, hi = red ? 21499 : Q - 1;
  static int32_t v[2048]; char what[64];
  static uint32_t roots[2048];
  uint64_t pairs = 0, unit = 0;
  for (uint32_t n = 2; n <= 2048; n <<= 1) {
    uint32_t nr = psi_roots(n, roots);
    if (nr != n) { fprintf(stderr, "root count\n"); return 3; }
    uint32_t reps = n <= 16 ? 6000 / n : n <= 128 ? 3200 / n : n <= 512 ? 14 : 9;
    reps *= H_thorough ? 48 : 6;
    for (uint32_t ri = (uint32_t) H_shard; ri < nr + (n < (uint32_t) H_nshards ? H_nshards : 0); ri += (uint32_t) H_nshards) {
      root_init(&rt, n, roots[ri % nr]);
      build_tables(0); build_tables(1);
      pairs++;
      float *m[4] = { 0 }; int wantm = red && (n <= 64 || ri / H_nshards % (n <= 256 ? 8 : n <= 512 ? 24 : 96) == (H_seed % 7)) ;
      if (wantm) for (int k = 0; k < 4; k++) {
        static const int mk[4] = { K_TREV, K_TREV | K_PRE, K_GS, K_GS | K_POST };
        m[k] = xf_matrix(n, (int16_t *) tabs[1][kidx(mk[k])], mk[k]);
      }
      for (uint32_t it = 0; it < reps; it++) {
        if (it % 4 == 3 && wantm) {
          int k = (int) rng_below(&R, 4);
          if (it % 32 == 3) {
            static const int mk[4] = { K_TREV, K_TREV | K_PRE, K_GS, K_GS | K_POST };
            adv_t A = { .n = n, .kind = mk[k], .p = (int16_t *) tabs[1][kidx(mk[k])], .lo = lo, .hi = hi, .m = m[k] };
            static int32_t amx[2048], amn[2048]; for (uint32_t i = 0; i < n; i++) { amx[i] = hi; amn[i] = lo; }
            A.amax = amx; A.amin = amn;
            adv_climb(&R, &A, v, rng_below(&R, 3) ? rng_below(&R, n) : 0, (rng_u64(&R) & 1) ? 1 : -1, 400);
            stat_add("class_climb", 1);
          } else gen_adversarial(&R, v, n, lo, hi, m[k]);
          snprintf(what, sizeof what, "adversarial %d", k);
          stat_add("class_adversarial", 1);
        } else if (it % 8 == 1) { /* choose the spectrum */
          static int32_t s[2048]; uint32_t t[2048], o[2048];
          gen_vec(&R, s, n, 0, Q - 1, (int) rng_below(&R, GEN_KINDS));
          for (uint32_t i = 0; i < n; i++) t[i] = (uint32_t) s[i];
          ref_ntt(o, t, n, invq(rt.omega));
          uint64_t in = invq(n);
          for (uint32_t i = 0; i < n; i++) { v[i] = (int32_t)(o[i] * in % Q); if (red && (rng_u64(&R) & 1)) v[i] = shiftq((uint32_t) v[i]); }
          snprintf(what, sizeof what, "spectral"); stat_add("class_spectral", 1);
        } else if (it % 8 == 5) { /* basis vectors, cycling over positions across roots */
          uint32_t pos = (uint32_t)((unit++ * 8 + (uint64_t) H_shard) % n);
          memset(v, 0, 4 * n); v[pos] = (rng_u64(&R) & 1) ? hi : 1; snprintf(what, sizeof what, "%d*e_%u", v[pos], pos); stat_add("class_basis", 1);
        } else {
          int k = (int) rng_below(&R, GEN_KINDS); gen_vec(&R, v, n, lo, hi, k); snprintf(what, sizeof what, "shape %d", k); stat_add("class_shape", 1);
        }
        run_vec(v, what);
        if (ri < 16 && it == 5) sample("n=%u psi=%u %s v=[%d,%d,..]", n, rt.psi, what, v[0], v[1]);
      }
      for (int k = 0; k < 4; k++) free(m[k]);
      char nm[32]; snprintf(nm, sizeof nm, "roots_n%u", n); stat_add(nm, 1);
    }
  }
  for (int i = 0; i < nimpl; i++) { char nm[48]; snprintf(nm, sizeof nm, "transforms_checked_%s", impls[i].impl); stat_add(nm, calls[i]); }
  stat_add("output_entries_checked", entries);
  return h_finish();
}

/* capture and parse what the abstract transforms print */
static int capfd = -1, savefd = -1;
static void cap_begin(void) { fflush(stdout); if (capfd < 0) { capfd = memfd_create("out", 0); savefd = dup(1); } if (ftruncate(capfd, 0)) exit(3); lseek(capfd, 0, SEEK_SET); dup2(capfd, 1); }
static char *cap_end(void) { fflush(stdout); dup2(savefd, 1); off_t l = lseek(capfd, 0, SEEK_END); char *b = malloc((size_t) l + 1); if (pread(capfd, b, (size_t) l, 0) != l) exit(3); b[l] = 0; return b; }
static int64_t lo[13][2048], hi[13][2048]; static uint8_t wn[13][2048];
/* reports: blocks of "a[i] in [l, h]" lines, each followed by its warnings; -1 if unreadable */
static int parse(char *t, uint32_t n, uint64_t *warns) {
  int blk = -1; uint32_t next = n; *warns = 0;
  for (char *s = strtok(t, "\n"); s; s = strtok(NULL, "\n")) {
    unsigned i; long long l, h; char *q;
    if ((q = strstr(s, "overflow for a["))) { if (sscanf(q, "overflow for a[%u]", &i) != 1 || i >= n || blk < 0) return -1; if (wn[blk][i]) return -2; wn[blk][i] = 1; ++*warns; }
    else if ((q = strstr(s, "a[")) && sscanf(q, "a[%u] in [%lld, %lld]", &i, &l, &h) == 3) {
      if (i == 0) { if (blk >= 0 && next != n) return -1; if (++blk > 12) return -1; memset(wn[blk], 0, n); next = 0; }
      if (i != next || blk < 0) return -1;
      lo[blk][i] = l; hi[blk][i] = h; next++;
    }
  }
  return next == n ? blk + 1 : -1;
}

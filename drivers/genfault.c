/* Fault injector preloaded into the generators. GENFAULT selects one fault:
 *   open:K            K-th fopen fails (ENOSPC)
 *   writeonce:F:K     on the F-th opened stream the K-th write call fails once (EIO), later ones succeed
 *   writeever:F:K     ... and all later ones fail (ENOSPC)
 *   writeshort:F:K    the K-th write stores half of the data and then fails once
 *   close:F           closing the F-th stream fails, its data being complete
 *   closelose:F       closing the F-th stream fails and the last block of data is lost
 *   malloc:K          the K-th malloc fails */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
static char kind[40]; static int p1, p2, ready;
static void init(void) {
  if (ready) return;
  ready = 1;
  const char *s = getenv("GENFAULT");
  if (s) { const char *c = strchr(s, ':'); size_t l = c ? (size_t)(c - s) : strlen(s); if (l > 39) l = 39; memcpy(kind, s, l); kind[l] = 0; if (c) { p1 = atoi(c + 1); c = strchr(c + 1, ':'); if (c) p2 = atoi(c + 1); } }
}
static int nopen, nmalloc;
typedef struct { int fd, idx, writes, dead; long last; } ck_t;
static ssize_t full(int fd, const char *b, size_t n) { size_t k = 0; while (k < n) { ssize_t r = write(fd, b + k, n - k); if (r <= 0) break; k += (size_t) r; } return (ssize_t) k; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  ck_t *k = c; k->writes++;
  if (k->idx == p1 && !strncmp(kind, "write", 5)) {
    if (k->dead) { errno = ENOSPC; return 0; }
    if (k->writes == p2) {
      if (!strcmp(kind, "writeever")) { k->dead = 1; errno = ENOSPC; return 0; }
      if (!strcmp(kind, "writeshort")) { full(k->fd, b, n / 2); errno = EIO; return 0; }
      errno = EIO; return 0;
    }
  }
  k->last = (long) n;
  return full(k->fd, b, n);
}
static int ck_close(void *c) {
  ck_t *k = c; int bad = k->idx == p1 && !strncmp(kind, "close", 5);
  if (bad && !strcmp(kind, "closelose")) { off_t e = lseek(k->fd, 0, SEEK_END); if (ftruncate(k->fd, e - (k->last < e ? k->last : e)) != 0) {} }
  close(k->fd);
  if (bad) { errno = EIO; return EOF; }
  return 0;
}
FILE *fopen(const char *name, const char *mode) {
  init();
  static FILE *(*real)(const char *, const char *); if (!real) real = (FILE *(*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  if (mode[0] == 'r') return real(name, mode);
  nopen++;
  if (!strcmp(kind, "open") && nopen == p1) { errno = ENOSPC; return NULL; }
  if (strncmp(kind, "write", 5) && strncmp(kind, "close", 5)) return real(name, mode);
  int fd = open(name, O_WRONLY | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC), 0666);
  if (fd < 0) return NULL;
  ck_t *k = calloc(1, sizeof *k); k->fd = fd; k->idx = nopen;
  cookie_io_functions_t io = { NULL, ck_write, NULL, ck_close };
  FILE *f = fopencookie(k, "w", io);
  if (f) { static char buf[2][1024]; setvbuf(f, buf[nopen & 1], _IOFBF, 1024); }
  return f;
}
FILE *fopen64(const char *name, const char *mode) { return fopen(name, mode); }
extern void *__libc_malloc(size_t);
void *malloc(size_t n) {
  if (ready != 2) { if (!ready) { ready = 1; const char *s = getenv("GENFAULT"); ready = 0; (void) s; init(); } ready = 2; }
  if (kind[0] == 'm' && ++nmalloc == p1) { errno = ENOMEM; return NULL; }
  return __libc_malloc(n);
}

// The simulated operating system for whole-program runs: every file open, stat, read and write of the program
// under test, and its randomness, passes through here and does what the plan file says. Nothing is decided
// here: the plan names the call (class, operation, how many such calls went before) and what happens to it.
//   C <class> <path>             the program's opens of <path> belong to <class>
//   F <class> <op> <n> <act> <k> the n-th <op> on <class> gets <act>
//   S <seed>                     what getrandom delivers
//   L <n>                        at most n intercepted calls: beyond, the program is not making progress
// classes: 0 = none, 1 = stdout, 2 = stderr, 3.. = files.  ops: o open, s stat, r read, w write
// acts: e errno k; E errno k, this call and all later ones; t at most k bytes; x the process is killed; z end of file; b stat reports size k;
//       c the file appears just before this open (content k x 'A'); m the file is overwritten in place from <path>.alt
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define NCLASS 64
#define NFAULT 256
#define NFD 1024
static struct { char path[512]; long n[4]; int rd; } cls[NCLASS];
static struct { int c; char op; long n; char act; long k; } flt[NFAULT];
static int nflt, logfd = -1, on;
static unsigned char fdc[NFD];
static uint64_t rnd;
static int have_rnd;
static long limit = 2000000, calls;
static char base[512];

static long raw(long nr, long a, long b, long c, long d, long e) { return syscall(nr, a, b, c, d, e); }
static void put(int fd, const void *p, size_t n) {
  const char *s = p;
  while (n) { long r = raw(SYS_write, fd, (long)s, n, 0, 0); if (r <= 0) raw(SYS_exit_group, 98, 0, 0, 0, 0); s += r; n -= r; }
}
static void note(int c, char op, long n, long req, long ret, int err, char act) {
  char b[160];
  int k = snprintf(b, sizeof b, "%d %c %ld %ld %ld %d %c\n", c, op, n, req, ret, err, act ? act : '-');
  put(logfd, b, k);
  if (++calls > limit) raw(SYS_exit_group, 99, 0, 0, 0, 0);
}
static int opix(char op) { return op == 'o' ? 0 : op == 's' ? 1 : op == 'r' ? 2 : 3; }
static int fault(int c, char op, long *n, long *k) {
  *n = cls[c].n[opix(op)]++;
  for (int i = 0; i < nflt; i++)
    if (flt[i].c == c && flt[i].op == op && (flt[i].n == *n || (flt[i].act == 'E' && *n > flt[i].n))) { *k = flt[i].k; return flt[i].act == 'E' ? 'e' : flt[i].act; }
  return 0;
}
static int classof(const char *p) {
  for (int i = 3; i < NCLASS; i++) if (cls[i].path[0] && !strcmp(cls[i].path, p)) return i;
  return 0;
}
static void die(void) { note(0, 'x', 0, 0, 0, 0, 'x'); raw(SYS_exit_group, 97, 0, 0, 0, 0); }

__attribute__((constructor)) static void init(void) {
  const char *b = getenv("SIMSHIM");
  if (!b) return;
  snprintf(base, sizeof base, "%s", b);
  unsetenv("SIMSHIM"); unsetenv("LD_PRELOAD");
  char p[600];
  snprintf(p, sizeof p, "%s.plan", base);
  FILE *f = fopen(p, "r");
  if (!f) _exit(98);
  char line[1024];
  while (fgets(line, sizeof line, f)) {
    int c, k = 0; char op, act; long n, v; unsigned long long s;
    if (sscanf(line, "C %d %n", &c, &k) == 1 && k && c >= 3 && c < NCLASS) {
      line[strcspn(line, "\n")] = 0; snprintf(cls[c].path, sizeof cls[c].path, "%s", line + k);
    } else if (sscanf(line, "F %d %c %ld %c %ld", &c, &op, &n, &act, &v) == 5 && nflt < NFAULT && c >= 0 && c < NCLASS) {
      flt[nflt].c = c; flt[nflt].op = op; flt[nflt].n = n; flt[nflt].act = act; flt[nflt].k = v; nflt++;
    } else if (sscanf(line, "S %llu", &s) == 1) { rnd = s; have_rnd = 1; }
    else if (sscanf(line, "L %ld", &v) == 1) limit = v;
    else _exit(98);
  }
  fclose(f);
  snprintf(p, sizeof p, "%s.log", base);
  int fd = raw(SYS_openat, AT_FDCWD, (long)p, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600, 0);
  logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
  raw(SYS_close, fd, 0, 0, 0, 0);
  if (logfd < 0) _exit(98);
  for (int i = 3; i < NCLASS; i++) cls[i].rd = -1;
  fdc[1] = 1; fdc[2] = 2; on = 1;
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
  int c = on ? classof(path) : 0;
  if (!c) { long r = raw(SYS_openat, dir, (long)path, flags, mode, 0); if (r >= 0 && r < NFD && on) fdc[r] = 0; return r; }
  long n, k = 0; int a = fault(c, 'o', &n, &k);
  if (a == 'x') die();
  if (a == 'e') { note(c, 'o', n, flags, -1, k, a); errno = k; return -1; }
  if (a == 'c') {
    int f = raw(SYS_openat, AT_FDCWD, (long)path, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0);
    if (f >= 0) { for (long i = 0; i < k; i++) put(f, "A", 1); raw(SYS_close, f, 0, 0, 0, 0); }
  }
  long r = raw(SYS_openat, dir, (long)path, flags, mode, 0);
  int e = r < 0 ? errno : 0;
  if (r >= 0 && r < NFD) fdc[r] = c;
  note(c, 'o', n, flags, r < 0 ? -1 : 0, e, a);
  errno = e;
  return r;
}
#define OPEN(name, sig, dir) int name sig { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return do_open(dir, path, flags, m); }
OPEN(open, (const char *path, int flags, ...), AT_FDCWD)
OPEN(open64, (const char *path, int flags, ...), AT_FDCWD)
OPEN(openat, (int d, const char *path, int flags, ...), d)
OPEN(openat64, (int d, const char *path, int flags, ...), d)

static ssize_t do_write(int fd, const void *buf, size_t len) {
  int c = on && fd >= 0 && fd < NFD ? fdc[fd] : 0;
  if (!c) return raw(SYS_write, fd, (long)buf, len, 0, 0);
  long n, k = 0; int a = fault(c, 'w', &n, &k);
  if (a == 'x') die();
  if (a == 'e') { note(c, 'w', n, len, -1, k, a); errno = k; return -1; }
  size_t l = a == 't' && (size_t)k < len ? (size_t)k : len;
  long r = raw(SYS_write, fd, (long)buf, l, 0, 0);
  int e = r < 0 ? errno : 0;
  note(c, 'w', n, len, r, e, a);
  errno = e;
  return r;
}
ssize_t write(int fd, const void *buf, size_t len) { return do_write(fd, buf, len); }
ssize_t writev(int fd, const struct iovec *v, int cnt) {
  int c = on && fd >= 0 && fd < NFD ? fdc[fd] : 0;
  if (!c) return raw(SYS_writev, fd, (long)v, cnt, 0, 0);
  size_t n = 0;
  for (int i = 0; i < cnt; i++) n += v[i].iov_len;
  char *b = malloc(n ? n : 1); size_t o = 0;
  for (int i = 0; i < cnt; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  ssize_t r = do_write(fd, b, n);
  int e = errno; free(b); errno = e;
  return r;
}
static void delivered(int c, const void *b, long n) {
  if (cls[c].rd < 0) {
    char p[600]; snprintf(p, sizeof p, "%s.rd%d", base, c);
    int f = raw(SYS_openat, AT_FDCWD, (long)p, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600, 0);
    cls[c].rd = fcntl(f, F_DUPFD_CLOEXEC, 900); raw(SYS_close, f, 0, 0, 0, 0);
  }
  if (n > 0) put(cls[c].rd, b, n);
}
ssize_t read(int fd, void *buf, size_t len) {
  int c = on && fd >= 0 && fd < NFD ? fdc[fd] : 0;
  if (c < 3) return raw(SYS_read, fd, (long)buf, len, 0, 0);
  long n, k = 0; int a = fault(c, 'r', &n, &k);
  if (a == 'x') die();
  if (a == 'e') { note(c, 'r', n, len, -1, k, a); errno = k; return -1; }
  if (a == 'z') { note(c, 'r', n, len, 0, 0, a); delivered(c, buf, 0); return 0; }
  if (a == 'm') {
    char p[600]; snprintf(p, sizeof p, "%s.alt", cls[c].path);
    int s = raw(SYS_openat, AT_FDCWD, (long)p, O_RDONLY, 0, 0), d = raw(SYS_openat, AT_FDCWD, (long)cls[c].path, O_WRONLY | O_TRUNC, 0, 0);
    char b[65536]; long m;
    if (s >= 0 && d >= 0) while ((m = raw(SYS_read, s, (long)b, sizeof b, 0, 0)) > 0) put(d, b, m);
    if (s >= 0) raw(SYS_close, s, 0, 0, 0, 0);
    if (d >= 0) raw(SYS_close, d, 0, 0, 0, 0);
  }
  size_t l = a == 't' && (size_t)k < len ? (size_t)k : len;
  long r = raw(SYS_read, fd, (long)buf, l, 0, 0);
  int e = r < 0 ? errno : 0;
  note(c, 'r', n, len, r, e, a);
  if (r >= 0) delivered(c, buf, r);
  errno = e;
  return r;
}
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
  int c = 0;
  const char *volatile vp = path; // Rust std probes for statx with null pointers
  struct statx *volatile vs = st;
  if (on && vp && vs) c = path[0] ? classof(path) : (dir >= 3 && dir < NFD ? fdc[dir] : 0);
  long n = 0, k = 0; int a = c ? fault(c, 's', &n, &k) : 0;
  if (a == 'x') die();
  if (a == 'e') { note(c, 's', n, 0, -1, k, a); errno = k; return -1; }
  long r = raw(SYS_statx, dir, (long)path, flags, mask, (long)st);
  int e = r < 0 ? errno : 0;
  if (a == 'b' && r == 0) st->stx_size = k;
  if (c) note(c, 's', n, 0, r, e, a);
  errno = e;
  return r;
}
int close(int fd) {
  if (fd >= 900) return 0;
  if (fd >= 3 && fd < NFD) fdc[fd] = 0;
  return raw(SYS_close, fd, 0, 0, 0, 0);
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  if (!have_rnd) return raw(SYS_getrandom, (long)buf, len, flags, 0, 0);
  unsigned char *p = buf;
  for (size_t i = 0; i < len; i++) {
    rnd += 0x9E3779B97F4A7C15ull;
    uint64_t z = rnd; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; p[i] = z ^ (z >> 31);
  }
  return len;
}

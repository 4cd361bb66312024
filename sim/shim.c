/* LD_PRELOAD seam of the simulator: file system, clock, sleep and entropy of the
 * process under test.  Everything is off until a callback / value is set through
 * the vshim_* functions, so a process that merely has this library loaded behaves
 * as without it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <time.h>
#include <unistd.h>
#include <stdint.h>
#include <dirent.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_RENAME, OP_MKDIR, OP_UNLINK,
       OP_RMDIR, OP_FSYNC, OP_TRUNC, OP_LINK, OP_COPY, OP_META, OP_CREATE, OP_OPENDIR };
enum { ACT_PASS = 0, ACT_ERRNO, ACT_SHORT, ACT_CRASH_BEFORE, ACT_PARTIAL_CRASH,
       ACT_PARTIAL_ERRNO, ACT_CRASH_AFTER };

typedef long (*cb_t)(int op, const char *p1, const char *p2, long fd, long n, long *arg);
static cb_t cb;
#define MAXROOT 16
static char *roots[MAXROOT];   /* simulated disk: every operation is reported */
static int nroots;
static char *allow[MAXROOT];   /* may be written without being reported */
static int nallow;
static int guard_on;           /* report (and let the callback refuse) writes elsewhere */
static __thread int inside;

#define NFD 4096
static char *fdpath[NFD];

#define REAL(name) \
  static __typeof__(&name) real_##name; \
  if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static void die(void) { _exit(86); }

static int absolutise(int dirfd, const char *path, char *out, size_t cap) {
  char tmp[8192];
  if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
  else {
    char base[4096];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return -1; }
    else {
      char link[64]; snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
      ssize_t k = readlink(link, base, sizeof base - 1);
      if (k < 0) return -1;
      base[k] = 0;
    }
    snprintf(tmp, sizeof tmp, "%s/%s", base, path);
  }
  /* lexical normalisation */
  char *save = 0; size_t len = 0; out[0] = 0;
  for (char *c = strtok_r(tmp, "/", &save); c; c = strtok_r(0, "/", &save)) {
    if (!strcmp(c, ".")) continue;
    if (!strcmp(c, "..")) { while (len && out[len - 1] != '/') len--; if (len) len--; out[len] = 0; continue; }
    size_t l = strlen(c);
    if (len + l + 2 > cap) return -1;
    out[len++] = '/'; memcpy(out + len, c, l); len += l; out[len] = 0;
  }
  if (!len) { out[0] = '/'; out[1] = 0; }
  return 0;
}
static int under(char **list, int n, const char *p) {
  for (int i = 0; i < n; i++) {
    size_t l = strlen(list[i]);
    if (!strncmp(p, list[i], l) && (p[l] == 0 || p[l] == '/' || list[i][l - 1] == '/')) return 1;
  }
  return 0;
}
/* 0 ignore, 1 on the simulated disk, 2 a write outside every allowed place */
static int classify(int dirfd, const char *path, int mutating, char *out, size_t cap) {
  if (!cb || inside || !path) return 0;
  if (absolutise(dirfd, path, out, cap)) return 0;
  if (under(roots, nroots, out)) return 1;
  if (mutating && guard_on && !under(allow, nallow, out)) return 2;
  return 0;
}
static long ask(int op, int kind, const char *p1, const char *p2, long fd, long n, long *arg) {
  *arg = 0;
  inside = 1;
  long a = cb(op | (kind == 2 ? 256 : 0), p1 ? p1 : "", p2 ? p2 : "", fd, n, arg);
  inside = 0;
  if (a == ACT_CRASH_BEFORE) die();
  return a;
}

/* -- path operations ------------------------------------------------------- */
static int is_mut(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
static int do_open(int which, int dirfd, const char *path, int flags, mode_t mode) {
  static int (*r_open)(const char *, int, ...), (*r_openat)(int, const char *, int, ...);
  if (!r_open) r_open = dlsym(RTLD_NEXT, "open64");
  if (!r_openat) r_openat = dlsym(RTLD_NEXT, "openat64");
  char p[4200]; long arg, a = 0;
  int k = classify(dirfd, path, is_mut(flags), p, sizeof p);
  if (k) {
    a = ask(is_mut(flags) ? OP_CREATE : OP_OPEN, k, p, 0, -1, flags, &arg);
    if (a == ACT_ERRNO) { errno = (int)arg; return -1; }
  }
  int fd = which ? r_openat(dirfd, path, flags, mode) : r_open(path, flags, mode);
  if (fd >= 0 && fd < NFD) {
    int e = errno;
    free(fdpath[fd]); fdpath[fd] = (k == 1) ? strdup(p) : 0;
    errno = e;
  }
  if (a == ACT_CRASH_AFTER) die();
  return fd;
}
#define MODE va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap)
int open(const char *path, int flags, ...) { MODE; return do_open(0, AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { MODE; return do_open(0, AT_FDCWD, path, flags, m); }
int openat(int d, const char *path, int flags, ...) { MODE; return do_open(1, d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { MODE; return do_open(1, d, path, flags, m); }
int __open64_2(const char *path, int flags) { return do_open(0, AT_FDCWD, path, flags, 0); }
int __open_2(const char *path, int flags) { return do_open(0, AT_FDCWD, path, flags, 0); }
int creat(const char *path, mode_t m) { return do_open(0, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(0, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *fopen64(const char *path, const char *mode) {
  REAL(fopen64);
  char p[4200]; long arg; int mut = strpbrk(mode, "wa+") != 0;
  int k = classify(AT_FDCWD, path, mut, p, sizeof p);
  if (k && ask(mut ? OP_CREATE : OP_OPEN, k, p, 0, -1, 0, &arg) == ACT_ERRNO) { errno = (int)arg; return 0; }
  return real_fopen64(path, mode);
}
FILE *fopen(const char *path, const char *mode) { return fopen64(path, mode); }

#define PATH1(op, d, path, call) \
  char p[4200]; long arg, a = 0; int k = classify(d, path, 1, p, sizeof p); \
  if (k) { a = ask(op, k, p, 0, -1, 0, &arg); if (a == ACT_ERRNO) { errno = (int)arg; return -1; } } \
  int rc = call; if (a == ACT_CRASH_AFTER) die(); return rc
int mkdir(const char *path, mode_t m) { REAL(mkdir); PATH1(OP_MKDIR, AT_FDCWD, path, real_mkdir(path, m)); }
int mkdirat(int d, const char *path, mode_t m) { REAL(mkdirat); PATH1(OP_MKDIR, d, path, real_mkdirat(d, path, m)); }
int unlink(const char *path) { REAL(unlink); PATH1(OP_UNLINK, AT_FDCWD, path, real_unlink(path)); }
int unlinkat(int d, const char *path, int f) { REAL(unlinkat); PATH1((f & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, d, path, real_unlinkat(d, path, f)); }
int rmdir(const char *path) { REAL(rmdir); PATH1(OP_RMDIR, AT_FDCWD, path, real_rmdir(path)); }
int remove(const char *path) { REAL(remove); PATH1(OP_UNLINK, AT_FDCWD, path, real_remove(path)); }
int truncate64(const char *path, off64_t n) { REAL(truncate64); PATH1(OP_TRUNC, AT_FDCWD, path, real_truncate64(path, n)); }
int chmod(const char *path, mode_t m) { REAL(chmod); PATH1(OP_META, AT_FDCWD, path, real_chmod(path, m)); }
int fchmodat(int d, const char *path, mode_t m, int f) { REAL(fchmodat); PATH1(OP_META, d, path, real_fchmodat(d, path, m, f)); }
int chown(const char *path, uid_t u, gid_t g) { REAL(chown); PATH1(OP_META, AT_FDCWD, path, real_chown(path, u, g)); }
int utimensat(int d, const char *path, const struct timespec t[2], int f) { REAL(utimensat); PATH1(OP_META, d, path, real_utimensat(d, path, t, f)); }
int symlink(const char *tgt, const char *path) { REAL(symlink); PATH1(OP_LINK, AT_FDCWD, path, real_symlink(tgt, path)); }

#define PATH2(op, d1, p1_, d2, p2_, call) \
  char a1[4200], a2[4200]; long arg, a = 0; \
  int k1 = classify(d1, p1_, 1, a1, sizeof a1), k2 = classify(d2, p2_, 1, a2, sizeof a2); \
  if (k1 || k2) { a = ask(op, (k1 == 2 || k2 == 2) ? 2 : 1, k1 ? a1 : p1_, k2 ? a2 : p2_, -1, 0, &arg); \
    if (a == ACT_ERRNO) { errno = (int)arg; return -1; } } \
  int rc = call; if (a == ACT_CRASH_AFTER) die(); return rc
int rename(const char *o, const char *n) { REAL(rename); PATH2(OP_RENAME, AT_FDCWD, o, AT_FDCWD, n, real_rename(o, n)); }
int renameat(int d1, const char *o, int d2, const char *n) { REAL(renameat); PATH2(OP_RENAME, d1, o, d2, n, real_renameat(d1, o, d2, n)); }
int renameat2(int d1, const char *o, int d2, const char *n, unsigned f) { REAL(renameat2); PATH2(OP_RENAME, d1, o, d2, n, real_renameat2(d1, o, d2, n, f)); }
int link(const char *o, const char *n) { REAL(link); PATH2(OP_LINK, AT_FDCWD, o, AT_FDCWD, n, real_link(o, n)); }
int linkat(int d1, const char *o, int d2, const char *n, int f) { REAL(linkat); PATH2(OP_LINK, d1, o, d2, n, real_linkat(d1, o, d2, n, f)); }

/* -- descriptor operations -------------------------------------------------- */
static const char *watched(int fd) { return (cb && !inside && fd >= 0 && fd < NFD) ? fdpath[fd] : 0; }

ssize_t read(int fd, void *b, size_t n) {
  REAL(read);
  const char *p = watched(fd); long arg;
  if (p) {
    long a = ask(OP_READ, 1, p, 0, fd, (long)n, &arg);
    if (a == ACT_ERRNO) { errno = (int)arg; return -1; }
    if (a == ACT_SHORT && (long)n > arg) n = arg;
    ssize_t r = real_read(fd, b, n);
    if (a == ACT_CRASH_AFTER) die();
    return r;
  }
  return real_read(fd, b, n);
}
#define WR(fd, n, full, part) \
  const char *p = watched(fd); long arg; \
  if (!p) return full; \
  long a = ask(OP_WRITE, 1, p, 0, fd, (long)(n), &arg); \
  if (a == ACT_ERRNO) { errno = (int)arg; return -1; } \
  if (a == ACT_SHORT || a == ACT_PARTIAL_CRASH || a == ACT_PARTIAL_ERRNO) { \
    long m = (a == ACT_PARTIAL_ERRNO) ? (arg >> 8) : arg; \
    if (m > (long)(n)) m = (long)(n); \
    ssize_t r = m > 0 ? part : 0; \
    if (a == ACT_PARTIAL_CRASH) die(); \
    if (a == ACT_PARTIAL_ERRNO) { errno = (int)(arg & 255); return -1; } \
    return r; } \
  ssize_t r_ = full; if (a == ACT_CRASH_AFTER) die(); return r_
ssize_t write(int fd, const void *b, size_t n) { REAL(write); WR(fd, n, real_write(fd, b, n), real_write(fd, b, m)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); WR(fd, n, real_pwrite64(fd, b, n, o), real_pwrite64(fd, b, m, o)); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(writev); REAL(write);
  size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  WR(fd, n, real_writev(fd, v, c), real_write(fd, v[0].iov_base, (size_t)m < v[0].iov_len ? (size_t)m : v[0].iov_len));
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(sendfile64);
  const char *p = watched(o); long arg;
  if (p) { long a = ask(OP_COPY, 1, p, 0, o, (long)n, &arg);
    if (a == ACT_ERRNO) { errno = (int)arg; return -1; }
    if ((a == ACT_SHORT || a == ACT_PARTIAL_CRASH) && (long)n > arg && arg > 0) n = arg;
    ssize_t r = real_sendfile64(o, i, off, n);
    if (a == ACT_CRASH_AFTER || a == ACT_PARTIAL_CRASH) die();
    return r; }
  return real_sendfile64(o, i, off, n); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) { REAL(copy_file_range);
  const char *p = watched(o); long arg;
  if (p) { long a = ask(OP_COPY, 1, p, 0, o, (long)n, &arg);
    if (a == ACT_ERRNO) { errno = (int)arg; return -1; }
    if ((a == ACT_SHORT || a == ACT_PARTIAL_CRASH) && (long)n > arg && arg > 0) n = arg;
    ssize_t r = real_copy_file_range(i, oi, o, oo, n, f);
    if (a == ACT_CRASH_AFTER || a == ACT_PARTIAL_CRASH) die();
    return r; }
  return real_copy_file_range(i, oi, o, oo, n, f); }
int fsync(int fd) { REAL(fsync); const char *p = watched(fd); long arg;
  if (p) { long a = ask(OP_FSYNC, 1, p, 0, fd, 0, &arg); if (a == ACT_ERRNO) { errno = (int)arg; return -1; } if (a == ACT_CRASH_AFTER) die(); return 0; }
  return real_fsync(fd); }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); const char *p = watched(fd); long arg;
  if (p) { long a = ask(OP_TRUNC, 1, p, 0, fd, (long)n, &arg); if (a == ACT_ERRNO) { errno = (int)arg; return -1; }
    int r = real_ftruncate64(fd, n); if (a == ACT_CRASH_AFTER) die(); return r; }
  return real_ftruncate64(fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int close(int fd) { REAL(close); const char *p = watched(fd); long arg;
  if (p) {
    long a = ask(OP_CLOSE, 1, p, 0, fd, 0, &arg);
    char *old = fdpath[fd]; fdpath[fd] = 0;
    int r = real_close(fd);
    free(old);
    if (a == ACT_CRASH_AFTER) die();
    if (a == ACT_ERRNO) { errno = (int)arg; return -1; }
    return r;
  }
  if (fd >= 0 && fd < NFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
  return real_close(fd); }

/* -- clock, sleep, entropy --------------------------------------------------- */
static int clock_on; static int64_t sim_ns, tick_ns; static uint64_t clock_reads, slept_ns;
static int mono_on; static int64_t mono_ns, mono_tick;
static int64_t now_ns(void) { clock_reads++; sim_ns += tick_ns; return sim_ns; }
int clock_gettime(clockid_t c, struct timespec *t) { REAL(clock_gettime);
  if (clock_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { int64_t n = now_ns(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
  if (mono_on && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID)) {
    mono_ns += mono_tick; t->tv_sec = mono_ns / 1000000000; t->tv_nsec = mono_ns % 1000000000; return 0; }
  return real_clock_gettime(c, t); }
time_t time(time_t *o) { REAL(clock_gettime); time_t v;
  if (clock_on) v = now_ns() / 1000000000; else { struct timespec t; real_clock_gettime(CLOCK_REALTIME, &t); v = t.tv_sec; }
  if (o) *o = v;
  return v; }
int gettimeofday(struct timeval *restrict t, void *restrict z) { REAL(clock_gettime); struct timespec s; (void)z;
  if (clock_on) { int64_t n = now_ns(); t->tv_sec = n / 1000000000; t->tv_usec = (n % 1000000000) / 1000; return 0; }
  real_clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
static void skip(int64_t ns) { if (ns > 0) { ns = (ns + 500000) / 1000000 * 1000000; sim_ns += ns; slept_ns += ns; } }
int nanosleep(const struct timespec *a, struct timespec *b) { REAL(nanosleep);
  if (clock_on) { skip(a->tv_sec * 1000000000LL + a->tv_nsec); return 0; } return real_nanosleep(a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { REAL(clock_nanosleep); REAL(clock_gettime);
  if (clock_on) { int64_t ns = a->tv_sec * 1000000000LL + a->tv_nsec;
    if (f & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) ns -= sim_ns; else { struct timespec n; real_clock_gettime(c, &n); ns -= n.tv_sec * 1000000000LL + n.tv_nsec; } }
    skip(ns); return 0; }
  return real_clock_nanosleep(c, f, a, b); }
static int rnd_on; static uint64_t rnd_s, rnd_calls;
static uint64_t sm64(void) { uint64_t z = (rnd_s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
ssize_t getrandom(void *b, size_t n, unsigned f) { REAL(getrandom);
  if (!rnd_on) return real_getrandom(b, n, f);
  rnd_calls++;
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)(sm64() >> 24);
  return (ssize_t)n; }
int getentropy(void *b, size_t n) { REAL(getentropy); if (!rnd_on) return real_getentropy(b, n); return getrandom(b, n, 0) < 0 ? -1 : 0; }

static int sim_pid;
pid_t getpid(void) { REAL(getpid); return sim_pid ? sim_pid : real_getpid(); }

/* -- control ------------------------------------------------------------------ */
void vshim_callback(cb_t f) { cb = f; }
void vshim_reset(void) { nroots = nallow = 0; guard_on = 0; cb = 0; clock_on = 0; mono_on = 0; rnd_on = 0; sim_pid = 0;
  for (int i = 0; i < NFD; i++) { free(fdpath[i]); fdpath[i] = 0; } }
void vshim_pid(int v) { sim_pid = v; }
void vshim_root(const char *p) { if (nroots < MAXROOT) roots[nroots++] = strdup(p); }
void vshim_allow(const char *p) { if (nallow < MAXROOT) allow[nallow++] = strdup(p); }
void vshim_guard(int on) { guard_on = on; }
void vshim_clock(int on, int64_t ns, int64_t tick) { clock_on = on; sim_ns = ns; tick_ns = tick; }
void vshim_mono(int on, int64_t ns, int64_t tick) { mono_on = on; mono_ns = ns; mono_tick = tick; }
void vshim_advance(int64_t ns) { sim_ns += ns; }
int64_t vshim_now(void) { return sim_ns; }
uint64_t vshim_clock_reads(void) { return clock_reads; }
uint64_t vshim_slept(void) { return slept_ns; }
void vshim_random(int on, uint64_t seed) { rnd_on = on; rnd_s = seed; }
int vshim_inside(int v) { int o = inside; inside = v; return o; }

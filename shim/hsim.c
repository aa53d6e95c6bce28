// LD_PRELOAD seam around the tool: every source of nondeterminism and every effect on the outside goes
// through here. Randomness and clocks come from the seed; file operations are counted, logged, confined to
// the scratch directory, and can be made to fail, be cut short, be interrupted, or crash the process at the
// n-th occurrence, as told by the fault plan. Environment:
//   HSIM_SEED=<u64>            stream behind getrandom
//   HSIM_CLOCK=<step>[,<jump_every>,<jump_ns>]  virtual clock, advancing <step> ns per reading
//   HSIM_JAIL=<abs dir>        writes, deletions, creations outside are denied (EACCES) and logged
//   HSIM_FAULTS=op:n:kind[:arg];...   op in {open,openw,read,write,mkdir,unlink,alloc,spawn,dir,any}
//   HSIM_QUOTA=<bytes>         total bytes writable to files before ENOSPC
//   HSIM_LOG=<path>            event log (outside of the counted operations)
//   HSIM_CPU=<seconds> HSIM_AS=<MiB>
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <spawn.h>
#include <dlfcn.h>
#include <dirent.h>

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
#define R3(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define R4(n, a, b, c, d) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
static long fin(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

static int active = 0;
static uint64_t rstate = 0;
static uint64_t rnd(void) {
  uint64_t z = (rstate += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static uint64_t vclock = 1700000000ULL * 1000000000ULL, vstep = 1000, vjump_every = 0, vjump = 0, vreads = 0;
static char jail[1024]; static size_t jaillen = 0;
static char cwd0[1024];
static int logfd = -1;
static long quota = -1;
static long opcount = 0, wbytes = 0;

enum { OP_OPEN, OP_OPENW, OP_READ, OP_WRITE, OP_MKDIR, OP_UNLINK, OP_ALLOC, OP_SPAWN, OP_DIR, OP_ANY, OP_N };
static const char *opname[] = {"open", "openw", "read", "write", "mkdir", "unlink", "alloc", "spawn", "dir", "any"};
static long cnt[OP_N];
struct fault { int op; long n; char kind[12]; long arg; };
static struct fault F[64]; static int nF = 0;

#define MAXFD 4096
static unsigned char fdk[MAXFD]; // 0 untracked, 1 input file, 2 output file

static void logev(const char *fmt, ...) {
  if (logfd < 0) return;
  char b[2400]; va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  R3(SYS_write, logfd, b, n);
}
static void die_now(const char *why) {
  logev("CRASH %s\n", why);
  R3(SYS_kill, raw6(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0);
  for (;;) ;
}
static struct fault *hit(int op) {
  cnt[op]++; 
  if (op != OP_ALLOC) { opcount++; cnt[OP_ANY]++; }
  for (int i = 0; i < nF; i++) {
    if (F[i].op == op && F[i].n == cnt[op]) return &F[i];
    if (F[i].op == OP_ANY && op != OP_ALLOC && F[i].n == cnt[OP_ANY]) return &F[i];
    if (F[i].op == op && F[i].n == -1) return &F[i]; // every time
  }
  return NULL;
}
static int err_of(const char *k) {
  if (!strcmp(k, "eio")) return EIO;
  if (!strcmp(k, "enospc")) return ENOSPC;
  if (!strcmp(k, "eacces")) return EACCES;
  if (!strcmp(k, "eintr")) return EINTR;
  if (!strcmp(k, "emfile")) return EMFILE;
  if (!strcmp(k, "enoent")) return ENOENT;
  if (!strcmp(k, "enomem")) return ENOMEM;
  if (!strcmp(k, "erofs")) return EROFS;
  return EIO;
}

__attribute__((constructor)) static void init(void) {
  const char *s;
  if ((s = getenv("HSIM_SEED"))) { rstate = strtoull(s, 0, 10); active = 1; }
  if (!active) return;
  if ((s = getenv("HSIM_CLOCK"))) {
    char *e; vstep = strtoull(s, &e, 10);
    if (*e == ',') { vjump_every = strtoull(e + 1, &e, 10); if (*e == ',') vjump = strtoull(e + 1, &e, 10); }
  }
  raw6(SYS_getcwd, (long)cwd0, sizeof cwd0, 0, 0, 0, 0);
  if ((s = getenv("HSIM_JAIL"))) { strncpy(jail, s, sizeof jail - 1); jaillen = strlen(jail); }
  if ((s = getenv("HSIM_QUOTA"))) quota = strtol(s, 0, 10);
  if ((s = getenv("HSIM_LOG"))) {
    long fd = R4(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (fd >= 0) { long hi = R3(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900); if (hi >= 0) { R3(SYS_close, fd, 0, 0); fd = hi; } logfd = fd; }
  }
  if ((s = getenv("HSIM_CPU"))) { struct rlimit r; r.rlim_cur = strtoul(s, 0, 10); r.rlim_max = r.rlim_cur + 1; setrlimit(RLIMIT_CPU, &r); }
  if ((s = getenv("HSIM_AS"))) { struct rlimit r; r.rlim_cur = r.rlim_max = strtoul(s, 0, 10) << 20; setrlimit(RLIMIT_AS, &r); }
  { struct rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r); }
  if ((s = getenv("HSIM_FAULTS"))) {
    char buf[4096]; strncpy(buf, s, sizeof buf - 1); buf[sizeof buf - 1] = 0;
    char *sv = 0;
    for (char *t = strtok_r(buf, ";", &sv); t && nF < 64; t = strtok_r(0, ";", &sv)) {
      char op[16] = {0}, kind[12] = {0}; long n = 0, arg = 0;
      if (sscanf(t, "%15[^:]:%ld:%11[^:]:%ld", op, &n, kind, &arg) >= 3) {
        for (int i = 0; i < OP_N; i++) if (!strcmp(op, opname[i])) {
          F[nF].op = i; F[nF].n = n; strcpy(F[nF].kind, kind); F[nF].arg = arg; nF++; break;
        }
      }
    }
  }
}

__attribute__((destructor)) static void done(void) {
  if (!active) return;
  logev("COUNTS open=%ld openw=%ld read=%ld write=%ld mkdir=%ld unlink=%ld alloc=%ld spawn=%ld dir=%ld any=%ld bytes=%ld\n", cnt[OP_OPEN], cnt[OP_OPENW], cnt[OP_READ], cnt[OP_WRITE], cnt[OP_MKDIR], cnt[OP_UNLINK], cnt[OP_ALLOC], cnt[OP_SPAWN], cnt[OP_DIR], cnt[OP_ANY], wbytes);
}
// ---------------------------------------------------------------- randomness
static ssize_t fill(void *buf, size_t n) {
  unsigned char *p = buf;
  for (size_t i = 0; i < n;) {
    uint64_t r = rnd();
    for (int k = 0; k < 8 && i < n; k++, i++) p[i] = (unsigned char)(r >> (8 * k));
  }
  return (ssize_t)n;
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!active) return fin(R3(SYS_getrandom, buf, n, flags));
  logev("getrandom %zu\n", n);
  return fill(buf, n);
}
int getentropy(void *buf, size_t n) {
  if (!active) return fin(R3(SYS_getrandom, buf, n, 0)) < 0 ? -1 : 0;
  fill(buf, n); return 0;
}
long syscall(long num, ...) {
  va_list ap; va_start(ap, num);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active && num == SYS_getrandom) { logev("getrandom %ld\n", b); return fill((void *)a, (size_t)b); }
  return fin(raw6(num, a, b, c, d, e, f));
}
// ---------------------------------------------------------------- time
static uint64_t tick(void) {
  vreads++; vclock += vstep;
  if (vjump_every && vreads % vjump_every == 0) vclock += vjump;
  return vclock;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!active || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return (int)fin(R3(SYS_clock_gettime, id, ts, 0));
  uint64_t t = tick();
  ts->tv_sec = t / 1000000000ULL; ts->tv_nsec = t % 1000000000ULL;
  logev("clock %d\n", (int)id);
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!active) return (int)fin(R3(SYS_gettimeofday, tv, tz, 0));
  uint64_t t = tick(); tv->tv_sec = t / 1000000000ULL; tv->tv_usec = (t / 1000) % 1000000; return 0;
}
time_t time(time_t *p) {
  if (!active) { struct timespec ts; R3(SYS_clock_gettime, 0, &ts, 0); if (p) *p = ts.tv_sec; return ts.tv_sec; }
  time_t t = tick() / 1000000000ULL; if (p) *p = t; return t;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!active) return (int)fin(R3(SYS_nanosleep, a, b, 0));
  vclock += a->tv_sec * 1000000000ULL + a->tv_nsec; return 0;
}
// ---------------------------------------------------------------- paths
static void absnorm(int dfd, const char *p, char *out, size_t cap) {
  char tmp[4096];
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else if (dfd == AT_FDCWD) snprintf(tmp, sizeof tmp, "%s/%s", cwd0, p);
  else {
    char ln[64], base[2048]; snprintf(ln, sizeof ln, "/proc/self/fd/%d", dfd);
    long n = R3(SYS_readlink, ln, base, sizeof base - 1);
    if (n < 0) n = 0; base[n] = 0;
    snprintf(tmp, sizeof tmp, "%s/%s", base, p);
  }
  // lexical normalisation
  char *parts[256]; int np = 0; char *sv = 0;
  for (char *t = strtok_r(tmp, "/", &sv); t && np < 256; t = strtok_r(0, "/", &sv)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { if (np) np--; continue; }
    parts[np++] = t;
  }
  size_t o = 0; out[0] = 0;
  for (int i = 0; i < np; i++) o += snprintf(out + o, o < cap ? cap - o : 0, "/%s", parts[i]);
  if (!np) snprintf(out, cap, "/");
}
static int outside(const char *abs) {
  if (!jaillen) return 0;
  return !(strncmp(abs, jail, jaillen) == 0 && (abs[jaillen] == '/' || abs[jaillen] == 0));
}
static const char *rel(const char *abs) {
  if (jaillen && !outside(abs)) return abs[jaillen] ? abs + jaillen + 1 : ".";
  return abs;
}
static int is_special(const char *abs) {
  return !strncmp(abs, "/dev/", 5) || !strncmp(abs, "/proc/", 6) || !strncmp(abs, "/sys/", 5) || !strncmp(abs, "/etc/", 5) || !strncmp(abs, "/lib", 4) || !strncmp(abs, "/usr/", 5);
}
// ---------------------------------------------------------------- files
static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  if (!active) return (int)fin(R4(SYS_openat, dfd, path, flags, mode));
  char abs[4096]; absnorm(dfd, path, abs, sizeof abs);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!w && is_special(abs)) return (int)fin(R4(SYS_openat, dfd, path, flags, mode));
  if (w && outside(abs) && strcmp(abs, "/dev/null")) { logev("DENIED openw %s\n", abs); errno = EACCES; return -1; }
  if (flags & O_DIRECTORY) {
    struct fault *f = hit(OP_DIR);
    if (f) { logev("FAULT dir %s %s\n", rel(abs), f->kind); if (!strcmp(f->kind, "crash")) die_now("dir"); errno = err_of(f->kind); return -1; }
    return (int)fin(R4(SYS_openat, dfd, path, flags, mode));
  }
  struct fault *f = hit(w ? OP_OPENW : OP_OPEN);
  if (f) {
    logev("FAULT %s %s %s\n", w ? "openw" : "open", rel(abs), f->kind);
    if (!strcmp(f->kind, "crash")) die_now("open");
    if (!strcmp(f->kind, "crash2")) { R4(SYS_openat, dfd, path, flags, mode); die_now("after open"); }
    errno = err_of(f->kind); return -1;
  }
  int fd = (int)fin(R4(SYS_openat, dfd, path, flags, mode));
  int e = errno;
  if (fd >= 0 && fd < MAXFD) fdk[fd] = w ? 2 : 1;
  logev("%s %s -> %s\n", w ? "openw" : "open", rel(abs), fd >= 0 ? "ok" : "err");
  errno = e; return fd;
}
int open(const char *path, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } return do_open(AT_FDCWD, path, flags, m); }
int openat(int d, const char *path, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } return do_open(d, path, flags, m); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (fd >= 0 && fd < MAXFD) fdk[fd] = 0; return (int)fin(R3(SYS_close, fd, 0, 0)); }

ssize_t read(int fd, void *buf, size_t n) {
  if (!active || fd < 0 || fd >= MAXFD || fdk[fd] != 1 || n == 0) return fin(R3(SYS_read, fd, buf, n));
  struct fault *f = hit(OP_READ);
  if (f) {
    logev("FAULT read %s %ld\n", f->kind, f->arg);
    if (!strcmp(f->kind, "crash")) die_now("read");
    if (!strcmp(f->kind, "short")) { size_t k = f->arg > 0 ? (size_t)f->arg : 1; if (k > n) k = n; return fin(R3(SYS_read, fd, buf, k)); }
    errno = err_of(f->kind); return -1;
  }
  return fin(R3(SYS_read, fd, buf, n));
}
static ssize_t do_write(int fd, const void *buf, size_t n) {
  struct fault *f = hit(OP_WRITE);
  if (f) {
    logev("FAULT write %s %ld of %zu\n", f->kind, f->arg, n);
    if (!strcmp(f->kind, "crash")) { // torn: a part of the data reaches the disk
      size_t k = (size_t)(f->arg < 0 ? 0 : f->arg); if (k > n) k = n;
      if (k) R3(SYS_write, fd, buf, k);
      die_now("write");
    }
    if (!strcmp(f->kind, "short")) { size_t k = f->arg > 0 ? (size_t)f->arg : 1; if (k >= n) k = n > 1 ? n - 1 : n; n = k; }
    else { errno = err_of(f->kind); return -1; }
  }
  if (quota >= 0) {
    if (quota == 0 && n > 0) { logev("FAULT write quota\n"); errno = ENOSPC; return -1; }
    if ((long)n > quota) { logev("FAULT write quota-short %ld of %zu\n", quota, n); n = (size_t)quota; }
  }
  long r = fin(R3(SYS_write, fd, buf, n));
  if (r > 0) wbytes += r;
  if (r > 0 && quota >= 0) quota -= r;
  return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (!active || fd < 0 || fd >= MAXFD || fdk[fd] != 2) return fin(R3(SYS_write, fd, buf, n));
  return do_write(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *iov, int c) {
  if (!active || fd < 0 || fd >= MAXFD || fdk[fd] != 2) return fin(R3(SYS_writev, fd, iov, c));
  for (int i = 0; i < c; i++) if (iov[i].iov_len) return do_write(fd, iov[i].iov_base, iov[i].iov_len);
  return 0;
}
static int pathop(int op, int dfd, const char *path, long sysno, long a2, const char *nm) {
  char abs[4096]; absnorm(dfd, path, abs, sizeof abs);
  if (active) {
    if (outside(abs)) {
      // creating a directory that is already there is harmless
      if (op == OP_MKDIR && R3(SYS_access, abs, 0, 0) == 0) { errno = EEXIST; return -1; }
      logev("DENIED %s %s\n", nm, abs); errno = EACCES; return -1;
    }
    if (jaillen && op == OP_UNLINK && !strcmp(abs, jail)) { logev("DENIED %s jail\n", nm); errno = EACCES; return -1; }
    struct fault *f = hit(op);
    if (f) { logev("FAULT %s %s %s\n", nm, rel(abs), f->kind); if (!strcmp(f->kind, "crash")) die_now(nm); errno = err_of(f->kind); return -1; }
    logev("%s %s\n", nm, rel(abs));
  }
  return (int)fin(R4(sysno, dfd, path, a2, 0));
}
int mkdir(const char *p, mode_t m) { return pathop(OP_MKDIR, AT_FDCWD, p, SYS_mkdirat, m, "mkdir"); }
int mkdirat(int d, const char *p, mode_t m) { return pathop(OP_MKDIR, d, p, SYS_mkdirat, m, "mkdir"); }
int unlink(const char *p) { return pathop(OP_UNLINK, AT_FDCWD, p, SYS_unlinkat, 0, "unlink"); }
int rmdir(const char *p) { return pathop(OP_UNLINK, AT_FDCWD, p, SYS_unlinkat, AT_REMOVEDIR, "rmdir"); }
int unlinkat(int d, const char *p, int fl) { return pathop(OP_UNLINK, d, p, SYS_unlinkat, fl, fl & AT_REMOVEDIR ? "rmdir" : "unlink"); }
static int two(const char *nm, const char *a, const char *b, long sysno) {
  char x[4096], y[4096]; absnorm(AT_FDCWD, a, x, sizeof x); absnorm(AT_FDCWD, b, y, sizeof y);
  if (active) {
    if (outside(x) || outside(y)) { logev("DENIED %s %s %s\n", nm, x, y); errno = EACCES; return -1; }
    struct fault *f = hit(OP_UNLINK);
    if (f) { logev("FAULT %s %s\n", nm, f->kind); if (!strcmp(f->kind, "crash")) die_now(nm); errno = err_of(f->kind); return -1; }
    logev("%s %s %s\n", nm, rel(x), rel(y));
  }
  return (int)fin(R3(sysno, a, b, 0));
}
int rename(const char *a, const char *b) { return two("rename", a, b, SYS_rename); }
int link(const char *a, const char *b) { return two("link", a, b, SYS_link); }
int symlink(const char *a, const char *b) { return two("symlink", a, b, SYS_symlink); }
int truncate(const char *p, off_t n) { char x[4096]; absnorm(AT_FDCWD, p, x, sizeof x); if (active && outside(x)) { logev("DENIED truncate %s\n", x); errno = EACCES; return -1; } return (int)fin(R3(SYS_truncate, p, n, 0)); }
int chmod(const char *p, mode_t m) { char x[4096]; absnorm(AT_FDCWD, p, x, sizeof x); if (active && outside(x)) { logev("DENIED chmod %s\n", x); errno = EACCES; return -1; } return (int)fin(R3(SYS_chmod, p, m, 0)); }
int kill(pid_t p, int s) { if (active && p != (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0)) { logev("DENIED kill %d\n", (int)p); errno = EPERM; return -1; } return (int)fin(R3(SYS_kill, p, s, 0)); }
// ---------------------------------------------------------------- child processes
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  static int (*real)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const *, char *const *) = 0;
  if (!real) real = dlsym(RTLD_NEXT, "posix_spawnp");
  if (active) {
    struct fault *f = hit(OP_SPAWN);
    if (f) { logev("FAULT spawn %s %s\n", file, f->kind); if (!strcmp(f->kind, "crash")) die_now("spawn"); return err_of(f->kind); }
    logev("spawn %s\n", file);
  }
  return real(pid, file, fa, at, argv, envp);
}
// ---------------------------------------------------------------- memory
extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
void *malloc(size_t n) {
  if (active) { struct fault *f = hit(OP_ALLOC); if (f) { logev("FAULT alloc %zu\n", n); errno = ENOMEM; return 0; } }
  return __libc_malloc(n);
}
void *realloc(void *p, size_t n) {
  if (active) { struct fault *f = hit(OP_ALLOC); if (f) { logev("FAULT realloc %zu\n", n); errno = ENOMEM; return 0; } }
  return __libc_realloc(p, n);
}

// Observes, and on demand disturbs, the file operations of one process.
//
//   BMON_LOG    file that receives one line per event
//   BMON_ROOT   events of paths below this directory (absolute) can be faulted
//   BMON_FAULT  "<n>:<what>[:sticky]": the n-th event that can be faulted (from
//               0) fails with errno <what>, or is cut short if <what> is
//               "short", or returns end of file if it is "eof"; with sticky,
//               so does every later event of the same kind on the same file
//   BMON_TIME   seconds to add to the clock
//   BMON_STDIO  if set, writes to stdout and stderr are events that can be faulted
//
// Lines: "<n or -> <op> <result> <path>"; a mutating operation is logged before
// it is carried out as "! <op> <path>".
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static char *fdpath[MAXFD];
static int logfd = -1;
static const char *root;
static long fault_n = -1;
static int fault_errno, fault_short, fault_eof, sticky, stdio_too;
static char *stuck_path, stuck_op;
static long counter;
static int ready;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *l = getenv("BMON_LOG");
  root = getenv("BMON_ROOT");
  stdio_too = getenv("BMON_STDIO") != NULL;
  const char *f = getenv("BMON_FAULT");
  if (l) {
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (fd >= 0) {
      logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
      if (logfd < 0) logfd = fd; else syscall(SYS_close, fd);
    }
  }
  if (f) {
    char *e;
    fault_n = strtol(f, &e, 10);
    if (*e == ':') {
      e++;
      if (!strncmp(e, "short", 5)) fault_short = 1;
      else if (!strncmp(e, "eof", 3)) fault_eof = 1;
      else fault_errno = atoi(e);
      sticky = strstr(e, "sticky") != NULL;
    }
  }
}
__attribute__((constructor)) static void start(void) { init(); }

static void say(const char *fmt, ...) {
  if (logfd < 0) return;
  char b[PATH_MAX * 2 + 64];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  for (int i = 0; i < n; i++) if (b[i] == '\n') b[i] = '?';
  b[n++] = '\n';
  syscall(SYS_write, logfd, b, n);
}

static void absolute(int dirfd, const char *p, char *out) {
  if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return; }
  char d[PATH_MAX] = "";
  if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, d, sizeof d) < 0) d[0] = 0; }
  else {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    long k = syscall(SYS_readlinkat, AT_FDCWD, l, d, sizeof d - 1);
    d[k > 0 ? k : 0] = 0;
  }
  size_t n = strlen(d);
  memcpy(out, d, n);
  snprintf(out + n, PATH_MAX - n, "/%s", p);
}

static int inside(const char *p) {
  if (!root || !p) return 0;
  size_t n = strlen(root);
  return !strncmp(p, root, n) && (p[n] == '/' || p[n] == 0);
}

// What to do with an event: 0 nothing, >0 errno, -1 short, -2 end of file.
static int decide(char op, const char *path, long *n) {
  *n = counter++;
  int hit = *n == fault_n;
  if (!hit && sticky && stuck_path && op == stuck_op && !strcmp(path, stuck_path)) hit = 1;
  if (!hit) return 0;
  if (sticky && !stuck_path) { stuck_path = strdup(path); stuck_op = op; }
  return fault_short ? -1 : fault_eof ? -2 : fault_errno;
}

static void track(int fd, const char *p) {
  if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = p ? strdup(p) : NULL; }
}

static int open_any(int dirfd, const char *path, int flags, mode_t mode) {
  init();
  char p[PATH_MAX];
  absolute(dirfd, path, p);
  int mutates = (flags & (O_CREAT | O_TRUNC | O_APPEND)) || (flags & O_ACCMODE) != O_RDONLY;
  pthread_mutex_lock(&mu);
  long n = -1;
  int what = 0;
  if (inside(p)) what = decide('o', p, &n);
  if (mutates) say("! open %s", p);
  int fd, e;
  if (what > 0) { fd = -1; e = what; }
  else { fd = syscall(SYS_openat, dirfd, path, flags, mode); e = errno; }
  if (fd >= 0) track(fd, n >= 0 ? p : NULL);
  if (n >= 0) say("%ld %s %d %s", n, mutates ? "openw" : "openr", fd >= 0 ? 0 : e, p);
  pthread_mutex_unlock(&mu);
  if (fd < 0) errno = e;
  return fd;
}

#define OPEN(name, pre, dirfd)                               \
  int name(pre const char *path, int flags, ...) {           \
    mode_t m = 0;                                            \
    if (flags & (O_CREAT | O_TMPFILE)) {                     \
      va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); \
    }                                                        \
    return open_any(dirfd, path, flags, m);                  \
  }
#define COMMA ,
OPEN(open, , AT_FDCWD)
OPEN(open64, , AT_FDCWD)
OPEN(openat, int d COMMA, d)
OPEN(openat64, int d COMMA, d)
int creat(const char *p, mode_t m) { return open_any(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open_any(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static const char *name_of(int fd) {
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) return fdpath[fd];
  if (stdio_too && fd == 1) return "<stdout>";
  if (stdio_too && fd == 2) return "<stderr>";
  return NULL;
}

static ssize_t io(char op, int fd, const struct iovec *v, int cnt, off_t off, int at) {
  init();
  const char *p = name_of(fd);
  long nr = op == 'r' ? (at ? SYS_preadv : SYS_readv) : (at ? SYS_pwritev : SYS_writev);
  if (!p) return at ? syscall(nr, fd, v, cnt, off, 0) : syscall(nr, fd, v, cnt);
  pthread_mutex_lock(&mu);
  long n;
  size_t total = 0;
  for (int i = 0; i < cnt; i++) total += v[i].iov_len;
  int what = decide(op, p, &n), e = 0;
  ssize_t r;
  if (what > 0) { r = -1; e = what; }
  else if (what == -2) r = 0;
  else if (what == -1 && total > 1) {
    struct iovec one = {0};
    for (int i = 0; i < cnt; i++) if (v[i].iov_len) { one = v[i]; break; }
    if (one.iov_len > 1) one.iov_len = one.iov_len / 2;
    r = at ? syscall(nr, fd, &one, 1, off, 0) : syscall(nr, fd, &one, 1);
    e = errno;
  } else {
    r = at ? syscall(nr, fd, v, cnt, off, 0) : syscall(nr, fd, v, cnt);
    e = errno;
  }
  say("%ld %s %ld %s", n, op == 'r' ? "read" : "write", r < 0 ? (long)-e : (long)r, p);
  pthread_mutex_unlock(&mu);
  if (r < 0) errno = e;
  return r;
}
ssize_t read(int fd, void *b, size_t n) { struct iovec v = {b, n}; return io('r', fd, &v, 1, 0, 0); }
ssize_t write(int fd, const void *b, size_t n) { struct iovec v = {(void *)b, n}; return io('w', fd, &v, 1, 0, 0); }
ssize_t readv(int fd, const struct iovec *v, int n) { return io('r', fd, v, n, 0, 0); }
ssize_t writev(int fd, const struct iovec *v, int n) { return io('w', fd, v, n, 0, 0); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { struct iovec v = {b, n}; return io('r', fd, &v, 1, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { struct iovec v = {(void *)b, n}; return io('w', fd, &v, 1, o, 1); }
int close(int fd) {
  pthread_mutex_lock(&mu);
  track(fd, NULL);
  pthread_mutex_unlock(&mu);
  return syscall(SYS_close, fd);
}

static void mut(const char *op, int dirfd, const char *path) {
  init();
  char p[PATH_MAX];
  absolute(dirfd, path, p);
  pthread_mutex_lock(&mu);
  say("! %s %s", op, p);
  pthread_mutex_unlock(&mu);
}
static void mutfd(const char *op, int fd) {
  init();
  char l[64], d[PATH_MAX];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  long k = syscall(SYS_readlinkat, AT_FDCWD, l, d, sizeof d - 1);
  d[k > 0 ? k : 0] = 0;
  pthread_mutex_lock(&mu);
  say("! %s %s", op, d);
  pthread_mutex_unlock(&mu);
}
int unlink(const char *p) { mut("unlink", AT_FDCWD, p); return syscall(SYS_unlink, p); }
int unlinkat(int d, const char *p, int f) { mut("unlink", d, p); return syscall(SYS_unlinkat, d, p, f); }
int rmdir(const char *p) { mut("rmdir", AT_FDCWD, p); return syscall(SYS_rmdir, p); }
int mkdir(const char *p, mode_t m) { mut("mkdir", AT_FDCWD, p); return syscall(SYS_mkdir, p, m); }
int mkdirat(int d, const char *p, mode_t m) { mut("mkdir", d, p); return syscall(SYS_mkdirat, d, p, m); }
int rename(const char *a, const char *b) { mut("rename", AT_FDCWD, a); mut("rename", AT_FDCWD, b); return syscall(SYS_rename, a, b); }
int renameat(int d, const char *a, int e, const char *b) { mut("rename", d, a); mut("rename", e, b); return syscall(SYS_renameat, d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { mut("rename", d, a); mut("rename", e, b); return syscall(SYS_renameat2, d, a, e, b, f); }
int link(const char *a, const char *b) { mut("link", AT_FDCWD, b); return syscall(SYS_link, a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { mut("link", e, b); return syscall(SYS_linkat, d, a, e, b, f); }
int symlink(const char *a, const char *b) { mut("symlink", AT_FDCWD, b); return syscall(SYS_symlink, a, b); }
int symlinkat(const char *a, int e, const char *b) { mut("symlink", e, b); return syscall(SYS_symlinkat, a, e, b); }
int chmod(const char *p, mode_t m) { mut("chmod", AT_FDCWD, p); return syscall(SYS_chmod, p, m); }
int fchmod(int fd, mode_t m) { mutfd("chmod", fd); return syscall(SYS_fchmod, fd, m); }
int truncate(const char *p, off_t n) { mut("truncate", AT_FDCWD, p); return syscall(SYS_truncate, p, n); }
int truncate64(const char *p, off_t n) { mut("truncate", AT_FDCWD, p); return syscall(SYS_truncate, p, n); }
int ftruncate(int fd, off_t n) { mutfd("truncate", fd); return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { mutfd("truncate", fd); return syscall(SYS_ftruncate, fd, n); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { mut("utime", d, p); return syscall(SYS_utimensat, d, p, t, f); }
int futimens(int fd, const struct timespec t[2]) { mutfd("utime", fd); return syscall(SYS_utimensat, fd, NULL, t, 0); }
int execve(const char *p, char *const a[], char *const e[]) { mut("exec", AT_FDCWD, p); return syscall(SYS_execve, p, a, e); }

static long shift(void) {
  static long v; static int known;
  if (!known) { const char *t = getenv("BMON_TIME"); v = t ? atol(t) : 0; known = 1; }
  return v;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  int r = syscall(SYS_clock_gettime, c, t);
  if (r == 0) t->tv_sec += shift();
  return r;
}
int gettimeofday(struct timeval *t, void *z) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}

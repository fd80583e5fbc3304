// LD_PRELOAD shim, active only in the program named cargo-mutants (it is inherited by children but
// disables itself there).
//   VP_SLEEP=k     real sleeps are k times shorter (the polling interval of the child process)
//   VP_CLOCK=file  8-byte file: nanoseconds added to the monotonic clock; the stub cargo advances it
//   VP_COUNT=file  8-byte file: number of file-changing calls made so far
//   VP_FAULT=n:e   the n-th file-changing call fails with errno e; e=0 kills the process there;
//                  e<0 sends signal -e to the process itself and goes on
//   VP_MATCH=s / VP_SKIP=s  only count calls whose path contains / does not contain this
//   VP_READS=1     also count opening files and directories for reading, reading regular files, locking
//                  files and starting children
//   VP_STICKY=1    every call from the n-th on fails, if it is of a kind that needs disk space or a lock
//   VP_SIGMARK=file  created just before the signal is sent
//   VP_OPLOG=file  log of file-changing calls: one line "name path" each
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
static double scale_by = 1.0;
static int on = 0, reads = 0, sticky = 0;
static volatile int64_t *offset_ns = 0, *count = 0;
static int64_t fault_at = -1;
static int fault_errno = 0;
static int logfd = -1;
static const char *match = 0, *skip = 0;
#define REAL(name) ({ static __typeof__(&name) p; if (!p) p = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p; })

static volatile int64_t *map8(const char *path) {
  int fd = REAL(open)(path, O_RDWR);
  if (fd < 0) return 0;
  void *m = mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  return m == MAP_FAILED ? 0 : (volatile int64_t *)m;
}
__attribute__((constructor)) static void init(void) {
  if (strcmp(program_invocation_short_name, "cargo-mutants") != 0) return;
  const char *s = getenv("VP_SLEEP");
  if (s) scale_by = atof(s);
  on = scale_by > 1.0;
  if ((s = getenv("VP_CLOCK"))) offset_ns = map8(s);
  if ((s = getenv("VP_COUNT"))) count = map8(s);
  if ((s = getenv("VP_OPLOG"))) logfd = REAL(open)(s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  match = getenv("VP_MATCH");
  reads = getenv("VP_READS") != 0;
  sticky = getenv("VP_STICKY") != 0;
  skip = getenv("VP_SKIP");
  if ((s = getenv("VP_FAULT"))) {
    fault_at = atoll(s);
    const char *c = strchr(s, ':');
    fault_errno = c ? atoi(c + 1) : 0;
  }
}
int clock_gettime(clockid_t c, struct timespec *t) {
  int r = REAL(clock_gettime)(c, t);
  if (offset_ns && r == 0 && (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME)) {
    int64_t o = *offset_ns;
    t->tv_sec += o / 1000000000;
    t->tv_nsec += o % 1000000000;
    if (t->tv_nsec >= 1000000000) {
      t->tv_sec++;
      t->tv_nsec -= 1000000000;
    }
  }
  return r;
}
static void scale(const struct timespec *a, struct timespec *b) {
  double s = ((double)a->tv_sec + (double)a->tv_nsec * 1e-9) / scale_by;
  b->tv_sec = (time_t)s;
  b->tv_nsec = (long)((s - (double)b->tv_sec) * 1e9);
}
int nanosleep(const struct timespec *a, struct timespec *rem) {
  if (!on) return REAL(nanosleep)(a, rem);
  struct timespec b;
  scale(a, &b);
  return REAL(nanosleep)(&b, rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *a, struct timespec *rem) {
  if (!on || flags != 0) return REAL(clock_nanosleep)(c, flags, a, rem);
  struct timespec b;
  scale(a, &b);
  return REAL(clock_nanosleep)(c, flags, &b, rem);
}
// Returns 1 if this call must fail (errno is set).
static int step(const char *what, const char *path, int fd) {
  if (!count) return 0;
  char pathbuf[4200], lnk[64];
  if (!path) {
    snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(lnk, pathbuf, sizeof pathbuf - 1);
    pathbuf[k > 0 ? k : 0] = 0;
    path = pathbuf;
  }
  if ((match && !strstr(path, match)) || (skip && strstr(path, skip))) return 0;
  int64_t n = __atomic_add_fetch(count, 1, __ATOMIC_SEQ_CST);
  if (logfd >= 0) {
    char buf[5000];
    int k0 = snprintf(buf, sizeof buf - 2, "%s%s %s", n == fault_at ? "!" : "", what, path);
    if (k0 > (int)sizeof buf - 2) k0 = sizeof buf - 2;
    buf[k0++] = '\n';
    if (REAL(write)(logfd, buf, k0) < 0) {}
  }
  if (n == fault_at) {
    if (fault_errno == 0) {
      kill(getpid(), SIGKILL);
      for (;;) pause();
    }
    if (fault_errno < 0) {
      const char *m = getenv("VP_SIGMARK");
      if (m) {
        int f = REAL(open)(m, O_WRONLY | O_CREAT | O_CLOEXEC, 0644);
        if (f >= 0) close(f);
      }
      kill(getpid(), -fault_errno);
      return 0;
    }
    errno = fault_errno;
    return 1;
  }
  if (sticky && n > fault_at && fault_at > 0 && fault_errno > 0 && strcmp(what, "unlink") && strcmp(what, "unlinkat") && strcmp(what, "rmdir") && strncmp(what, "read", 4) &&
      strcmp(what, "opendir") && strcmp(what, "rename") && strcmp(what, "spawn") && strcmp(what, "chmod") && strcmp(what, "fchmod") &&
      !strcmp(what, "lock") == (fault_errno == ENOLCK)) {
    errno = fault_errno;
    return 1;
  }
  return 0;
}
#define WR(flags) (((flags) & O_ACCMODE) != O_RDONLY)
int open(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (strncmp(p, "/dev/", 5) && (WR(flags) ? step("open", p, 0) : reads && step("readopen", p, 0))) return -1;
  return REAL(open)(p, flags, mode);
}
int open64(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (strncmp(p, "/dev/", 5) && (WR(flags) ? step("open", p, 0) : reads && step("readopen", p, 0))) return -1;
  return REAL(open64)(p, flags, mode);
}
int openat64(int d, const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (WR(flags) && step("open", p, 0)) return -1;
  return REAL(openat64)(d, p, flags, mode);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (fd > 2 && count) {
    struct stat st;
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && step("write", 0, fd)) return -1;
  }
  return REAL(write)(fd, b, n);
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  if (step("copy", 0, b)) return -1;
  return REAL(copy_file_range)(a, ao, b, bo, n, f);
}
int rename(const char *a, const char *b) { return step("rename", b, 0) ? -1 : REAL(rename)(a, b); }
int mkdir(const char *a, mode_t m) { return step("mkdir", a, 0) ? -1 : REAL(mkdir)(a, m); }
int symlink(const char *a, const char *b) { return step("symlink", b, 0) ? -1 : REAL(symlink)(a, b); }
int unlink(const char *a) { return step("unlink", a, 0) ? -1 : REAL(unlink)(a); }
int rmdir(const char *a) { return step("rmdir", a, 0) ? -1 : REAL(rmdir)(a); }
int unlinkat(int d, const char *a, int f) { return step("unlinkat", a, 0) ? -1 : REAL(unlinkat)(d, a, f); }
int chmod(const char *a, mode_t m) { return step("chmod", a, 0) ? -1 : REAL(chmod)(a, m); }
int fchmod(int fd, mode_t m) { return step("fchmod", 0, fd) ? -1 : REAL(fchmod)(fd, m); }
ssize_t read(int fd, void *b, size_t n) {
  if (reads && fd > 2 && count) {
    struct stat st;
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && step("read", 0, fd)) return -1;
  }
  return REAL(read)(fd, b, n);
}
DIR *opendir(const char *p) { return reads && step("opendir", p, 0) ? 0 : REAL(opendir)(p); }
int flock(int fd, int op) { return reads && (op & LOCK_EX) && step("lock", 0, fd) ? -1 : REAL(flock)(fd, op); }
int posix_spawnp(pid_t *pid, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const *av, char *const *ev) {
  if (reads && step("spawn", match ? match : p, 0)) return errno;
  return REAL(posix_spawnp)(pid, p, fa, at, av, ev);
}

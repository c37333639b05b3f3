/* LD_PRELOAD fault injector: counts the calls that touch files below SHIM_ROOT and makes the
 * SHIM_K-th one misbehave. SHIM_ACT: fail (EIO/ENOSPC), failfrom, zero (transfers nothing),
 * short (transfers less), eintr, kill (die before the call), tear (do half of a write, then die),
 * after (do the call, then die), mutate (before the call, resize SHIM_FILE to SHIM_SIZE or remove it). SHIM_LOG receives one line per call. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, FAIL, FAILFROM, ZERO, SHORT, EINTRA, KILL, TEAR, AFTER, MUTATE };
static int act = NONE, logfd = -1;
static long k = -1, n = 0;
static char root[4096];
static size_t rootlen;
static int ready;

static void init(void) {
    if (ready) return;
    ready = 1;
    const char *r = getenv("SHIM_ROOT"), *a = getenv("SHIM_ACT"), *kk = getenv("SHIM_K"), *l = getenv("SHIM_LOG");
    if (!r) return;
    strncpy(root, r, sizeof root - 1);
    rootlen = strlen(root);
    if (kk) k = atol(kk);
    if (a) {
        const char *names[] = {"none", "fail", "failfrom", "zero", "short", "eintr", "kill", "tear", "after", "mutate"};
        for (int i = 0; i < 10; i++)
            if (!strcmp(a, names[i])) act = i;
    }
    if (l) {
        logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (logfd >= 0) {
            int hi = syscall(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 500);
            if (hi >= 0) { syscall(SYS_close, logfd); logfd = hi; }
        }
    }
}

static int below(const char *p) { return rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }

static int path_ok(const char *p) {
    init();
    if (!rootlen || !p) return 0;
    if (p[0] == '/') return below(p);
    char cwd[4096];
    if (syscall(SYS_getcwd, cwd, sizeof cwd) <= 0) return 0;
    return below(cwd);
}

static int fd_path(int fd, char *buf, size_t len) {
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t m = syscall(SYS_readlinkat, AT_FDCWD, link, buf, len - 1);
    if (m <= 0) return 0;
    buf[m] = 0;
    return 1;
}

static int fd_ok(int fd) {
    init();
    if (!rootlen || fd <= 2 || fd == logfd) return 0;
    char p[4096];
    return fd_path(fd, p, sizeof p) && below(p);
}

/* returns the action for this call */
static int hit(const char *what, const char *obj) {
    long me = n++;
    int on = me == k || (act == FAILFROM && me >= k);
    if (logfd >= 0) {
        char line[4400];
        int m = snprintf(line, sizeof line, "%ld %s %s%s\n", me, what, obj ? obj : "", on && act != NONE ? " *" : "");
        if (m > (int)sizeof line) m = sizeof line;
        syscall(SYS_write, logfd, line, m);
    }
    if (!on || act == NONE) return NONE;
    if (act == KILL) { syscall(SYS_kill, getpid(), SIGKILL); }
    if (act == MUTATE) {
        const char *f = getenv("SHIM_FILE"), *z = getenv("SHIM_SIZE");
        if (f && z) {
            int e = errno;
            if (atol(z) < 0) syscall(SYS_unlinkat, AT_FDCWD, f, 0);
            else syscall(SYS_truncate, f, atol(z));
            errno = e;
        }
        return NONE;
    }
    return act;
}
static int hit_fd(const char *what, int fd) {
    char p[4096];
    return hit(what, fd_path(fd, p, sizeof p) ? p + (rootlen < strlen(p) ? rootlen : 0) : "?");
}
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); }

#define REAL(name) ((typeof(&name))dlsym(RTLD_NEXT, #name))
#define FAILS(a) ((a) == FAIL || (a) == FAILFROM)

ssize_t read(int fd, void *b, size_t c) {
    if (!fd_ok(fd)) return REAL(read)(fd, b, c);
    int a = hit_fd("read", fd);
    if (FAILS(a)) { errno = EIO; return -1; }
    if (a == EINTRA) { errno = EINTR; return -1; }
    if (a == ZERO) return 0;
    if (a == SHORT && c > 1) c = (c + 1) / 2;
    ssize_t r = REAL(read)(fd, b, c);
    if (a == AFTER || a == TEAR) die();
    if (a == SHORT && r > 1) { /* give back less than was there */
        ssize_t keep = r / 2;
        lseek(fd, keep - r, SEEK_CUR);
        return keep;
    }
    return r;
}

ssize_t pread64(int fd, void *b, size_t c, off64_t o) {
    if (!fd_ok(fd)) return REAL(pread64)(fd, b, c, o);
    int a = hit_fd("pread", fd);
    if (FAILS(a)) { errno = EIO; return -1; }
    if (a == EINTRA) { errno = EINTR; return -1; }
    if (a == ZERO) return 0;
    if (a == SHORT && c > 1) c /= 2;
    ssize_t r = REAL(pread64)(fd, b, c, o);
    if (a == AFTER || a == TEAR) die();
    return r;
}

ssize_t readv(int fd, const struct iovec *v, int m) {
    if (!fd_ok(fd)) return REAL(readv)(fd, v, m);
    int a = hit_fd("readv", fd);
    if (FAILS(a)) { errno = EIO; return -1; }
    if (a == EINTRA) { errno = EINTR; return -1; }
    if (a == ZERO) return 0;
    if (a == SHORT) m = 1;
    ssize_t r = REAL(readv)(fd, v, m);
    if (a == AFTER || a == TEAR) die();
    return r;
}

static ssize_t put(int fd, const void *b, size_t c, int a) {
    if (FAILS(a)) { errno = ENOSPC; return -1; }
    if (a == EINTRA) { errno = EINTR; return -1; }
    if (a == ZERO) return 0;
    if ((a == SHORT || a == TEAR) && c > 1) c /= 2;
    ssize_t r = REAL(write)(fd, b, c);
    if (a == AFTER || a == TEAR) die();
    return r;
}

ssize_t write(int fd, const void *b, size_t c) {
    if (!fd_ok(fd)) return REAL(write)(fd, b, c);
    return put(fd, b, c, hit_fd("write", fd));
}

ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) {
    if (!fd_ok(fd)) return REAL(pwrite64)(fd, b, c, o);
    int a = hit_fd("pwrite", fd);
    if (FAILS(a)) { errno = ENOSPC; return -1; }
    if (a == EINTRA) { errno = EINTR; return -1; }
    if (a == ZERO) return 0;
    if ((a == SHORT || a == TEAR) && c > 1) c /= 2;
    ssize_t r = REAL(pwrite64)(fd, b, c, o);
    if (a == AFTER || a == TEAR) die();
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int m) {
    if (!fd_ok(fd)) return REAL(writev)(fd, v, m);
    int a = hit_fd("writev", fd);
    if (FAILS(a)) { errno = ENOSPC; return -1; }
    if (a == EINTRA) { errno = EINTR; return -1; }
    if (a == ZERO) return 0;
    if (a == SHORT || a == TEAR) return put(fd, v[0].iov_base, v[0].iov_len, a);
    ssize_t r = REAL(writev)(fd, v, m);
    if (a == AFTER) die();
    return r;
}

ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t c, unsigned f) {
    if (!fd_ok(i) && !fd_ok(o)) return REAL(copy_file_range)(i, oi, o, oo, c, f);
    int a = hit_fd("copy_file_range", o);
    if (FAILS(a)) { errno = EIO; return -1; }
    if (a == EINTRA) { errno = EINTR; return -1; }
    if (a == ZERO) return 0;
    if ((a == SHORT || a == TEAR) && c > 1) c = c > 4096 ? 1000 : (c + 1) / 2;
    ssize_t r = REAL(copy_file_range)(i, oi, o, oo, c, f);
    if (a == AFTER || a == TEAR) die();
    return r;
}

ssize_t sendfile64(int o, int i, off64_t *oi, size_t c) {
    if (!fd_ok(i) && !fd_ok(o)) return REAL(sendfile64)(o, i, oi, c);
    int a = hit_fd("sendfile", o);
    if (FAILS(a)) { errno = EIO; return -1; }
    if (a == EINTRA) { errno = EINTR; return -1; }
    if (a == ZERO) return 0;
    if ((a == SHORT || a == TEAR) && c > 1) c = c > 4096 ? 1000 : (c + 1) / 2;
    ssize_t r = REAL(sendfile64)(o, i, oi, c);
    if (a == AFTER || a == TEAR) die();
    return r;
}

static int want_mode(int fl) { return (fl & O_CREAT) || (fl & O_TMPFILE) == O_TMPFILE; }

static int do_open(const char *p, int fl, mode_t m) {
    if (path_ok(p)) {
        int a = hit(fl & O_DIRECTORY ? "opendir" : (fl & O_ACCMODE) == O_RDONLY ? "open" : "openw", p);
        if (FAILS(a)) { errno = EIO; return -1; }
        if (a == EINTRA) { errno = EINTR; return -1; }
        int r = syscall(SYS_openat, AT_FDCWD, p, fl, m);
        if (a == AFTER) die();
        return r;
    }
    return syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open(const char *p, int fl, ...) {
    mode_t m = 0;
    if (want_mode(fl)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(p, fl, m);
}
int open64(const char *p, int fl, ...) {
    mode_t m = 0;
    if (want_mode(fl)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(p, fl, m);
}

#define PATH1(ret, name, args, call, p) \
    ret name args { \
        if (!path_ok(p)) return REAL(name) call; \
        int a = hit(#name, p); \
        if (FAILS(a)) { errno = EIO; return -1; } \
        ret r = REAL(name) call; \
        if (a == AFTER) die(); \
        return r; \
    }
PATH1(int, mkdir, (const char *p, mode_t m), (p, m), p)
PATH1(int, unlink, (const char *p), (p), p)
PATH1(int, rmdir, (const char *p), (p), p)
PATH1(int, rename, (const char *p, const char *q), (p, q), p)

int ftruncate64(int fd, off64_t l) {
    if (!fd_ok(fd)) return REAL(ftruncate64)(fd, l);
    int a = hit_fd("ftruncate", fd);
    if (FAILS(a)) { errno = EIO; return -1; }
    int r = REAL(ftruncate64)(fd, l);
    if (a == AFTER) die();
    return r;
}
int fsync(int fd) {
    if (!fd_ok(fd)) return REAL(fsync)(fd);
    int a = hit_fd("fsync", fd);
    if (FAILS(a)) { errno = EIO; return -1; }
    int r = REAL(fsync)(fd);
    if (a == AFTER) die();
    return r;
}
off64_t lseek64(int fd, off64_t o, int w) {
    if (!fd_ok(fd)) return REAL(lseek64)(fd, o, w);
    int a = hit_fd("lseek", fd);
    if (FAILS(a)) { errno = EIO; return -1; }
    return REAL(lseek64)(fd, o, w);
}
struct dirent64 *readdir64(DIR *d) {
    if (!fd_ok(dirfd(d))) return REAL(readdir64)(d);
    int a = hit_fd("readdir", dirfd(d));
    if (FAILS(a)) { errno = EIO; return NULL; }
    return REAL(readdir64)(d);
}
int statx(int dfd, const char *p, int fl, unsigned mask, struct statx *b) {
    const char *volatile vp = p; /* std probes with a null path */
    if (!vp) return syscall(SYS_statx, dfd, vp, fl, mask, b);
    int mine = p[0] ? (dfd == AT_FDCWD ? path_ok(p) : fd_ok(dfd)) : fd_ok(dfd);
    if (!mine) return REAL(statx)(dfd, p, fl, mask, b);
    int a = hit("statx", p[0] ? p : "fd");
    if (FAILS(a)) { errno = EIO; return -1; }
    return REAL(statx)(dfd, p, fl, mask, b);
}
/* only the duplication of descriptors */
static int dup_call(int fd, int cmd, long arg) {
    if (fd_ok(fd)) {
        int a = hit_fd("dup", fd);
        if (FAILS(a)) { errno = EMFILE; return -1; }
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    va_list l;
    va_start(l, cmd);
    long arg = va_arg(l, long);
    va_end(l);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup_call(fd, cmd, arg);
    return REAL(fcntl64)(fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) {
    va_list l;
    va_start(l, cmd);
    long arg = va_arg(l, long);
    va_end(l);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup_call(fd, cmd, arg);
    return REAL(fcntl)(fd, cmd, arg);
}

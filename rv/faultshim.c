/* libc interposer: counts the file operations on paths below an armed prefix and makes the k-th of
 * them fail, be cut short, or kill the process.  Armed through ctypes; inert otherwise. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, COUNT, ERR, KILL_BEFORE, KILL_AFTER, KILL_PARTIAL, SHORT, ERR_PARTIAL, ERR_FROM, ERR_AFTER };

static volatile int mode = OFF;
static volatile long counter = 0, target = 0;
static volatile int err = 5, fired = 0, count_reads = 0;
static char prefix[PATH_MAX];
static size_t plen = 0;
static char ops[8192];
static unsigned char fdw[65536]; /* 1: under the prefix, opened for writing; 2: for reading */

int rv_present(void) { return 1; }

void rv_arm(const char *p, int m, long k, int e, int reads) {
    mode = OFF;
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    counter = 0;
    target = k;
    err = e;
    fired = 0;
    count_reads = reads;
    memset(ops, 0, sizeof ops);
    memset(fdw, 0, sizeof fdw);
    mode = m;
}

long rv_disarm(char *out, long n) {
    mode = OFF;
    if (out && n > 0) {
        long c = counter < (long)sizeof ops - 1 ? counter : (long)sizeof ops - 1;
        if (c > n - 1) c = n - 1;
        memcpy(out, ops, c);
        out[c] = 0;
    }
    return counter;
}

int rv_fired(void) { return fired; }

static int under(int dirfd, const char *path) {
    char buf[PATH_MAX * 2];
    if (!path || mode == OFF) return 0;
    if (path[0] == '/') return strncmp(path, prefix, plen) == 0;
    if (dirfd == AT_FDCWD) {
        if (!getcwd(buf, PATH_MAX)) return 0;
    } else {
        char link[64];
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(link, buf, PATH_MAX);
        if (n < 0) return 0;
        buf[n] = 0;
    }
    strncat(buf, "/", 2);
    return strncmp(buf, prefix, plen) == 0;
}

static void die(void) {
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;) pause();
}

/* what to do for this operation: 0 proceed, 1 fail with err, 2 die after, 3 partial then die,
 * 4 short, 5 partial then fail from now on, 6 perform and then report failure */
static int hit(char op) {
    if (mode == OFF) return 0;
    long c = __sync_add_and_fetch(&counter, 1);
    if (c < (long)sizeof ops) ops[c - 1] = op;
    if (mode == ERR_FROM && c >= target) { fired = op; return 1; }
    if (mode == ERR_PARTIAL && c > target && fired && (op == 'w' || op == 'c')) return op == 'w' ? 1 : 0;
    if (c != target || mode == COUNT) return 0;
    fired = op;
    switch (mode) {
    case ERR: return 1;
    case KILL_BEFORE: die();
    case KILL_AFTER: return 2;
    case KILL_PARTIAL: return op == 'w' ? 3 : 2;
    case SHORT: return op == 'w' ? 4 : 0;
    case ERR_PARTIAL: return op == 'w' ? 5 : 1;
    case ERR_AFTER: return 6;
    }
    return 0;
}

#define REAL(type, name, ...) \
    static type (*real)(__VA_ARGS__); \
    if (!real) real = (type(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name);

#define SIMPLE(op, call) \
    { int h_ = hit(op); \
      if (h_ == 1 || h_ == 5) { errno = err; return -1; } \
      __typeof__(call) r_ = call; \
      if (h_ == 2 || h_ == 3) die(); \
      if (h_ == 6 && r_ != -1) { errno = err; return -1; } \
      return r_; }

static int after_open(int fd, int flags, int h) {
    if (fd >= 0 && fd < (int)sizeof fdw) fdw[fd] = (flags & O_ACCMODE) == O_RDONLY ? 2 : 1;
    if (h == 2 || h == 3) die();
    return fd;
}

#define OPEN_BODY(dirfd, realcall) \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (mode == OFF || !under(dirfd, path)) { \
        int fd0 = realcall; \
        if (mode != OFF && fd0 >= 0 && fd0 < (int)sizeof fdw) fdw[fd0] = 0; \
        return fd0; } \
    int wr = (flags & O_ACCMODE) != O_RDONLY; \
    if (!wr && (!count_reads || (flags & O_DIRECTORY))) { int fd0 = realcall; if (fd0 >= 0 && fd0 < (int)sizeof fdw) fdw[fd0] = 0; return fd0; } \
    int h = hit(wr ? 'o' : 'O'); \
    if (h == 1 || h == 5) { errno = err; return -1; } \
    int fd = after_open(realcall, flags, h); \
    if (h == 6 && fd >= 0) { syscall(SYS_close, fd); errno = err; return -1; } \
    return fd;

int open(const char *path, int flags, ...) {
    REAL(int, "open", const char *, int, ...)
    OPEN_BODY(AT_FDCWD, real(path, flags, m))
}
int open64(const char *path, int flags, ...) {
    REAL(int, "open64", const char *, int, ...)
    OPEN_BODY(AT_FDCWD, real(path, flags, m))
}
int openat(int dirfd, const char *path, int flags, ...) {
    REAL(int, "openat", int, const char *, int, ...)
    OPEN_BODY(dirfd, real(dirfd, path, flags, m))
}
int openat64(int dirfd, const char *path, int flags, ...) {
    REAL(int, "openat64", int, const char *, int, ...)
    OPEN_BODY(dirfd, real(dirfd, path, flags, m))
}
int creat(const char *path, mode_t m) {
    return open(path, O_CREAT | O_WRONLY | O_TRUNC, m);
}

static int wfd(int fd) { return mode != OFF && fd >= 0 && fd < (int)sizeof fdw && fdw[fd] == 1; }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t)
    if (!wfd(fd)) return real(fd, b, n);
    int h = hit('w');
    if (h == 1) { errno = err; return -1; }
    if (h == 3) { real(fd, b, n / 2); die(); }
    if (h == 4) return real(fd, b, n > 1 ? n / 2 : n);
    if (h == 5) { if (n > 1) return real(fd, b, n / 2); errno = err; return -1; }
    ssize_t r = real(fd, b, n);
    if (h == 2) die();
    if (h == 6) { errno = err; return -1; }
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t)
    if (!wfd(fd)) return real(fd, b, n, o);
    SIMPLE('w', real(fd, b, n, o))
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int)
    if (!wfd(fd)) return real(fd, v, c);
    SIMPLE('w', real(fd, v, c))
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t)
    if (!wfd(o)) return real(o, i, off, n);
    SIMPLE('w', real(o, i, off, n))
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t)
    if (!wfd(o)) return real(o, i, off, n);
    SIMPLE('w', real(o, i, off, n))
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned)
    if (!wfd(o)) return real(i, oi, o, oo, n, f);
    SIMPLE('w', real(i, oi, o, oo, n, f))
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t)
    if (!(mode != OFF && count_reads && fd >= 0 && fd < (int)sizeof fdw && fdw[fd] == 2)) return real(fd, b, n);
    SIMPLE('r', real(fd, b, n))
}
int close(int fd) {
    REAL(int, "close", int)
    if (!wfd(fd)) return real(fd);
    fdw[fd] = 0;
    int h = hit('c');
    int r = real(fd);
    if (h == 2 || h == 3) die();
    if (h == 1 || h == 5 || h == 6) { errno = err; return -1; }
    return r;
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, "ftruncate64", int, off64_t)
    if (!wfd(fd)) return real(fd, n);
    SIMPLE('t', real(fd, n))
}
int ftruncate(int fd, off_t n) {
    REAL(int, "ftruncate", int, off_t)
    if (!wfd(fd)) return real(fd, n);
    SIMPLE('t', real(fd, n))
}
int fsync(int fd) {
    REAL(int, "fsync", int)
    if (!wfd(fd)) return real(fd);
    SIMPLE('s', real(fd))
}
int fdatasync(int fd) {
    REAL(int, "fdatasync", int)
    if (!wfd(fd)) return real(fd);
    SIMPLE('s', real(fd))
}
int truncate64(const char *p, off64_t n) {
    REAL(int, "truncate64", const char *, off64_t)
    if (!under(AT_FDCWD, p)) return real(p, n);
    SIMPLE('t', real(p, n))
}
int truncate(const char *p, off_t n) {
    REAL(int, "truncate", const char *, off_t)
    if (!under(AT_FDCWD, p)) return real(p, n);
    SIMPLE('t', real(p, n))
}
int rename(const char *a, const char *b) {
    REAL(int, "rename", const char *, const char *)
    if (!under(AT_FDCWD, a) && !under(AT_FDCWD, b)) return real(a, b);
    SIMPLE('R', real(a, b))
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *)
    if (!under(da, a) && !under(db, b)) return real(da, a, db, b);
    SIMPLE('R', real(da, a, db, b))
}
int renameat2(int da, const char *a, int db, const char *b, unsigned f) {
    REAL(int, "renameat2", int, const char *, int, const char *, unsigned)
    if (!under(da, a) && !under(db, b)) return real(da, a, db, b, f);
    SIMPLE('R', real(da, a, db, b, f))
}
int link(const char *a, const char *b) {
    REAL(int, "link", const char *, const char *)
    if (!under(AT_FDCWD, a) && !under(AT_FDCWD, b)) return real(a, b);
    SIMPLE('l', real(a, b))
}
int linkat(int da, const char *a, int db, const char *b, int f) {
    REAL(int, "linkat", int, const char *, int, const char *, int)
    if (!under(da, a) && !under(db, b)) return real(da, a, db, b, f);
    SIMPLE('l', real(da, a, db, b, f))
}
int symlink(const char *a, const char *b) {
    REAL(int, "symlink", const char *, const char *)
    if (!under(AT_FDCWD, b)) return real(a, b);
    SIMPLE('l', real(a, b))
}
int unlink(const char *p) {
    REAL(int, "unlink", const char *)
    if (!under(AT_FDCWD, p)) return real(p);
    SIMPLE('u', real(p))
}
int unlinkat(int d, const char *p, int f) {
    REAL(int, "unlinkat", int, const char *, int)
    if (!under(d, p)) return real(d, p, f);
    SIMPLE('u', real(d, p, f))
}
int mkdir(const char *p, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t)
    if (!under(AT_FDCWD, p)) return real(p, m);
    SIMPLE('m', real(p, m))
}
int chmod(const char *p, mode_t m) {
    REAL(int, "chmod", const char *, mode_t)
    if (!under(AT_FDCWD, p)) return real(p, m);
    SIMPLE('h', real(p, m))
}
int fchmod(int fd, mode_t m) {
    REAL(int, "fchmod", int, mode_t)
    if (!wfd(fd)) return real(fd, m);
    SIMPLE('h', real(fd, m))
}
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    REAL(int, "utimensat", int, const char *, const struct timespec[2], int)
    if (!under(d, p)) return real(d, p, t, f);
    SIMPLE('U', real(d, p, t, f))
}

/* Fault injector: counts the file system calls that touch a scratch folder and makes the k-th fail, be cut short or kill the process. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

enum { NONE = 0, FAIL = 1, SHORT = 2, KILL_BEFORE = 3, KILL_AFTER = 4, FAIL_FROM = 5, KILL_TORN = 6, PARTIAL = 7 };

static char prefix[PATH_MAX];
static int armed, target, mode, err, target2 = -1, mode2;
static int counter;
static char trace_buf[1 << 16];
static size_t trace_len;
static unsigned char mine[4096];

static void note(const char *name, const char *what) {
    if (trace_len + 300 < sizeof trace_buf)
        trace_len += snprintf(trace_buf + trace_len, 300, "%s %.200s\n", name, what);
}

void shim_arm(const char *p, int k, int m, int e) {
    snprintf(prefix, sizeof prefix, "%s", p);
    target = k; mode = m; err = e; counter = 0; trace_len = 0; armed = 1;
    memset(mine, 0, sizeof mine);
}
/* a second, later fault */
void shim_arm2(int k, int m) { target2 = k; mode2 = m; }
void shim_disarm(void) { armed = 0; }
int shim_count(void) { return counter; }
const char *shim_trace(void) { trace_buf[trace_len] = 0; return trace_buf; }

static int inside_path(int dirfd, const char *p) {
    char buf[PATH_MAX * 2];
    if (!armed || !p) return 0;
    if (p[0] == '/') return strncmp(p, prefix, strlen(prefix)) == 0;
    if (dirfd != AT_FDCWD) return 1;
    if (!getcwd(buf, PATH_MAX)) return 0;
    return strncmp(buf, prefix, strlen(prefix)) == 0;
}
static int inside_fd(int fd) { return armed && fd >= 0 && fd < (int)sizeof mine && mine[fd]; }

/* 0: go on; 1: fail with errno; 2: cut short; 3: kill after; 4: cut short and kill */
static int hit(const char *name, const char *what, int mutating) {
    int k = counter++;
    note(name, what);
    if (mode == FAIL_FROM && k >= target && mutating) { errno = err; return 1; }
    if (k == target2) {
        if (mode2 == FAIL) { errno = err; return 1; }
        if (mode2 == KILL_BEFORE) _exit(99);
        if (mode2 == KILL_AFTER) return 3;
        if (mode2 == KILL_TORN) return 4;
    }
    if (k != target) return 0;
    if (mode == FAIL) { errno = err; return 1; }
    if (mode == SHORT) return 2;
    if (mode == KILL_BEFORE) _exit(99);
    if (mode == KILL_AFTER) return 3;
    if (mode == KILL_TORN) return 4;
    if (mode == PARTIAL) return 5;
    return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define PATHCALL(namestr, inside, what, mut, call, failval) \
    if (!(inside)) return call; \
    { int h = hit(namestr, what, mut); if (h == 1 || h == 2) { if (h == 2) errno = err; return failval; } \
      if (h == 4) _exit(99); \
      __typeof__(call) r = call; if (h == 3) _exit(99); return r; }

static int do_open(const char *name, int dirfd, const char *p, int flags, mode_t m, int (*go)(int, const char *, int, mode_t)) {
    if (!inside_path(dirfd, p)) return go(dirfd, p, flags, m);
    if (flags & O_DIRECTORY) return go(dirfd, p, flags, m);
    int w = flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC);
    int h = hit(w ? "open-write" : "open-read", p, w);
    if (h == 1 || h == 2) { errno = err; return -1; }
    if (h == 4) _exit(99);
    int fd = go(dirfd, p, flags, m);
    if (h == 3) _exit(99);
    if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 1;
    return fd;
}
static int go_open(int d, const char *p, int f, mode_t m) { REAL(int, "open", const char *, int, ...); return real(p, f, m); }
static int go_openat(int d, const char *p, int f, mode_t m) { REAL(int, "openat", int, const char *, int, ...); return real(d, p, f, m); }
#define MODE_ARG(flags) mode_t m = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODE_ARG(flags) return do_open("open", AT_FDCWD, p, flags, m, go_open); }
int open64(const char *p, int flags, ...) { MODE_ARG(flags) return do_open("open", AT_FDCWD, p, flags, m, go_open); }
int openat(int d, const char *p, int flags, ...) { MODE_ARG(flags) return do_open("openat", d, p, flags, m, go_openat); }
int openat64(int d, const char *p, int flags, ...) { MODE_ARG(flags) return do_open("openat", d, p, flags, m, go_openat); }
int creat(const char *p, mode_t m) { return do_open("creat", AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m, go_open); }

static FILE *do_fopen(const char *p, const char *md, FILE *(*real)(const char *, const char *)) {
    PATHCALL("fopen", inside_path(AT_FDCWD, p), p, md[0] != 'r', real(p, md), NULL)
}
FILE *fopen(const char *p, const char *md) { REAL(FILE *, "fopen", const char *, const char *); return do_fopen(p, md, real); }
FILE *fopen64(const char *p, const char *md) { REAL(FILE *, "fopen64", const char *, const char *); return do_fopen(p, md, real); }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!inside_fd(fd)) return real(fd, b, n);
    char w[40]; snprintf(w, sizeof w, "%zu", n);
    int h = hit("write", w, 1);
    if (h == 1) return -1;
    if (h == 2) { /* a short write, every later write fails */
        mode = FAIL_FROM; target = counter;
        ssize_t r = n > 1 ? real(fd, b, n / 2) : 0;
        if (r <= 0) { errno = err; return -1; }
        return r;
    }
    if (h == 4) { if (n > 1) { ssize_t r = real(fd, b, n / 2); (void)r; } _exit(99); }
    ssize_t r = real(fd, b, h == 5 && n > 1 ? n / 2 : n);
    if (h == 3) _exit(99);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, "writev", int, const struct iovec *, int); PATHCALL("writev", inside_fd(fd), "", 1, real(fd, v, c), -1) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); PATHCALL("pwrite", inside_fd(fd), "", 1, real(fd, b, n, o), -1) }
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, "read", int, void *, size_t); PATHCALL("read", inside_fd(fd), "", 0, real(fd, b, n), -1) }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t); PATHCALL("sendfile", inside_fd(o), "", 1, real(o, i, off, n), -1) }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) { REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); PATHCALL("copy_file_range", inside_fd(o), "", 1, real(i, oi, o, oo, n, f), -1) }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); PATHCALL("rename", inside_path(AT_FDCWD, a) || inside_path(AT_FDCWD, b), b, 1, real(a, b), -1) }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); PATHCALL("renameat", inside_path(x, a) || inside_path(y, b), b, 1, real(x, a, y, b), -1) }
int unlink(const char *a) { REAL(int, "unlink", const char *); PATHCALL("unlink", inside_path(AT_FDCWD, a), a, 1, real(a), -1) }
int unlinkat(int d, const char *a, int f) { REAL(int, "unlinkat", int, const char *, int); PATHCALL("unlinkat", inside_path(d, a), a, 1, real(d, a, f), -1) }
int mkdir(const char *a, mode_t m) { REAL(int, "mkdir", const char *, mode_t); PATHCALL("mkdir", inside_path(AT_FDCWD, a), a, 1, real(a, m), -1) }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); PATHCALL("mkdirat", inside_path(d, a), a, 1, real(d, a, m), -1) }
int rmdir(const char *a) { REAL(int, "rmdir", const char *); PATHCALL("rmdir", inside_path(AT_FDCWD, a), a, 1, real(a), -1) }
int truncate64(const char *a, off64_t n) { REAL(int, "truncate64", const char *, off64_t); PATHCALL("truncate", inside_path(AT_FDCWD, a), a, 1, real(a, n), -1) }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); PATHCALL("ftruncate", inside_fd(fd), "", 1, real(fd, n), -1) }
int fsync(int fd) { REAL(int, "fsync", int); PATHCALL("fsync", inside_fd(fd), "", 1, real(fd), -1) }
int fdatasync(int fd) { REAL(int, "fdatasync", int); PATHCALL("fdatasync", inside_fd(fd), "", 1, real(fd), -1) }
int chmod(const char *a, mode_t m) { REAL(int, "chmod", const char *, mode_t); PATHCALL("chmod", inside_path(AT_FDCWD, a), a, 1, real(a, m), -1) }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", int, mode_t); PATHCALL("fchmod", inside_fd(fd), "", 1, real(fd, m), -1) }
int fchmodat(int d, const char *a, mode_t m, int f) { REAL(int, "fchmodat", int, const char *, mode_t, int); PATHCALL("fchmodat", inside_path(d, a), a, 1, real(d, a, m, f), -1) }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); PATHCALL("link", inside_path(AT_FDCWD, b), b, 1, real(a, b), -1) }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); PATHCALL("symlink", inside_path(AT_FDCWD, b), b, 1, real(a, b), -1) }
int close(int fd) {
    REAL(int, "close", int);
    if (!inside_fd(fd)) return real(fd);
    mine[fd] = 0;
    int h = hit("close", "", 1);
    if (h == 4) _exit(99);
    int r = real(fd);
    if (h == 3) _exit(99);
    if (h == 1 || h == 2) { errno = err; return -1; }
    return r;
}

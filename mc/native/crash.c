/* Preloaded into the process under test: counts the operations that change files below a marked path and ends the process
 * (or lets the operation fail) at a chosen one, with a chosen prefix of the data of a write already on disk. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char mark[256];
static long count = 0, target = -1, torn = 0;
static int mode = 0;            /* 0: nothing, 1: the process ends, 2: the operation fails */
static int logfd = -1;
/* called before each operation (phase 0; it may ask for a prefix of a write) and after the prefix (phase 1) */
static long (*callback)(const char *op, const char *path, long size, int phase) = NULL;
static int busy = 0;

void vp_callback(const char *m, long (*f)(const char *, const char *, long, int)) {
    mark[0] = 0;
    if (m) strncpy(mark, m, sizeof(mark) - 1);
    callback = f; mode = 0; logfd = -1;
}

void vp_arm(const char *m, long n, long bytes, int md, int fd) {
    strncpy(mark, m, sizeof(mark) - 1);
    count = 0; target = n; torn = bytes; mode = md; logfd = fd;
}
void vp_disarm(void) { mark[0] = 0; mode = 0; logfd = -1; }

#define REAL(name) static __typeof__(&name) real = NULL; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int path_hit(const char *p) {
    return mark[0] && !busy && p && strstr(p, mark) && !strstr(p, "logging.log");
}
static int fd_hit(int fd, char *buf, size_t n) {
    char link[64];
    if (!mark[0] || busy || fd == logfd) return 0;
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    ssize_t k = readlink(link, buf, n - 1);
    if (k <= 0) return 0;
    buf[k] = 0;
    return path_hit(buf);
}
static void note(const char *op, const char *p, long size) {
    if (logfd < 0) return;
    static ssize_t (*w)(int, const void *, size_t) = NULL;
    if (!w) w = dlsym(RTLD_NEXT, "write");
    char line[1200];
    int k = snprintf(line, sizeof(line), "op %ld %s %ld %s\n", count, op, size, p);
    if (k > 0) w(logfd, line, k < (int)sizeof(line) ? k : (int)sizeof(line) - 1);
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* 1: the caller has to fail, 0: go on */
static int step(const char *op, const char *p, long size) {
    if (callback) { busy = 1; callback(op, p, size, 0); busy = 0; return 0; }
    note(op, p, size);
    int hit = count == target;
    count++;
    if (!hit) return 0;
    if (mode == 1) die();
    if (mode == 2) { errno = ENOSPC; return 1; }
    return 0;
}

static int changes(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; }

#define OPEN(name, pre, call) \
    int md = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, int); va_end(ap); } \
    REAL(name); if (changes(flags) && path_hit(path) && step("open", path, 0)) return -1; return call
int open(const char *path, int flags, ...) { OPEN(open, , real(path, flags, md)); }
int open64(const char *path, int flags, ...) { OPEN(open64, , real(path, flags, md)); }
int openat(int d, const char *path, int flags, ...) { OPEN(openat, , real(d, path, flags, md)); }
int openat64(int d, const char *path, int flags, ...) { OPEN(openat64, , real(d, path, flags, md)); }

ssize_t write(int fd, const void *buf, size_t n) {
    char p[1024];
    REAL(write);
    if (fd_hit(fd, p, sizeof(p))) {
        if (callback) {
            busy = 1;
            long k = callback("write", p, (long)n, 0);
            busy = 0;
            if (k <= 0 || (size_t)k >= n) return real(fd, buf, n);
            ssize_t done = real(fd, buf, (size_t)k);
            if (done != k) return done;
            busy = 1;
            callback("write", p, (long)n, 1);
            busy = 0;
            done = real(fd, (const char *)buf + k, n - (size_t)k);
            return done < 0 ? k : k + done;
        }
        if (count == target && torn > 0 && mode) real(fd, buf, (size_t)torn < n ? (size_t)torn : n);
        if (step("write", p, (long)n)) return -1;
    }
    return real(fd, buf, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    char p[1024];
    REAL(pwrite64);
    if (fd_hit(fd, p, sizeof(p))) {
        if (count == target && torn > 0 && mode) real(fd, buf, (size_t)torn < n ? (size_t)torn : n, o);
        if (step("pwrite", p, (long)n)) return -1;
    }
    return real(fd, buf, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    char p[1024];
    REAL(writev);
    if (fd_hit(fd, p, sizeof(p)) && step("writev", p, n)) return -1;
    return real(fd, v, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n);
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    char p[1024];
    REAL(sendfile64);
    if (fd_hit(out, p, sizeof(p))) {
        if (count == target && torn > 0 && mode) real(out, in, o, (size_t)torn);
        if (step("sendfile", p, (long)n)) return -1;
    }
    return real(out, in, o, n);
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
    char p[1024];
    REAL(copy_file_range);
    if (fd_hit(out, p, sizeof(p)) && step("copy_file_range", p, (long)n)) return -1;
    return real(in, io, out, oo, n, f);
}
int ftruncate64(int fd, off64_t n) {
    char p[1024];
    REAL(ftruncate64);
    if (fd_hit(fd, p, sizeof(p)) && step("ftruncate", p, (long)n)) return -1;
    return real(fd, n);
}
int truncate64(const char *path, off64_t n) {
    REAL(truncate64);
    if (path_hit(path) && step("truncate", path, (long)n)) return -1;
    return real(path, n);
}
int rename(const char *a, const char *b) {
    REAL(rename);
    if ((path_hit(a) || path_hit(b)) && step("rename", b, 0)) return -1;
    return real(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
    REAL(renameat);
    if ((path_hit(a) || path_hit(b)) && step("rename", b, 0)) return -1;
    return real(x, a, y, b);
}
int link(const char *a, const char *b) {
    REAL(link);
    if ((path_hit(a) || path_hit(b)) && step("link", b, 0)) return -1;
    return real(a, b);
}
int symlink(const char *a, const char *b) {
    REAL(symlink);
    if (path_hit(b) && step("symlink", b, 0)) return -1;
    return real(a, b);
}
int unlink(const char *a) {
    REAL(unlink);
    if (path_hit(a) && step("unlink", a, 0)) return -1;
    return real(a);
}
int unlinkat(int d, const char *a, int f) {
    REAL(unlinkat);
    if (path_hit(a) && step("unlink", a, 0)) return -1;
    return real(d, a, f);
}
int rmdir(const char *a) {
    REAL(rmdir);
    if (path_hit(a) && step("rmdir", a, 0)) return -1;
    return real(a);
}

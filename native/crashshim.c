/* Counts the file operations a process makes below a folder, and ends it (or makes the operation fail) at a chosen one.
   Loaded with LD_PRELOAD; idle until shim_arm() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { COUNT = 0, DIE = 1, TORN = 2, FAIL = 3, FULL = 4 };

#define NLOG 65536
static struct { int kind; long size; char name[120]; } ops[NLOG];
static long nops, at = -1, torn;
static int mode, armed;
static char prefix[PATH_MAX];

void shim_arm(const char *p, int m, long n, long t) {
    strncpy(prefix, p, sizeof prefix - 1);
    mode = m; at = n; torn = t; nops = 0; armed = 1;
}
void shim_disarm(void) { armed = 0; }
long shim_count(void) { return nops; }
int shim_kind(long i) { return ops[i].kind; }
long shim_size(long i) { return ops[i].size; }
const char *shim_name(long i) { return ops[i].name; }

static int below(const char *p) {
    char b[PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(b, sizeof b)) return 0;
        size_t n = strlen(b);
        snprintf(b + n, sizeof b - n, "/%s", p);
        p = b;
    }
    size_t k = strlen(prefix);
    if (strncmp(p, prefix, k) != 0) return 0;
    return p[k] == '/' || p[k] == 0;
}
static int path_at(int dfd, const char *p, char *out) {
    if (p[0] == '/' || dfd == AT_FDCWD) { snprintf(out, PATH_MAX, "%s", p); return 1; }
    char l[64], d[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
    ssize_t n = readlink(l, d, sizeof d - 1);
    if (n < 0) return 0;
    d[n] = 0;
    snprintf(out, PATH_MAX, "%s/%s", d, p);
    return 1;
}
static int fdbelow(int fd, char *d) {
    char l[64];
    if (!armed) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, d, PATH_MAX - 1);
    if (n < 0) return 0;
    d[n] = 0;
    return d[0] == '/' && below(d);
}
/* returns 1 if the operation must fail, 2 if it must be torn and then die */
static int op(int kind, long size, const char *name) {
    long i = nops++;
    if (i < NLOG) {
        ops[i].kind = kind; ops[i].size = size;
        const char *s = strlen(name) > strlen(prefix) ? name + strlen(prefix) : name;
        strncpy(ops[i].name, s, sizeof ops[i].name - 1);
    }
    if (mode == COUNT) return 0;
    if (mode == FULL && i >= at && (kind == 'w' || kind == 'o' || kind == 'm')) { errno = ENOSPC; return 1; }
    if (i != at) return 0;
    if (mode == DIE) _exit(77);
    if (mode == TORN && kind == 'w') return 2;
    if (mode == TORN) _exit(77);
    if (mode == FAIL) { errno = kind == 'w' ? ENOSPC : EIO; return 1; }
    return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

static int wr(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }

#define OPENBODY(name) \
    REAL(int, name, const char *, int, ...); \
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); \
    if (wr(fl) && below(p) && op('o', 0, p)) return -1; \
    return real(p, fl, m);
int open(const char *p, int fl, ...) { OPENBODY(open) }
int open64(const char *p, int fl, ...) { OPENBODY(open64) }
#define OPENATBODY(name) \
    REAL(int, name, int, const char *, int, ...); char b[PATH_MAX]; \
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); \
    if (armed && wr(fl) && path_at(d, p, b) && below(b) && op('o', 0, b)) return -1; \
    return real(d, p, fl, m);
int openat(int d, const char *p, int fl, ...) { OPENATBODY(openat) }
int openat64(int d, const char *p, int fl, ...) { OPENATBODY(openat64) }
int creat(const char *p, mode_t m) { REAL(int, creat, const char *, mode_t); if (below(p) && op('o', 0, p)) return -1; return real(p, m); }
FILE *fopen(const char *p, const char *md) { REAL(FILE *, fopen, const char *, const char *); if (strpbrk(md, "wa+") && below(p) && op('o', 0, p)) return NULL; return real(p, md); }
FILE *fopen64(const char *p, const char *md) { REAL(FILE *, fopen64, const char *, const char *); if (strpbrk(md, "wa+") && below(p) && op('o', 0, p)) return NULL; return real(p, md); }

static void tear(int fd, const void *b, size_t n) {
    static ssize_t (*rw)(int, const void *, size_t);
    rw = dlsym(RTLD_NEXT, "write");
    size_t k = torn < 0 ? (n > (size_t)-torn ? n + torn : 0) : torn == 0 ? n / 2 : (size_t)torn;
    if (k > n) k = n;
    while (k) { ssize_t r = rw(fd, b, k); if (r <= 0) break; b = (const char *)b + r; k -= r; }
    _exit(77);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t); char d[PATH_MAX];
    if (fdbelow(fd, d)) { int r = op('w', n, d); if (r == 1) return -1; if (r == 2) tear(fd, b, n); }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); char d[PATH_MAX];
    if (fdbelow(fd, d)) { int r = op('w', n, d); if (r == 1) return -1; if (r == 2) _exit(77); }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int); char d[PATH_MAX];
    if (fdbelow(fd, d)) { int r = op('w', 0, d); if (r == 1) return -1; if (r == 2) _exit(77); }
    return real(fd, v, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t); char d[PATH_MAX];
    if (fdbelow(o, d)) { int r = op('w', n, d); if (r == 1) return -1; if (r == 2) { struct stat s; size_t k = n; if (!fstat(i, &s)) k = (size_t)s.st_size / 2; real(o, i, off, k); _exit(77); } }
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); char d[PATH_MAX];
    if (fdbelow(o, d)) { int r = op('w', n, d); if (r == 1) return -1; if (r == 2) { struct stat s; size_t k = n; if (!fstat(i, &s)) k = (size_t)s.st_size / 2; real(o, i, off, k); _exit(77); } }
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); char d[PATH_MAX];
    if (fdbelow(o, d)) { int r = op('w', n, d); if (r == 1) return -1; if (r == 2) _exit(77); }
    return real(i, oi, o, oo, n, f);
}
#define ONE(name, k) int name(const char *p) { REAL(int, name, const char *); if (below(p) && op(k, 0, p)) return -1; return real(p); }
ONE(unlink, 'u')
ONE(remove, 'u')
ONE(rmdir, 'u')
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int); char b[PATH_MAX]; if (armed && path_at(d, p, b) && below(b) && op('u', 0, b)) return -1; return real(d, p, f); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); if (below(p) && op('m', 0, p)) return -1; return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); char b[PATH_MAX]; if (armed && path_at(d, p, b) && below(b) && op('m', 0, b)) return -1; return real(d, p, m); }
int truncate(const char *p, off_t n) { REAL(int, truncate, const char *, off_t); if (below(p) && op('t', 0, p)) return -1; return real(p, n); }
int truncate64(const char *p, off64_t n) { REAL(int, truncate64, const char *, off64_t); if (below(p) && op('t', 0, p)) return -1; return real(p, n); }
#define FDONE(name, k) int name(int fd) { REAL(int, name, int); char d[PATH_MAX]; if (fdbelow(fd, d) && op(k, 0, d)) return -1; return real(fd); }
FDONE(fsync, 's')
FDONE(fdatasync, 's')
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); char d[PATH_MAX]; if (fdbelow(fd, d) && op('t', 0, d)) return -1; return real(fd, n); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if ((below(a) || below(b)) && op('r', 0, b)) return -1; return real(a, b); }
int renameat(int da, const char *a, int db, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *); char pa[PATH_MAX], pb[PATH_MAX];
    if (armed && path_at(da, a, pa) && path_at(db, b, pb) && (below(pa) || below(pb)) && op('r', 0, pb)) return -1;
    return real(da, a, db, b);
}
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); if (below(b) && op('r', 0, b)) return -1; return real(a, b); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); if (below(b) && op('r', 0, b)) return -1; return real(a, b); }

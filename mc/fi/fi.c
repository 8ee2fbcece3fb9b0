/* File-system fault and crash injector (LD_PRELOAD). When armed, every intercepted call is a numbered
   point; plan[i] selects the environment's answer at point i. Each point appends its kind to logfd. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <dirent.h>

#define MAXP 4096
static int armed, npoint, logfd = -1, full;
static unsigned char plan[MAXP];
static char root[4096];
static char fdin[4096];

/* answers */
enum { OK = 0, ERR = 1, KILL = 2, HALFKILL = 3, HALFFULL = 4 };

void fi_arm(const char *r, const unsigned char *p, int n, int lfd) {
    snprintf(root, sizeof root, "%s", r);
    memset(plan, 0, sizeof plan);
    if (n > MAXP) n = MAXP;
    memcpy(plan, p, n);
    npoint = 0; full = 0; logfd = lfd; memset(fdin, 0, sizeof fdin);
    armed = 1;
}
void fi_disarm(void) { armed = 0; }

static int under(const char *p) {
    if (!p) return 0;
    if (p[0] != '/') return 1;
    return strncmp(p, root, strlen(root)) == 0;
}
static int fdok(int fd) { return fd >= 0 && fd < 4096 && fdin[fd]; }
static void track(int fd, const char *p) { if (armed && fd >= 0 && fd < 4096) fdin[fd] = under(p); }

/* kind: M metadata op, D data op, R read-side op */
static int point(char kind) {
    int a = npoint < MAXP ? plan[npoint] : 0;
    npoint++;
    syscall(SYS_write, logfd, &kind, 1);
    if (a == KILL) syscall(SYS_exit_group, 77);
    return a;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name);
#define META(path, err) if (armed && under(path)) { if (point('M') != OK) { errno = err; return -1; } }

int open(const char *p, int fl, ...) {
    REAL(int, open, const char *, int, ...)
    va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
    if (armed && under(p)) { if (point((fl & (O_CREAT|O_WRONLY|O_RDWR|O_TRUNC)) ? 'M' : 'R') != OK) { errno = EACCES; return -1; } }
    int fd = real(p, fl, m); track(fd, p); return fd;
}
int open64(const char *p, int fl, ...) {
    REAL(int, open64, const char *, int, ...)
    va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
    if (armed && under(p)) { if (point((fl & (O_CREAT|O_WRONLY|O_RDWR|O_TRUNC)) ? 'M' : 'R') != OK) { errno = EACCES; return -1; } }
    int fd = real(p, fl, m); track(fd, p); return fd;
}
int openat(int d, const char *p, int fl, ...) {
    REAL(int, openat, int, const char *, int, ...)
    va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
    if (armed && under(p)) { if (point((fl & (O_CREAT|O_WRONLY|O_RDWR|O_TRUNC)) ? 'M' : 'R') != OK) { errno = EACCES; return -1; } }
    int fd = real(d, p, fl, m); track(fd, p); return fd;
}
int openat64(int d, const char *p, int fl, ...) {
    REAL(int, openat64, int, const char *, int, ...)
    va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
    if (armed && under(p)) { if (point((fl & (O_CREAT|O_WRONLY|O_RDWR|O_TRUNC)) ? 'M' : 'R') != OK) { errno = EACCES; return -1; } }
    int fd = real(d, p, fl, m); track(fd, p); return fd;
}
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *) META(b, EIO) return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, renameat, int, const char *, int, const char *) META(b, EIO) return real(x, a, y, b); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *) META(b, EIO) return real(a, b); }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(int, linkat, int, const char *, int, const char *, int) META(b, EIO) return real(x, a, y, b, f); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *) META(b, EIO) return real(a, b); }
int unlink(const char *a) { REAL(int, unlink, const char *) META(a, EIO) return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(int, unlinkat, int, const char *, int) META(a, EIO) return real(d, a, f); }
int remove(const char *a) { REAL(int, remove, const char *) META(a, EIO) return real(a); }
int rmdir(const char *a) { REAL(int, rmdir, const char *) META(a, EIO) return real(a); }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t) META(a, EACCES) return real(a, m); }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t) META(a, EACCES) return real(d, a, m); }
int truncate(const char *a, off_t n) { REAL(int, truncate, const char *, off_t) META(a, EIO) return real(a, n); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t) if (armed && fdok(fd) && point('M') != OK) { errno = EIO; return -1; } return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t) if (armed && fdok(fd) && point('M') != OK) { errno = EIO; return -1; } return real(fd, n); }
int fsync(int fd) { REAL(int, fsync, int) if (armed && fdok(fd) && point('M') != OK) { errno = EIO; return -1; } return real(fd); }
DIR *opendir(const char *p) { REAL(DIR *, opendir, const char *) if (armed && under(p) && point('R') != OK) { errno = EACCES; return 0; } return real(p); }
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t) if (armed && fdok(fd) && point('R') != OK) { errno = EIO; return -1; } return real(fd, b, n); }

/* data operations: decide how many bytes to let through */
static int data(size_t n, size_t *allow) {
    *allow = n;
    if (full) { errno = ENOSPC; return -1; }
    int a = point('D');
    if (a == ERR) { errno = ENOSPC; return -1; }
    if (a == HALFKILL || a == HALFFULL) *allow = n / 2;
    return a;
}
#define AFTER(a) do { if (a == HALFKILL) syscall(SYS_exit_group, 77); if (a == HALFFULL) full = 1; } while (0)
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t)
    if (!armed || !fdok(fd)) return real(fd, b, n);
    size_t k; int a = data(n, &k); if (a < 0) return -1;
    ssize_t r = real(fd, b, k); AFTER(a); return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
    if (!armed || !fdok(fd)) return real(fd, b, n, o);
    size_t k; int a = data(n, &k); if (a < 0) return -1;
    ssize_t r = real(fd, b, k, o); AFTER(a); return r;
}
static size_t clampsz(int in, size_t n) { struct stat st; if (fstat(in, &st) == 0 && (size_t)st.st_size < n) return st.st_size; return n; }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
    if (!armed || !fdok(out)) return real(out, in, o, n);
    size_t m = clampsz(in, n), k; int a = data(m, &k); if (a < 0) return -1;
    ssize_t r = real(out, in, o, a ? k : n); AFTER(a); return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t)
    if (!armed || !fdok(out)) return real(out, in, o, n);
    size_t m = clampsz(in, n), k; int a = data(m, &k); if (a < 0) return -1;
    ssize_t r = real(out, in, o, a ? k : n); AFTER(a); return r;
}
ssize_t copy_file_range(int in, off64_t *i, int out, off64_t *o, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
    if (!armed || !fdok(out)) return real(in, i, out, o, n, f);
    size_t m = clampsz(in, n), k; int a = data(m, &k); if (a < 0) return -1;
    ssize_t r = real(in, i, out, o, a ? k : n, f); AFTER(a); return r;
}

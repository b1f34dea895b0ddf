/* LD_PRELOAD disk seam.
 *
 * Every file-system call made on a path below the simulated disk's root
 * directory (and on descriptors opened there) passes through here.  Python
 * (sim/disk.py) arms a fault plan with the sd_* functions through ctypes.
 * Nothing outside the root is touched.  State is per process; a forked child
 * starts with a copy.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>

#define MAXFD 4096
#define MAXPLAN 64

enum { C_OPEN = 1, C_READ = 2, C_WRITE = 4, C_TRUNC = 8, C_SYNC = 16, C_META = 32, C_CLOSE = 64 };
enum { A_FAIL = 1, A_STICKY = 2, A_SHORT = 3, A_CRASH = 4, A_TORN = 5, A_EOF = 6, A_INTR = 7, A_PAGE = 8 };

static char root[4096];
static size_t rootlen;
static int active;
static int on;                       /* faults and counting enabled */
static unsigned char tracked[MAXFD];
static long cnt[128];                /* per class */
static long total;                   /* all ops in any class */
static long nops_mut;                /* open-for-write, write, trunc, sync, meta */
static long nops_read;
static struct { int cls, act, err; long nth, seen; int fired; } plan[MAXPLAN];
static int nplan;
static long fired[16];
static int depth;                    /* re-entrancy guard */
static int logfd = -1;
static unsigned long long hash = 1469598103934665603ULL;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, open64, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(int, close, int);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, pread, int, void *, size_t, off_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(ssize_t, readv, int, const struct iovec *, int);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(int, ftruncate, int, off_t);
REAL(int, ftruncate64, int, off64_t);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, rename, const char *, const char *);
REAL(int, unlink, const char *);
REAL(int, dup, int);
REAL(int, dup2, int, int);
REAL(int, fcntl, int, int, ...);
REAL(int, fcntl64, int, int, ...);
REAL(size_t, fread, void *, size_t, size_t, FILE *);
REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
REAL(int, fclose, FILE *);
REAL(int, closedir, DIR *);
REAL(int, pipe, int *);
REAL(int, pipe2, int *, int);
REAL(int, fflush, FILE *);

#define LOADSYM(name) real_##name = dlsym(RTLD_NEXT, #name)
__attribute__((constructor)) static void init(void) {
    LOADSYM(open); LOADSYM(open64); LOADSYM(openat); LOADSYM(openat64); LOADSYM(close);
    LOADSYM(read); LOADSYM(write); LOADSYM(pread); LOADSYM(pread64); LOADSYM(pwrite);
    LOADSYM(pwrite64); LOADSYM(readv); LOADSYM(writev); LOADSYM(ftruncate);
    LOADSYM(ftruncate64); LOADSYM(fsync); LOADSYM(fdatasync); LOADSYM(rename);
    LOADSYM(unlink); LOADSYM(dup); LOADSYM(dup2); LOADSYM(fcntl); LOADSYM(fcntl64);
    LOADSYM(fread); LOADSYM(fwrite); LOADSYM(fclose); LOADSYM(fflush);
}
#define ENSURE(name) do { if (!real_##name) LOADSYM(name); } while (0)

/* ---- control interface (ctypes) ---- */
void sd_root(const char *p) {
    strncpy(root, p, sizeof root - 1); rootlen = strlen(root); active = rootlen > 0;
}
void sd_on(int v) { on = v; }
void sd_clear(void) {
    nplan = 0; total = nops_mut = nops_read = 0; memset(cnt, 0, sizeof cnt);
    memset(fired, 0, sizeof fired); hash = 1469598103934665603ULL;
}
int sd_plan(int cls, long nth, int act, int err) {
    if (nplan >= MAXPLAN) return -1;
    plan[nplan].cls = cls; plan[nplan].nth = nth; plan[nplan].act = act;
    plan[nplan].err = err; plan[nplan].seen = 0; plan[nplan].fired = 0;
    return nplan++;
}
void sd_unplan(void) { nplan = 0; }
long sd_count(int cls) {
    long s = 0;
    for (int i = 0; i < 7; i++) if (cls & (1 << i)) s += cnt[1 << i];
    return s;
}
long sd_total(void) { return total; }
long sd_fired(int act) { return fired[act]; }
unsigned long long sd_hash(void) { return hash; }
int sd_tracked(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += tracked[i] != 0; return n; }
void sd_forget(void) { memset(tracked, 0, sizeof tracked); }
void sd_log(int fd) { logfd = fd; }

static int inroot(const char *p) { return active && p && strncmp(p, root, rootlen) == 0; }
static int tr(int fd) { return active && fd >= 0 && fd < MAXFD && tracked[fd]; }
static void mark(int fd, int v) { if (fd >= 0 && fd < MAXFD) tracked[fd] = v; }

/* Decide what happens to one operation.
 * returns 0: go on; >0: action to take, *err set */
static int op(int cls, size_t size, int *err) {
    if (!on) return 0;
    cnt[cls]++; total++;
    hash = (hash ^ (unsigned long long)cls) * 1099511628211ULL;
    hash = (hash ^ (unsigned long long)size) * 1099511628211ULL;
    for (int i = 0; i < nplan; i++) {
        if (!(plan[i].cls & cls)) continue;
        long k = ++plan[i].seen;
        if (plan[i].act == A_STICKY ? k >= plan[i].nth : k == plan[i].nth) {
            plan[i].fired = 1; fired[plan[i].act]++; *err = plan[i].err;
            return plan[i].act;
        }
    }
    return 0;
}
static void die(void) { _exit(77); }

static int do_open(int isat, int dirfd, const char *path, int flags, mode_t mode, int v64) {
    int err = 0, track = inroot(path);
    int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    if (track) {
        int a = op(w ? C_META : C_OPEN, 0, &err);
        if (a == A_CRASH || a == A_TORN || a == A_PAGE) die();
        if (a == A_FAIL || a == A_STICKY) { errno = err; return -1; }
        if (a == A_INTR) { errno = EINTR; return -1; }
    }
    int fd;
    if (isat) { ENSURE(openat); ENSURE(openat64); fd = v64 ? real_openat64(dirfd, path, flags, mode) : real_openat(dirfd, path, flags, mode); }
    else { ENSURE(open); ENSURE(open64); fd = v64 ? real_open64(path, flags, mode) : real_open(path, flags, mode); }
    if (fd >= 0) mark(fd, track);
    return fd;
}
static mode_t getmode(int flags, va_list ap) {
    return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = getmode(fl, a); va_end(a); return do_open(0, 0, p, fl, m, 0); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = getmode(fl, a); va_end(a); return do_open(0, 0, p, fl, m, 1); }
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = getmode(fl, a); va_end(a); return do_open(1, d, p, fl, m, 0); }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = getmode(fl, a); va_end(a); return do_open(1, d, p, fl, m, 1); }

int close(int fd) {
    ENSURE(close);
    int err = 0;
    if (tr(fd)) {
        mark(fd, 0);
        int a = op(C_CLOSE, 0, &err);
        if (a == A_CRASH || a == A_TORN || a == A_PAGE) die();
        if (a == A_FAIL || a == A_STICKY) { real_close(fd); errno = err; return -1; }
    }
    return real_close(fd);
}
int dup(int fd) { ENSURE(dup); int n = real_dup(fd); if (n >= 0 && n < MAXFD) mark(n, tr(fd)); return n; }
int dup2(int a, int b) { ENSURE(dup2); int n = real_dup2(a, b); if (n >= 0) mark(n, tr(a)); return n; }
int fcntl(int fd, int cmd, ...) {
    ENSURE(fcntl); va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    int r = real_fcntl(fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0) mark(r, tr(fd));
    return r;
}
int fcntl64(int fd, int cmd, ...) {
    ENSURE(fcntl64); va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    int r = real_fcntl64 ? real_fcntl64(fd, cmd, arg) : real_fcntl(fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0) mark(r, tr(fd));
    return r;
}

#define READ_BODY(call_full, call_n) \
    if (tr(fd)) { int err = 0; int a = op(C_READ, n, &err); \
        if (a == A_CRASH || a == A_TORN || a == A_PAGE) die(); \
        if (a == A_FAIL || a == A_STICKY) { errno = err; return -1; } \
        if (a == A_INTR) { errno = EINTR; return -1; } \
        if (a == A_EOF) return 0; \
        if (a == A_SHORT && n > 1) { n = n / 2; return call_n; } } \
    return call_full;
ssize_t read(int fd, void *b, size_t n) { ENSURE(read); READ_BODY(real_read(fd, b, n), real_read(fd, b, n)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { ENSURE(pread); READ_BODY(real_pread(fd, b, n, o), real_pread(fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { ENSURE(pread64); READ_BODY(real_pread64(fd, b, n, o), real_pread64(fd, b, n, o)) }

/* a kill inside a write leaves whole pages of it: the bytes of n, starting at
 * file offset o, that lie before some page boundary inside the write */
static size_t torn_pages(off_t o, size_t n) {
    off_t first = (o / 4096 + 1) * 4096, mid = (off_t)((o + n / 2 + 4095) / 4096) * 4096;
    if (o < 0 || first >= (off_t)(o + n)) return 0;
    if (mid < first || mid >= (off_t)(o + n)) mid = first;
    return mid - o;
}
#define WRITE_BODY(off, call_n) \
    if (tr(fd)) { int err = 0; int a = op(C_WRITE, n, &err); \
        if (a == A_CRASH) die(); \
        if (a == A_TORN) { n = n / 2; if (n) (void)!(call_n); die(); } \
        if (a == A_PAGE) { n = torn_pages(off, n); if (n) (void)!(call_n); die(); } \
        if (a == A_FAIL || a == A_STICKY) { errno = err; return -1; } \
        if (a == A_INTR) { errno = EINTR; return -1; } \
        if (a == A_SHORT && n > 1) { n = n / 2; return call_n; } } \
    return call_n;
ssize_t write(int fd, const void *b, size_t n) { ENSURE(write); WRITE_BODY(lseek(fd, 0, SEEK_CUR), real_write(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { ENSURE(pwrite); WRITE_BODY(o, real_pwrite(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { ENSURE(pwrite64); WRITE_BODY(o, real_pwrite64(fd, b, n, o)) }

ssize_t readv(int fd, const struct iovec *v, int c) {
    ENSURE(readv); int err = 0;
    if (tr(fd)) { int a = op(C_READ, c, &err); if (a == A_CRASH || a == A_TORN || a == A_PAGE) die();
        if (a == A_FAIL || a == A_STICKY) { errno = err; return -1; } if (a == A_EOF) return 0; }
    return real_readv(fd, v, c);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    ENSURE(writev); int err = 0;
    if (tr(fd)) { int a = op(C_WRITE, c, &err); if (a == A_CRASH || a == A_TORN || a == A_PAGE) die();
        if (a == A_FAIL || a == A_STICKY) { errno = err; return -1; } }
    return real_writev(fd, v, c);
}
#define SIMPLE_FD(cls, call) \
    if (tr(fd)) { int err = 0; int a = op(cls, 0, &err); if (a == A_CRASH || a == A_TORN || a == A_PAGE) die(); \
        if (a == A_FAIL || a == A_STICKY) { errno = err; return -1; } } \
    return call;
int ftruncate(int fd, off_t n) { ENSURE(ftruncate); SIMPLE_FD(C_TRUNC, real_ftruncate(fd, n)) }
int ftruncate64(int fd, off64_t n) { ENSURE(ftruncate64); SIMPLE_FD(C_TRUNC, real_ftruncate64(fd, n)) }
int fsync(int fd) { ENSURE(fsync); SIMPLE_FD(C_SYNC, real_fsync(fd)) }
int fdatasync(int fd) { ENSURE(fdatasync); SIMPLE_FD(C_SYNC, real_fdatasync(fd)) }
int rename(const char *x, const char *y) {
    ENSURE(rename); int err = 0;
    if (inroot(x) || inroot(y)) { int a = op(C_META, 0, &err); if (a == A_CRASH || a == A_TORN || a == A_PAGE) die();
        if (a == A_FAIL || a == A_STICKY) { errno = err; return -1; } }
    return real_rename(x, y);
}
int unlink(const char *x) {
    ENSURE(unlink); int err = 0;
    if (inroot(x)) { int a = op(C_META, 0, &err); if (a == A_CRASH || a == A_TORN || a == A_PAGE) die();
        if (a == A_FAIL || a == A_STICKY) { errno = err; return -1; } }
    return real_unlink(x);
}
/* stdio used by numpy's fromfile/tofile */
size_t fread(void *b, size_t s, size_t n, FILE *f) {
    ENSURE(fread); int err = 0, fd = fileno(f);
    if (tr(fd)) {
        int a = op(C_READ, s * n, &err);
        if (a == A_CRASH || a == A_TORN || a == A_PAGE) die();
        if (a == A_FAIL || a == A_STICKY || a == A_INTR) { errno = err; return 0; }
        if (a == A_EOF) return 0;
        if (a == A_SHORT) return real_fread(b, s, n / 2, f);
    }
    return real_fread(b, s, n, f);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    ENSURE(fwrite); int err = 0, fd = fileno(f);
    if (tr(fd)) {
        int a = op(C_WRITE, s * n, &err);
        if (a == A_CRASH) die();
        if (a == A_TORN || a == A_PAGE) { real_fwrite(b, s, n / 2, f); real_fflush(f); die(); }
        if (a == A_FAIL || a == A_STICKY || a == A_INTR) { errno = err; return 0; }
        if (a == A_SHORT) { errno = ENOSPC; return real_fwrite(b, s, n / 2, f); }
        size_t r = real_fwrite(b, s, n, f);
        ENSURE(fflush); real_fflush(f);
        return r;
    }
    return real_fwrite(b, s, n, f);
}
int fclose(FILE *f) {
    ENSURE(fclose); int fd = fileno(f);
    if (tr(fd)) mark(fd, 0);
    return real_fclose(f);
}
int closedir(DIR *d) { ENSURE(closedir); mark(dirfd(d), 0); return real_closedir(d); }
int pipe(int *p) { ENSURE(pipe); int r = real_pipe(p); if (r == 0) { mark(p[0], 0); mark(p[1], 0); } return r; }
int pipe2(int *p, int f) { ENSURE(pipe2); int r = real_pipe2(p, f); if (r == 0) { mark(p[0], 0); mark(p[1], 0); } return r; }

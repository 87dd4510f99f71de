/* File-operation monitor, loaded with LD_PRELOAD. Logs file operations of the process, and on request kills the process
 * before the n-th of them, makes them fail, delays them, makes directories behave like separate filesystems, or lets an
 * outside scheduler decide when each one happens. Inactive until told otherwise by the harness (through ctypes). */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MUT 1
#define RD 2
#define ST 4
#define CL 8
enum { OFF, COUNT, KILL, KILLPART, FAIL, SCHED, DELAY, SHORT };

static char prefixes[8][PATH_MAX];
static int nprefix;
static char xdev[PATH_MAX];
static int logfd = -1, logall;
static int mode, err_, sticky, mask, askfd = -1, gofd = -1;
static long target, seed;
static long count;
static char lastop[64];

static void *real_(const char *n) { return dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__); if (!r) r = (ret (*)(__VA_ARGS__))real_(#name)

void fsm_reset(void) { nprefix = 0; xdev[0] = 0; mode = OFF; count = 0; sticky = 0; }
void fsm_prefix(const char *p) { if (nprefix < 8) { strncpy(prefixes[nprefix], p, PATH_MAX - 1); nprefix++; } }
void fsm_xdev(const char *p) { strncpy(xdev, p, PATH_MAX - 1); }
void fsm_log(int fd, int all) { logfd = fd; logall = all; }
void fsm_arm(int m, long n, int e, int s, int k) { target = n; err_ = e; sticky = s; mask = k; __atomic_store_n(&count, 0, __ATOMIC_SEQ_CST);
    lastop[0] = 0; mode = m; }
void fsm_sched(int ask, int go, int k) { askfd = ask; gofd = go; mask = k; count = 0; mode = SCHED; }
void fsm_delay(long s, int k) { seed = s; mask = k; count = 0; mode = DELAY; }
long fsm_count(void) { return count; }
const char *fsm_last(void) { return lastop; }

static int under(const char *p, const char *d) {
    size_t n = strlen(d);
    return n && strncmp(p, d, n) == 0 && (p[n] == 0 || p[n] == '/');
}
static int watched(const char *p) {
    for (int i = 0; i < nprefix; i++) if (under(p, prefixes[i])) return 1;
    return 0;
}
static const char *fdpath(int fd, char *out) {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, out, PATH_MAX - 1);
    if (n < 0) n = 0;
    out[n] = 0;
    return out;
}
/* absolute form of path relative to dirfd */
static const char *absat(int dirfd, const char *path, char *out) {
    if (!path) { out[0] = 0; return out; }
    if (path[0] == '/') { snprintf(out, PATH_MAX, "%s", path); }
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0; }
        else fdpath(dirfd, base);
        if (path[0]) snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, path); else snprintf(out, PATH_MAX, "%s", base);
    }
    /* lexical: drop empty and "." segments, resolve ".." (the harness spells paths so only where no symlink is involved) */
    char *w = out, *r = out;
    while (*r) {
        while (*r == '/') r++;
        size_t n = 0;
        while (r[n] && r[n] != '/') n++;
        if (n == 0 || (n == 1 && r[0] == '.')) { r += n; continue; }
        if (n == 2 && r[0] == '.' && r[1] == '.') { r += n; while (w > out && *--w != '/') ; continue; }
        *w++ = '/';
        memmove(w, r, n);
        w += n; r += n;
    }
    if (w == out) *w++ = '/';
    *w = 0;
    return out;
}
static void logop(const char *op, int cls, const char *p1, const char *p2, long res, int e) {
    if (logfd < 0) return;
    if (!(cls & MUT) && !(logall && (watched(p1) || (p2 && watched(p2))))) return;
    char b[2 * PATH_MAX + 100];
    int n = snprintf(b, sizeof b, "%s\x1f%s\x1f%s\x1f%ld\x1f%d\x1e", op, p1, p2 ? p2 : "", res, res < 0 ? e : 0);
    if (n > (int)sizeof b) n = sizeof b;
    syscall(SYS_write, logfd, b, n);
}
/* Called before an operation. Returns 0: go on, 1: fail with errno set, 2: do it partially and then die, 3: do it partially. */
static int before(const char *op, int cls, const char *p1, const char *p2) {
    if (mode == OFF || !(cls & mask)) return 0;
    if (!watched(p1) && !(p2 && watched(p2))) return 0;
    long n = __atomic_add_fetch(&count, 1, __ATOMIC_SEQ_CST);
    switch (mode) {
    case KILL: if (n == target) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); } break;
    case KILLPART: if (n == target && strcmp(op, "write") == 0) return 2; break;
    case SHORT: if (n == target && strcmp(op, "write") == 0) return 3;
        /* fall through */
    case FAIL: if (n == target || (sticky && n > target)) { if (n == target) snprintf(lastop, sizeof lastop, "%s", op); errno = err_; return 1; } break;
    case SCHED: {
        char b[2 * PATH_MAX + 100], c;
        int k = snprintf(b, sizeof b, "%s\x1f%s\x1f%s\x1e", op, p1, p2 ? p2 : "");
        syscall(SYS_write, askfd, b, k);
        ssize_t q;
        do { q = syscall(SYS_read, gofd, &c, 1); } while (q < 0 && errno == EINTR);
        if (q == 0) mode = OFF;
        else if (c == 'f') { errno = ENOSPC; return 1; }
        break; }
    case DELAY: {
        unsigned long x = (unsigned long)seed * 6364136223846793005UL + (unsigned long)n * 1442695040888963407UL;
        x ^= x >> 29; x *= 0xbf58476d1ce4e5b9UL; x ^= x >> 32;
        if (x % 3 == 0) { struct timespec t = {0, (long)((x >> 8) % 2000000)}; syscall(SYS_nanosleep, &t, 0); }
        break; }
    }
    return 0;
}
static int crossing(const char *a, const char *b) { return xdev[0] && under(a, xdev) != under(b, xdev); }


static int do_open(int dirfd, const char *path, int flags, mode_t m) {
    char p[PATH_MAX];
    absat(dirfd, path, p);
    int w = (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY;
    int cls = w ? MUT : RD;
    if (before(w ? "openw" : "openr", cls, p, 0)) { int e = errno; logop("open", cls, p, 0, -1, e); errno = e; return -1; }
    int r = syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, m);
    int e = errno;
    logop(w ? "openw" : "openr", cls, p, 0, r < 0 ? -1 : 0, e);
    errno = e;
    return r;
}
#define GETMODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, m); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, m); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t part(int fd, const void *b, size_t n, int k) {
    ssize_t r = n > 1 ? syscall(SYS_write, fd, b, n / 2) : 0;
    if (k == 2) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (mode == OFF && logfd < 0) return syscall(SYS_write, fd, b, n);
    char p[PATH_MAX]; fdpath(fd, p);
    if (p[0] != '/' || strncmp(p, "/dev/", 5) == 0) return syscall(SYS_write, fd, b, n);
    int k = before("write", MUT, p, 0);
    if (k == 1) { int e = errno; logop("write", MUT, p, 0, -1, e); errno = e; return -1; }
    if (k == 2 || (k == 3 && n > 1)) return part(fd, b, n, k);
    ssize_t r = syscall(SYS_write, fd, b, n); int e = errno;
    logop("write", MUT, p, 0, r, e); errno = e;
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    char p[PATH_MAX]; fdpath(fd, p);
    if (before("write", MUT, p, 0) == 1) return -1;
    ssize_t r = syscall(SYS_pwrite64, fd, b, n, o); int e = errno;
    logop("write", MUT, p, 0, r, e); errno = e;
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    char p[PATH_MAX]; fdpath(fd, p);
    if (before("write", MUT, p, 0) == 1) return -1;
    ssize_t r = syscall(SYS_writev, fd, v, n); int e = errno;
    logop("write", MUT, p, 0, r, e); errno = e;
    return r;
}
ssize_t read(int fd, void *b, size_t n) {
    if (mode == OFF || !(mask & RD)) return syscall(SYS_read, fd, b, n);
    char p[PATH_MAX]; fdpath(fd, p);
    if (p[0] == '/' && before("read", RD, p, 0)) return -1;
    return syscall(SYS_read, fd, b, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    char p[PATH_MAX], q[PATH_MAX]; fdpath(out, p); fdpath(in, q);
    int k = before("write", MUT, p, 0);
    if (k == 1) { int e = errno; logop("write", MUT, p, 0, -1, e); errno = e; return -1; }
    if (k == 2 || k == 3) {
        struct stat64 s; off64_t half = 0;
        if (fstat64(in, &s) == 0) half = s.st_size / 2;
        ssize_t r = half ? syscall(SYS_sendfile, out, in, o, (size_t)half) : 0;
        if (k == 2) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
        if (half) return r;
    }
    ssize_t r = syscall(SYS_sendfile, out, in, o, n); int e = errno;
    if (r) logop("write", MUT, p, q, r, e);
    errno = e;
    return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, (off64_t *)o, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
    char p[PATH_MAX]; fdpath(out, p);
    if (before("write", MUT, p, 0) == 1) return -1;
    ssize_t r = syscall(SYS_copy_file_range, in, oi, out, oo, n, f); int e = errno;
    logop("write", MUT, p, 0, r, e); errno = e;
    return r;
}

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned f, const char *op) {
    char p[PATH_MAX], q[PATH_MAX];
    absat(d1, a, p); absat(d2, b, q);
    if (before(op, MUT, p, q)) { int e = errno; logop(op, MUT, p, q, -1, e); errno = e; return -1; }
    if (crossing(p, q)) { logop(op, MUT, p, q, -1, EXDEV); errno = EXDEV; return -1; }
    int r = syscall(SYS_renameat2, d1, a, d2, b, f); int e = errno;
    logop(op, MUT, p, q, r, e); errno = e;
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0, "rename"); }
int renameat(int d, const char *a, int e, const char *b) { return do_rename(d, a, e, b, 0, "rename"); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return do_rename(d, a, e, b, f, "rename"); }
static int do_link(int d1, const char *a, int d2, const char *b, int f) {
    char p[PATH_MAX], q[PATH_MAX];
    absat(d1, a, p); absat(d2, b, q);
    if (before("link", MUT, p, q)) return -1;
    if (crossing(p, q)) { errno = EXDEV; return -1; }
    int r = syscall(SYS_linkat, d1, a, d2, b, f); int e = errno;
    logop("link", MUT, p, q, r, e); errno = e;
    return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_link(d1, a, d2, b, f); }

#define ONE(op, cls, dirfd, path, call) do { \
    char p[PATH_MAX]; absat(dirfd, path, p); \
    if (before(op, cls, p, 0)) { int e = errno; logop(op, cls, p, 0, -1, e); errno = e; return -1; } \
    int r = (int)(call); int e = errno; logop(op, cls, p, 0, r, e); errno = e; return r; } while (0)
#define ONEFD(op, cls, fd, call) do { \
    char p[PATH_MAX]; fdpath(fd, p); \
    if (before(op, cls, p, 0)) { int e = errno; logop(op, cls, p, 0, -1, e); errno = e; return -1; } \
    int r = (int)(call); int e = errno; logop(op, cls, p, 0, r, e); errno = e; return r; } while (0)

int unlink(const char *a) { ONE("unlink", MUT, AT_FDCWD, a, syscall(SYS_unlink, a)); }
int unlinkat(int d, const char *a, int f) { ONE(f & AT_REMOVEDIR ? "rmdir" : "unlink", MUT, d, a, syscall(SYS_unlinkat, d, a, f)); }
int remove(const char *a) { int r = unlink(a); if (r < 0 && errno == EISDIR) return rmdir(a); return r; }
int rmdir(const char *a) { ONE("rmdir", MUT, AT_FDCWD, a, syscall(SYS_rmdir, a)); }
int mkdir(const char *a, mode_t m) { ONE("mkdir", MUT, AT_FDCWD, a, syscall(SYS_mkdir, a, m)); }
int mkdirat(int d, const char *a, mode_t m) { ONE("mkdir", MUT, d, a, syscall(SYS_mkdirat, d, a, m)); }
int symlink(const char *t, const char *a) { ONE("symlink", MUT, AT_FDCWD, a, syscall(SYS_symlink, t, a)); }
int symlinkat(const char *t, int d, const char *a) { ONE("symlink", MUT, d, a, syscall(SYS_symlinkat, t, d, a)); }
int mknod(const char *a, mode_t m, dev_t v) { ONE("mknod", MUT, AT_FDCWD, a, syscall(SYS_mknod, a, m, v)); }
int truncate64(const char *a, off64_t n) { ONE("truncate", MUT, AT_FDCWD, a, syscall(SYS_truncate, a, n)); }
int truncate(const char *a, off_t n) { return truncate64(a, n); }
int ftruncate64(int fd, off64_t n) { ONEFD("truncate", MUT, fd, syscall(SYS_ftruncate, fd, n)); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int chmod(const char *a, mode_t m) { ONE("chmod", MUT, AT_FDCWD, a, syscall(SYS_chmod, a, m)); }
int fchmod(int fd, mode_t m) { ONEFD("chmod", MUT, fd, syscall(SYS_fchmod, fd, m)); }
int fchmodat(int d, const char *a, mode_t m, int f) { (void)f; ONE("chmod", MUT, d, a, syscall(SYS_fchmodat, d, a, m)); }
int chown(const char *a, uid_t u, gid_t g) { ONE("chown", MUT, AT_FDCWD, a, syscall(SYS_chown, a, u, g)); }
int lchown(const char *a, uid_t u, gid_t g) { ONE("chown", MUT, AT_FDCWD, a, syscall(SYS_lchown, a, u, g)); }
int fchown(int fd, uid_t u, gid_t g) { ONEFD("chown", MUT, fd, syscall(SYS_fchown, fd, u, g)); }
int utimensat(int d, const char *a, const struct timespec t[2], int f) { ONE("utime", MUT, d, a, syscall(SYS_utimensat, d, a, t, f)); }
int futimens(int fd, const struct timespec t[2]) { ONEFD("utime", MUT, fd, syscall(SYS_utimensat, fd, 0, t, 0)); }
int setxattr(const char *a, const char *n, const void *v, size_t s, int f) { ONE("xattr", MUT, AT_FDCWD, a, syscall(SYS_setxattr, a, n, v, s, f)); }
int fsync(int fd) { ONEFD("fsync", CL, fd, syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { ONEFD("fsync", CL, fd, syscall(SYS_fdatasync, fd)); }
int close(int fd) {
    if (mode == FAIL && (mask & CL)) {
        char p[PATH_MAX];
        int fl = syscall(SYS_fcntl, fd, F_GETFL);
        fdpath(fd, p);
        if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY && p[0] == '/' && before("close", CL, p, 0)) {
            syscall(SYS_close, fd);
            errno = err_;
            return -1;
        }
    }
    return syscall(SYS_close, fd);
}
int stat64(const char *a, struct stat64 *s) {
    if ((mode == FAIL || mode == COUNT) && (mask & ST)) { char p[PATH_MAX]; absat(AT_FDCWD, a, p); if (before("stat", ST, p, 0)) return -1; }
    return syscall(SYS_newfstatat, AT_FDCWD, a, s, 0);
}
int lstat64(const char *a, struct stat64 *s) {
    if ((mode == FAIL || mode == COUNT) && (mask & ST)) { char p[PATH_MAX]; absat(AT_FDCWD, a, p); if (before("stat", ST, p, 0)) return -1; }
    return syscall(SYS_newfstatat, AT_FDCWD, a, s, AT_SYMLINK_NOFOLLOW);
}
int fstatat64(int d, const char *a, struct stat64 *s, int f) {
    if ((mode == FAIL || mode == COUNT) && (mask & ST)) { char p[PATH_MAX]; absat(d, a, p); if (before("stat", ST, p, 0)) return -1; }
    return syscall(SYS_newfstatat, d, a, s, f);
}
DIR *opendir(const char *a) {
    REAL(DIR *, opendir, const char *);
    if (mode == FAIL || mode == SHORT) { char p[PATH_MAX]; absat(AT_FDCWD, a, p); if (before("opendir", RD, p, 0)) return 0; }
    return r(a);
}

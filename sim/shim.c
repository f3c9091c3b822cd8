/* LD_PRELOAD seam for the storage georinex writes through libnetcdf/libhdf5.
 *
 * Inactive (pure pass-through) until simshim_begin(root) is called by the
 * simulator inside the process.  While active, every mutating file operation
 * on a path below `root` is numbered; operation number `fail_at` is given the
 * configured fault instead of (or as well as) its effect, and every operation
 * is appended to a binary log from which crash images are rebuilt.
 *
 * Nothing here reads a clock or draws a random number: the decisions are the
 * simulator's (Python side), this only carries them out.
 */
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_CREATE = 1, OP_WRITE, OP_TRUNC, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_CLOSE, OP_OPENW, OP_FAULT };
enum { F_NONE = 0, F_ERRNO, F_SHORT, F_KILL, F_TORNKILL, F_STICKY };

#define MAXFD 4096
static int active = 0, in_shim = 0;
static char root[1024];
static size_t rootlen = 0;
static char *fdpath[MAXFD];
static long opno = 0, fail_at = -1;
static int fail_kind = 0, fail_errno = 0;
static long fired = 0;
static unsigned char *lg = NULL;
/* reads (and openings for reading) below root are numbered on their own */
static char fdread[MAXFD];
static long rdno = 0, rd_at = -1, rd_fired = 0, rd_opens = 0;
static int rd_kind = 0, rd_errno = 0;
enum { R_NONE = 0, R_ERRNO, R_SHORT, R_STICKY };
static size_t lglen = 0, lgcap = 0;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name);

static void put(const void *p, size_t n) {
    if (lglen + n > lgcap) {
        size_t c = (lgcap ? lgcap * 2 : 1 << 20);
        while (c < lglen + n) c *= 2;
        unsigned char *q = realloc(lg, c);
        if (!q) abort();
        lg = q; lgcap = c;
    }
    memcpy(lg + lglen, p, n); lglen += n;
}
static void rec(uint32_t kind, const char *path, const char *path2, int64_t off, const void *data, uint64_t n) {
    uint32_t l1 = path ? strlen(path) : 0, l2 = path2 ? strlen(path2) : 0;
    put(&kind, 4); put(&l1, 4); put(&l2, 4); put(&off, 8); put(&n, 8);
    if (l1) put(path, l1);
    if (l2) put(path2, l2);
    if (n && data) put(data, n);
}
void simshim_begin(const char *r) {
    strncpy(root, r, sizeof(root) - 1); rootlen = strlen(root);
    opno = 0; fired = 0; lglen = 0; fail_at = -1; fail_kind = 0; active = 1;
    rdno = 0; rd_at = -1; rd_kind = 0; rd_fired = 0; rd_opens = 0;
}
void simshim_end(void) { active = 0; }
void simshim_rfault(long at, int kind, int err) { rd_at = at; rd_kind = kind; rd_errno = err; }
long simshim_reads(void) { return rdno; }
long simshim_rfired(void) { return rd_fired; }
long simshim_ropens(void) { return rd_opens; }
void simshim_fault(long at, int kind, int err) { fail_at = at; fail_kind = kind; fail_errno = err; }
long simshim_ops(void) { return opno; }
long simshim_fired(void) { return fired; }
size_t simshim_loglen(void) { return lglen; }
void *simshim_log(void) { return lg; }

static int abspath(int dirfd, const char *p, char *out, size_t n) {
    if (!p) return 0;
    if (p[0] == '/') { snprintf(out, n, "%s", p); return 1; }
    if (dirfd != AT_FDCWD) return 0;
    char cwd[1024];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    snprintf(out, n, "%s/%s", cwd, p);
    return 1;
}
static int under(const char *p) { return active && rootlen && strncmp(p, root, rootlen) == 0; }

/* decide: 0 = proceed, 1 = fail with errno, 2 = short write, 3 = die before, 4 = torn write then die */
static int decide(int op, const char *path) {
    long n = opno++;
    int is_write = op == OP_WRITE;
    if (fail_kind == F_NONE || fail_at < 0) return 0;
    if (fail_kind == F_STICKY) { /* a full or failing disk: removing and renaming still work */
        if (n >= fail_at && op != OP_UNLINK && op != OP_RENAME) { fired++; rec(OP_FAULT, path, NULL, op, NULL, 0); return 1; }
        return 0;
    }
    if (n != fail_at) return 0;
    fired++;
    rec(OP_FAULT, path, NULL, op, NULL, 0);
    if (fail_kind == F_ERRNO) return 1;
    if (fail_kind == F_SHORT) return is_write ? 2 : 0;
    if (fail_kind == F_KILL) return 3;
    if (fail_kind == F_TORNKILL) return is_write ? 4 : 3;
    return 0;
}

/* a read is about to be made: 0 = proceed, 1 = fail, 2 = deliver less */
static int rdecide(void) {
    long n = rdno++;
    if (!rd_kind || rd_at < 0 || (rd_kind == R_STICKY ? n < rd_at : n != rd_at)) return 0;
    rd_fired++;
    return rd_kind == R_SHORT ? 2 : 1;
}
static int real_openat_w(int dirfd, const char *p, int f, mode_t m);
static int do_open(int (*real)(int, const char *, int, mode_t), int dirfd, const char *path, int flags, mode_t mode) {
    char ap[2048];
    if (!active || in_shim || !abspath(dirfd, path, ap, sizeof ap) || !under(ap) || (flags & O_ACCMODE) == O_RDONLY) {
        int reading = active && !in_shim && abspath(dirfd, path, ap, sizeof ap) && under(ap) && !(flags & O_DIRECTORY);
        if (reading && access(ap, F_OK) == 0) {
            rd_opens++;
            if (rdecide() == 1) { errno = rd_errno; return -1; }
        }
        int fd = real(dirfd, path, flags, mode);
        if (active && fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; }
        if (fd >= 0 && fd < MAXFD) fdread[fd] = reading;
        return fd;
    }
    struct stat st;
    int existed = stat(ap, &st) == 0;
    int creating = (flags & O_CREAT) && (!existed || (flags & O_TRUNC));
    if (!existed && !(flags & O_CREAT)) return real(dirfd, path, flags, mode);
    if (creating) {
        int d = decide(OP_CREATE, ap);
        if (d == 1) { errno = fail_errno; return -1; }
        if (d >= 3) _exit(97);
    }
    int fd = real(dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) {
        if (fdpath[fd]) free(fdpath[fd]);
        fdpath[fd] = strdup(ap);
        fdread[fd] = 1;
        rec(creating ? OP_CREATE : OP_OPENW, ap, NULL, 0, NULL, 0);
    }
    return fd;
}
static int real_openat_w(int dirfd, const char *p, int f, mode_t m) {
    REAL(int, openat, int, const char *, int, ...)
    return real_openat(dirfd, p, f, m);
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE return do_open(real_openat_w, AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE return do_open(real_openat_w, AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE return do_open(real_openat_w, d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE return do_open(real_openat_w, d, p, flags, mode); }

static ssize_t w_raw(int fd, const void *b, size_t n, off_t off, int positioned) {
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
    REAL(ssize_t, write, int, const void *, size_t)
    return positioned ? real_pwrite(fd, b, n, off) : real_write(fd, b, n);
}
static ssize_t w_any(int fd, const void *b, size_t n, off_t off, int positioned) {
    if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return w_raw(fd, b, n, off, positioned);
    off_t at = positioned ? off : lseek(fd, 0, SEEK_CUR);
    int d = decide(OP_WRITE, fdpath[fd]);
    if (d == 1) { errno = fail_errno; return -1; }
    if (d == 3) _exit(97);
    size_t m = n;
    if ((d == 2 || d == 4) && n > 1) m = n / 2;
    ssize_t r = w_raw(fd, b, m, off, positioned);
    if (r > 0) rec(OP_WRITE, fdpath[fd], NULL, at, b, r);
    if (d == 4) _exit(97);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return w_any(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return w_any(fd, b, n, o, 1); }
ssize_t write(int fd, const void *b, size_t n) { return w_any(fd, b, n, 0, 0); }

static ssize_t r_any(int fd, void *b, size_t n, off_t off, int positioned) {
    REAL(ssize_t, pread, int, void *, size_t, off_t)
    REAL(ssize_t, read, int, void *, size_t)
    if (active && fd >= 0 && fd < MAXFD && fdread[fd]) {
        int d = rdecide();
        if (d == 1) { errno = rd_errno; return -1; }
        if (d == 2 && n > 1) n = n / 2;
    }
    return positioned ? real_pread(fd, b, n, off) : real_read(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return r_any(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return r_any(fd, b, n, o, 1); }
ssize_t read(int fd, void *b, size_t n) { return r_any(fd, b, n, 0, 0); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t z) { if (n > z) abort(); return r_any(fd, b, n, 0, 0); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t z) { if (n > z) abort(); return r_any(fd, b, n, o, 1); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t z) { if (n > z) abort(); return r_any(fd, b, n, o, 1); }

/* copies inside the kernel are carried out as reads and writes, so that they are seen */
static ssize_t copy_seen(int out, int in, off_t *inoff, off_t *outoff, size_t n) {
    char buf[65536];
    if (n > sizeof buf) n = sizeof buf;
    ssize_t r = inoff ? pread(in, buf, n, *inoff) : read(in, buf, n);
    if (r <= 0) return r;
    ssize_t w = outoff ? w_any(out, buf, r, *outoff, 1) : w_any(out, buf, r, 0, 0);
    if (w > 0 && inoff) *inoff += w;
    else if (w < r && !inoff) lseek(in, (w > 0 ? w : 0) - r, SEEK_CUR);
    if (w > 0 && outoff) *outoff += w;
    return w;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t)
    if (active && out >= 0 && out < MAXFD && fdpath[out]) return copy_seen(out, in, off, NULL, n);
    return real_sendfile(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
    if (active && out >= 0 && out < MAXFD && fdpath[out]) return copy_seen(out, in, (off_t *)off, NULL, n);
    return real_sendfile64(out, in, off, n);
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
    if (active && out >= 0 && out < MAXFD && fdpath[out]) return copy_seen(out, in, (off_t *)io, (off_t *)oo, n);
    return real_copy_file_range(in, io, out, oo, n, f);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int)
    if (active && fd >= 0 && fd < MAXFD && fdpath[fd] && n > 0) return w_any(fd, v[0].iov_base, v[0].iov_len, 0, 0);
    return real_writev(fd, v, n);
}

static int t_any(int fd, off_t len) {
    REAL(int, ftruncate, int, off_t)
    if (active && fd >= 0 && fd < MAXFD && fdpath[fd]) {
        int d = decide(OP_TRUNC, fdpath[fd]);
        if (d == 1) { errno = fail_errno; return -1; }
        if (d >= 3) _exit(97);
        rec(OP_TRUNC, fdpath[fd], NULL, len, NULL, 0);
    }
    return real_ftruncate(fd, len);
}
int ftruncate(int fd, off_t len) { return t_any(fd, len); }
int ftruncate64(int fd, off64_t len) { return t_any(fd, len); }

static int s_any(int fd, int data) {
    REAL(int, fsync, int)
    REAL(int, fdatasync, int)
    char path[2048] = "";
    if (active && fd >= 0) {
        char ln[64]; snprintf(ln, sizeof ln, "/proc/self/fd/%d", fd);
        ssize_t k = readlink(ln, path, sizeof path - 1);
        path[k > 0 ? k : 0] = 0;
    }
    if (active && under(path)) {
        int d = decide(OP_FSYNC, path);
        if (d == 1) { errno = fail_errno; return -1; }
        if (d >= 3) _exit(97);
        rec(OP_FSYNC, path, NULL, 0, NULL, 0);
    }
    return data ? real_fdatasync(fd) : real_fsync(fd);
}
int fsync(int fd) { return s_any(fd, 0); }
int fdatasync(int fd) { return s_any(fd, 1); }

int close(int fd) {
    REAL(int, close, int)
    if (fd >= 0 && fd < MAXFD) fdread[fd] = 0;
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
        if (active) rec(OP_CLOSE, fdpath[fd], NULL, 0, NULL, 0);
        free(fdpath[fd]); fdpath[fd] = NULL;
    }
    return real_close(fd);
}
static int ren(const char *a, const char *b, int d1, int d2, int at) {
    REAL(int, rename, const char *, const char *)
    REAL(int, renameat, int, const char *, int, const char *)
    char pa[2048], pb[2048];
    int tracked = active && abspath(d1, a, pa, sizeof pa) && abspath(d2, b, pb, sizeof pb) && (under(pa) || under(pb));
    struct stat st;
    if (tracked && lstat(pa, &st) != 0) tracked = 0;
    if (tracked) {
        int d = decide(OP_RENAME, pa);
        if (d == 1) { errno = fail_errno; return -1; }
        if (d >= 3) _exit(97);
    }
    int r = at ? real_renameat(d1, a, d2, b) : real_rename(a, b);
    if (tracked && r == 0) rec(OP_RENAME, pa, pb, 0, NULL, 0);
    return r;
}
int rename(const char *a, const char *b) { return ren(a, b, AT_FDCWD, AT_FDCWD, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return ren(a, b, d1, d2, 1); }
static int unl(int dfd, const char *p, int flags, int at) {
    REAL(int, unlink, const char *)
    REAL(int, unlinkat, int, const char *, int)
    char ap[2048];
    int tracked = active && !(flags & AT_REMOVEDIR) && abspath(dfd, p, ap, sizeof ap) && under(ap);
    struct stat st;
    if (tracked && lstat(ap, &st) != 0) tracked = 0;
    if (tracked) {
        int d = decide(OP_UNLINK, ap);
        if (d == 1) { errno = fail_errno; return -1; }
        if (d >= 3) _exit(97);
    }
    int r = at ? real_unlinkat(dfd, p, flags) : real_unlink(p);
    if (tracked && r == 0) rec(OP_UNLINK, ap, NULL, 0, NULL, 0);
    return r;
}
int unlink(const char *p) { return unl(AT_FDCWD, p, 0, 0); }
int unlinkat(int d, const char *p, int f) { return unl(d, p, f, 1); }

/* wall clock: shifted by the simulator's offset (seconds), off by default */
#include <sys/time.h>
#include <time.h>
static long clk = 0;
void simshim_clock(long s) { clk = s; }
int clock_gettime(clockid_t id, struct timespec *t) {
    REAL(int, clock_gettime, clockid_t, struct timespec *)
    int r = real_clock_gettime(id, t);
    if (r == 0 && clk && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) t->tv_sec += clk;
    return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    REAL(int, gettimeofday, struct timeval *, void *)
    int r = real_gettimeofday(t, z);
    if (r == 0 && clk && t) t->tv_sec += clk;
    return r;
}
time_t time(time_t *p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}

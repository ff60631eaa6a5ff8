/* System-call seam of the simulated host (LD_PRELOAD).
 *
 * Every file-system call a simulated process makes below the simulated root is
 * announced to the supervisor (the simulated kernel) over a pipe and then waits
 * for the supervisor's reply, which says when it may go on and what happens:
 * normal execution, an error, a short transfer, or death of the process.  Only
 * the process that was granted a step runs, so the supervisor's seeded choices
 * decide the interleaving completely.  The realtime clock is simulated too.
 * With no slot attached every call passes straight through.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { C_OPEN_R = 1, C_OPEN_W, C_READ, C_WRITE, C_CLOSE, C_SYNC, C_RENAME, C_UNLINK, C_MKDIR, C_RMDIR,
       C_STAT, C_OPENDIR, C_TRUNC, C_COPY, C_CHDIR, C_LINK, C_MSG };
enum { A_GO = 0, A_ERR = 1, A_SHORT = 2, A_DIE = 3, A_DIE_AFTER = 4 };

struct req { int32_t cls; int32_t len; int64_t arg; char path[400]; };
struct rep { int32_t action; int32_t err; int64_t n; };

struct clockblk { volatile int on; volatile int64_t now_ns; volatile int64_t step_ns; };

static char root[512];
static size_t rootlen;
static int reqfd = -1, repfd = -1;
static struct clockblk *clk;
static char fdpath[1024][400];
static unsigned char fdtrk[1024];
static __thread int inside;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* -------- control API (ctypes) */
void gemsim_attach(const char *r, int rq, int rp) {
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    reqfd = rq; repfd = rp;
}
void gemsim_detach(void) { reqfd = repfd = -1; }
void gemsim_clock(void *p) { clk = p; }
int gemsim_active(void) { return reqfd >= 0; }

static ssize_t raw_rw(int wr, int fd, void *b, size_t n) {
    size_t d = 0;
    while (d < n) {
        long k = syscall(wr ? SYS_write : SYS_read, fd, (char *)b + d, n - d);
        if (k < 0) { if (errno == EINTR) continue; _exit(97); }
        if (k == 0) _exit(98);
        d += k;
    }
    return d;
}

static struct rep ask(int cls, int64_t arg, const char *path) {
    struct req q; struct rep p;
    int e = errno;
    memset(&q, 0, sizeof q);
    q.cls = cls; q.arg = arg;
    if (path) snprintf(q.path, sizeof q.path, "%s", path);
    raw_rw(1, reqfd, &q, sizeof q);
    raw_rw(0, repfd, &p, sizeof p);
    if (p.action == A_DIE) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
    errno = e;
    return p;
}
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

/* explicit message from Python: payload follows, reply header + payload follows */
int gemsim_msg(int64_t arg, const char *buf, int len, struct rep *out) {
    struct req q;
    memset(&q, 0, sizeof q);
    q.cls = C_MSG; q.arg = arg; q.len = len;
    raw_rw(1, reqfd, &q, sizeof q);
    if (len) raw_rw(1, reqfd, (void *)buf, len);
    raw_rw(0, repfd, out, sizeof *out);
    if (out->action == A_DIE) die();
    return 0;
}
void gemsim_recv(char *buf, int64_t n) { raw_rw(0, repfd, buf, n); }

static int resolve(int dirfd, const char *path, char *out, size_t n) {
    if (reqfd < 0 || inside || !path) return 0;
    if (path[0] == '/') snprintf(out, n, "%s", path);
    else {
        char cwd[512];
        if (dirfd != AT_FDCWD && dirfd >= 0 && dirfd < 1024 && fdtrk[dirfd])
            snprintf(cwd, sizeof cwd, "%s%s", root, fdpath[dirfd]);
        else if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        if (!strcmp(path, ".")) snprintf(out, n, "%s", cwd);
        else snprintf(out, n, "%s/%s", cwd, !strncmp(path, "./", 2) ? path + 2 : path);
    }
    if (strncmp(out, root, rootlen)) return 0;
    if (out[rootlen] && out[rootlen] != '/') return 0;
    memmove(out, out + rootlen, strlen(out + rootlen) + 1);
    return 1;
}
static int tracked(int fd) { return reqfd >= 0 && !inside && fd >= 0 && fd < 1024 && fdtrk[fd]; }
static void track(int fd, const char *p) {
    if (fd >= 0 && fd < 1024) { fdtrk[fd] = 1; snprintf(fdpath[fd], sizeof fdpath[fd], "%s", p); }
}

/* -------- open family */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char p[1024];
    if (!resolve(dirfd, path, p, sizeof p)) {
        int fd = syscall(SYS_openat, dirfd, path, flags, mode);
        if (fd >= 0 && fd < 1024) fdtrk[fd] = 0;
        return fd;
    }
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    struct rep r = ask((flags & O_DIRECTORY) ? C_OPENDIR : w ? C_OPEN_W : C_OPEN_R, flags, p);
    if (r.action == A_ERR) { errno = r.err; return -1; }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0) track(fd, p);
    if (r.action == A_DIE_AFTER) die();
    return fd;
}
#define MODE() mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE() return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE() return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE() return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE() return do_open(d, path, flags, mode); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    if (tracked(fd)) {
        struct rep r = ask(C_CLOSE, 0, fdpath[fd]);
        fdtrk[fd] = 0;
        if (r.action == A_ERR) { syscall(SYS_close, fd); errno = r.err; return -1; }
    } else if (fd >= 0 && fd < 1024) fdtrk[fd] = 0;
    return syscall(SYS_close, fd);
}
int dup2(int a, int b) { int r = syscall(SYS_dup2, a, b); if (r >= 0 && b < 1024) fdtrk[b] = 0; return r; }

/* -------- data transfer */
static ssize_t do_read(int fd, void *b, size_t n) {
    if (tracked(fd)) {
        struct rep r = ask(C_READ, n, fdpath[fd]);
        if (r.action == A_ERR) { errno = r.err; return -1; }
        if (r.action == A_SHORT && r.n >= 1 && (size_t)r.n < n) n = r.n;
        ssize_t k = syscall(SYS_read, fd, b, n);
        if (r.action == A_DIE_AFTER) die();
        return k;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return do_read(fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (tracked(fd)) {
        struct rep r = ask(C_READ, n, fdpath[fd]);
        if (r.action == A_ERR) { errno = r.err; return -1; }
        if (r.action == A_SHORT && r.n >= 1 && (size_t)r.n < n) n = r.n;
    }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
static ssize_t do_write(int fd, const void *b, size_t n) {
    if (tracked(fd)) {
        struct rep r = ask(C_WRITE, n, fdpath[fd]);
        if (r.action == A_ERR) { errno = r.err; return -1; }
        if (r.action == A_SHORT && r.n >= 1 && (size_t)r.n < n) n = r.n;
        if (r.action == A_DIE_AFTER) {
            if (r.n > 0) syscall(SYS_write, fd, b, (size_t)r.n < n ? (size_t)r.n : n);
            die();
        }
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (tracked(fd)) {
        struct rep r = ask(C_WRITE, n, fdpath[fd]);
        if (r.action == A_ERR) { errno = r.err; return -1; }
        if (r.action == A_SHORT && r.n >= 1 && (size_t)r.n < n) n = r.n;
        if (r.action == A_DIE_AFTER) die();
    }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (tracked(fd)) { errno = ENOSYS; if (c > 0) return do_write(fd, v[0].iov_base, v[0].iov_len); }
    return syscall(SYS_writev, fd, v, c);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (tracked(o) || tracked(i)) {
        struct rep r = ask(C_COPY, n, tracked(o) ? fdpath[o] : fdpath[i]);
        if (r.action == A_ERR) { errno = r.err; return -1; }
        if (r.action == A_SHORT && r.n >= 1 && (size_t)r.n < n) n = r.n;
        if (r.action == A_DIE_AFTER) {
            if (r.n > 0) syscall(SYS_sendfile, o, i, off, (size_t)r.n < n ? (size_t)r.n : n);
            die();
        }
    }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    if (tracked(o) || tracked(i)) {
        struct rep r = ask(C_COPY, n, tracked(o) ? fdpath[o] : fdpath[i]);
        if (r.action == A_ERR) { errno = r.err; return -1; }
        if (r.action == A_DIE_AFTER) die();
    }
    return syscall(SYS_copy_file_range, i, oi, o, oo, n, f);
}
static int simple_fd(int cls, int fd, long nr, long a) {
    if (tracked(fd)) {
        struct rep r = ask(cls, a, fdpath[fd]);
        if (r.action == A_ERR) { errno = r.err; return -1; }
        int k = syscall(nr, fd, a);
        if (r.action == A_DIE_AFTER) die();
        return k;
    }
    return syscall(nr, fd, a);
}
int fsync(int fd) { return simple_fd(C_SYNC, fd, SYS_fsync, 0); }
int fdatasync(int fd) { return simple_fd(C_SYNC, fd, SYS_fdatasync, 0); }
int ftruncate64(int fd, off64_t n) { return simple_fd(C_TRUNC, fd, SYS_ftruncate, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

/* -------- names */
#define NAMEOP(cls, dfd, path, arg, call) do { char p_[1024]; \
    if (resolve(dfd, path, p_, sizeof p_)) { \
        struct rep r_ = ask(cls, arg, p_); \
        if (r_.action == A_ERR) { errno = r_.err; return -1; } \
        int k_ = (call); \
        if (r_.action == A_DIE_AFTER) die(); \
        return k_; } \
    return (call); } while (0)

int mkdir(const char *p, mode_t m) { NAMEOP(C_MKDIR, AT_FDCWD, p, m, (int)syscall(SYS_mkdir, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { NAMEOP(C_MKDIR, d, p, m, (int)syscall(SYS_mkdirat, d, p, m)); }
int rmdir(const char *p) { NAMEOP(C_RMDIR, AT_FDCWD, p, 0, (int)syscall(SYS_rmdir, p)); }
int unlink(const char *p) { NAMEOP(C_UNLINK, AT_FDCWD, p, 0, (int)syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f) { NAMEOP(C_UNLINK, d, p, f, (int)syscall(SYS_unlinkat, d, p, f)); }
int truncate64(const char *p, off64_t n) { NAMEOP(C_TRUNC, AT_FDCWD, p, n, (int)syscall(SYS_truncate, p, n)); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int rename(const char *a, const char *b) { NAMEOP(C_RENAME, AT_FDCWD, b, 0, (int)syscall(SYS_rename, a, b)); }
int renameat(int d1, const char *a, int d2, const char *b) {
    NAMEOP(C_RENAME, d2, b, 0, (int)syscall(SYS_renameat, d1, a, d2, b)); }
int link(const char *a, const char *b) { NAMEOP(C_LINK, AT_FDCWD, b, 0, (int)syscall(SYS_link, a, b)); }
int symlink(const char *a, const char *b) { NAMEOP(C_LINK, AT_FDCWD, b, 0, (int)syscall(SYS_symlink, a, b)); }

int stat(const char *p, struct stat *s) { NAMEOP(C_STAT, AT_FDCWD, p, 0, (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0)); }
int stat64(const char *p, struct stat64 *s) { NAMEOP(C_STAT, AT_FDCWD, p, 0, (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0)); }
int lstat(const char *p, struct stat *s) { NAMEOP(C_STAT, AT_FDCWD, p, 1, (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW)); }
int lstat64(const char *p, struct stat64 *s) { NAMEOP(C_STAT, AT_FDCWD, p, 1, (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW)); }
int fstatat(int d, const char *p, struct stat *s, int f) { NAMEOP(C_STAT, d, p, f, (int)syscall(SYS_newfstatat, d, p, s, f)); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { NAMEOP(C_STAT, d, p, f, (int)syscall(SYS_newfstatat, d, p, s, f)); }
int access(const char *p, int m) { NAMEOP(C_STAT, AT_FDCWD, p, m, (int)syscall(SYS_access, p, m)); }

DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    char q[1024];
    if (resolve(AT_FDCWD, p, q, sizeof q)) {
        struct rep r = ask(C_OPENDIR, 0, q);
        if (r.action == A_ERR) { errno = r.err; return NULL; }
        inside++;
        DIR *d = real_opendir(p);
        inside--;
        return d;
    }
    return real_opendir(p);
}

/* -------- stdio (used by the Cython parser) */
struct cookie { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read(((struct cookie *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    ssize_t k = do_write(((struct cookie *)c)->fd, b, n); return k < 0 ? 0 : k; }
static int ck_seek(void *c, off64_t *o, int w) {
    off64_t r = syscall(SYS_lseek, ((struct cookie *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int r = close(((struct cookie *)c)->fd); free(c); return r; }

static FILE *do_fopen(const char *path, const char *mode, FILE *(*rf)(const char *, const char *)) {
    char p[1024];
    if (!resolve(AT_FDCWD, path, p, sizeof p)) return rf(path, mode);
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = do_open(AT_FDCWD, path, fl | O_CLOEXEC, 0666);
    if (fd < 0) return NULL;
    struct cookie *c = malloc(sizeof *c);
    c->fd = fd;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    char m[4] = { mode[0], strchr(mode, '+') ? '+' : 0, 0, 0 };
    return fopencookie(c, m, io);
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(p, m, real_fopen); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(p, m, real_fopen64); }

/* -------- realtime clock */
static int64_t simnow(void) { int64_t v = clk->now_ns; clk->now_ns = v + clk->step_ns; return v; }
int clock_gettime(clockid_t id, struct timespec *t) {
    if (clk && clk->on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t v = simnow(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
    return syscall(SYS_clock_gettime, id, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    (void)z;
    if (clk && clk->on) { int64_t v = simnow(); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; return 0; }
    return syscall(SYS_gettimeofday, t, NULL);
}
time_t time(time_t *o) {
    time_t v;
    if (clk && clk->on) v = simnow() / 1000000000;
    else { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); v = t.tv_sec; }
    if (o) *o = v;
    return v;
}

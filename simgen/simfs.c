// File system seam for the table generator: every file operation of a watched process inside its scratch
// directory is a numbered step, at which the scheduler may switch to another process, fail the operation,
// cut a write short, fill the disk or end the process. Operations that would change anything outside the
// scratch directory are refused. Inert until simfs_begin, and in processes started by exec.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

enum { F_ERRNO = 1, F_SHORT, F_CRASH_BEFORE, F_CRASH_AFTER, F_TORN, F_FULL };
typedef struct { int32_t op, kind; int64_t arg; } fault;
#define LOG 2048
typedef struct {
    uint64_t ops, hash, injected[8], refused;
    uint8_t log[LOG]; // kind of each step; bit 7: in the output directory
} report;

static int on, step_w = -1, go_r = -1, nf;
static pid_t owner;
static char root[PATH_MAX];
static size_t rootlen;
static fault F[64];
static report *R;
static uint64_t rnd;
static int64_t budget = -1; // bytes left on a full disk; -1: not full
static uint8_t fd_class[4096]; // 0: not watched, else 1 + class

static int active(void) { return on && syscall(SYS_getpid) == owner; }
static int resolve(int dirfd, const char *path, char *out) {
    char base[PATH_MAX];
    if (!path) return -1;
    if (path[0] == '/') {
        snprintf(out, PATH_MAX, "%s", path);
        return 0;
    }
    if (dirfd == AT_FDCWD) {
        if (syscall(SYS_getcwd, base, sizeof base) < 0) return -1;
    } else {
        char p[64];
        snprintf(p, sizeof p, "/proc/self/fd/%d", dirfd);
        ssize_t n = syscall(SYS_readlink, p, base, sizeof base - 1);
        if (n < 0) return -1;
        base[n] = 0;
    }
    if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return -1;
    return 0;
}
// 0: outside; 1: elsewhere in the scratch directory; 2: in the output tree
static int classify(int dirfd, const char *path, char *abs) {
    if (resolve(dirfd, path, abs)) return 0;
    if (strncmp(abs, root, rootlen) || (abs[rootlen] && abs[rootlen] != '/') || strstr(abs, "/../")) return 0;
    return strstr(abs + rootlen, "/src") ? 2 : 1;
}
static void mix(uint64_t x) { R->hash = (R->hash ^ x) * 0x9e3779b97f4a7c15ull, R->hash ^= R->hash >> 29; }
// Announces step `what`; returns the fault to apply, or NULL.
static const fault *step(int what, int class) {
    if (step_w >= 0) {
        char b = (char)what;
        syscall(SYS_write, step_w, &b, 1);
        if (syscall(SYS_read, go_r, &b, 1) != 1) syscall(SYS_exit_group, 99);
    }
    int n = (int)R->ops++;
    if (n < LOG) R->log[n] = (uint8_t)(what | (class == 2 ? 128 : 0));
    mix((uint64_t)what * 4 + (uint64_t)class);
    for (int i = 0; i < nf; i++)
        if (F[i].op == n) {
            R->injected[F[i].kind]++;
            mix((uint64_t)F[i].kind << 32 | (uint64_t)F[i].arg);
            if (F[i].kind == F_CRASH_BEFORE) syscall(SYS_exit_group, 86);
            if (F[i].kind == F_FULL) {
                budget = F[i].arg;
                return NULL;
            }
            return &F[i];
        }
    return NULL;
}
static long after(const fault *f, long rc) {
    int e = errno;
    mix((uint64_t)(rc < 0 ? -1 : 0));
    if (f && f->kind == F_CRASH_AFTER) syscall(SYS_exit_group, 86);
    errno = e;
    return rc;
}
#define FAIL(f) ((f) && (f)->kind == F_ERRNO)
#define REAL(name, ret, ...)                                          \
    static ret (*real)(__VA_ARGS__);                                  \
    if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

enum { ST_OPEN_R = 1, ST_OPEN_W, ST_READ, ST_WRITE, ST_CLOSE, ST_RENAME, ST_UNLINK, ST_MKDIR, ST_SYNC, ST_TRUNC, ST_LINK, ST_ATTR };

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char abs[PATH_MAX];
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int c = active() ? classify(dirfd, path, abs) : -1;
    if (c == 0 && wr && strncmp(abs, "/dev/", 5)) {
        R->refused++;
        errno = EROFS;
        return -1;
    }
    const fault *f = NULL;
    if (c > 0) {
        f = step(wr ? ST_OPEN_W : ST_OPEN_R, c);
        if (FAIL(f)) {
            errno = (int)f->arg;
            return after(f, -1);
        }
        struct stat st;
        if (wr && budget == 0 && (flags & O_CREAT) && stat(abs, &st)) {
            errno = ENOSPC;
            return after(f, -1);
        }
    }
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    if (c > 0 && fd >= 0 && fd < 4096) fd_class[fd] = (uint8_t)(1 + c);
    return c > 0 ? (int)after(f, fd) : fd;
}
#define OPEN_BODY(dirfd)                            \
    mode_t mode = 0;                                \
    if (flags & (O_CREAT | O_TMPFILE)) {            \
        va_list ap;                                 \
        va_start(ap, flags);                        \
        mode = (mode_t)va_arg(ap, unsigned);        \
        va_end(ap);                                 \
    }                                               \
    return do_open(dirfd, path, flags, mode);
int open(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int dirfd, const char *path, int flags, ...) { OPEN_BODY(dirfd) }
int openat64(int dirfd, const char *path, int flags, ...) { OPEN_BODY(dirfd) }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static int watched(int fd) { return active() && fd >= 0 && fd < 4096 && fd_class[fd] ? fd_class[fd] - 1 : 0; }
ssize_t read(int fd, void *b, size_t n) {
    int c = watched(fd);
    if (!c) return syscall(SYS_read, fd, b, n);
    const fault *f = step(ST_READ, c);
    if (FAIL(f)) {
        errno = (int)f->arg;
        return after(f, -1);
    }
    if (f && f->kind == F_SHORT && n > 1) n = 1 + (size_t)f->arg % (n - 1);
    return after(f, syscall(SYS_read, fd, b, n));
}
static ssize_t do_write(int fd, const void *b, size_t n, off_t at, int positioned) {
    int c = watched(fd);
    if (!c) return positioned ? syscall(SYS_pwrite64, fd, b, n, at) : syscall(SYS_write, fd, b, n);
    const fault *f = step(ST_WRITE, c);
    if (FAIL(f)) {
        errno = (int)f->arg;
        return after(f, -1);
    }
    int torn = f && f->kind == F_TORN;
    if (f && (torn || f->kind == F_SHORT) && n) n = torn ? (size_t)f->arg % (n + 1) : n > 1 ? 1 + (size_t)f->arg % (n - 1) : n;
    if (budget >= 0 && n) {
        if (budget == 0) {
            errno = ENOSPC;
            return after(f, -1);
        }
        if ((int64_t)n > budget) n = (size_t)budget;
        budget -= (int64_t)n;
    }
    ssize_t rc = n || !torn ? (positioned ? syscall(SYS_pwrite64, fd, b, n, at) : syscall(SYS_write, fd, b, n)) : 0;
    if (torn) syscall(SYS_exit_group, 86);
    return after(f, rc);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { return do_write(fd, b, n, at, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t at) { return do_write(fd, b, n, at, 1); }
int close(int fd) {
    int c = watched(fd);
    if (!c) return (int)syscall(SYS_close, fd);
    const fault *f = step(ST_CLOSE, c);
    fd_class[fd] = 0;
    int rc = (int)syscall(SYS_close, fd);
    if (FAIL(f)) {
        errno = (int)f->arg;
        rc = -1;
    }
    return (int)after(f, rc);
}
// Kernel-side copies: not offered, as on a kernel or file system without them; callers fall back to read and write.
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    if (!active()) return syscall(SYS_sendfile, o, i, off, n);
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
    if (!active()) return syscall(SYS_copy_file_range, i, io, o, oo, n, fl);
    errno = ENOSYS;
    return -1;
}

#define PATHS2(what, d1, p1, d2, p2, call)                                            \
    if (!active()) return (int)(call);                                                \
    char a[PATH_MAX], b[PATH_MAX];                                                    \
    int c1 = classify(d1, p1, a), c2 = classify(d2, p2, b);                           \
    if (!c1 || !c2) { R->refused++; errno = EROFS; return -1; }                       \
    const fault *f = step(what, c1 > c2 ? c1 : c2);                                   \
    if (FAIL(f)) { errno = (int)f->arg; return (int)after(f, -1); }                   \
    return (int)after(f, (call));
#define PATH1(what, d1, p1, grows, call)                                              \
    if (!active()) return (int)(call);                                                \
    char a[PATH_MAX];                                                                 \
    int c1 = classify(d1, p1, a);                                                     \
    if (!c1) { R->refused++; errno = EROFS; return -1; }                              \
    const fault *f = step(what, c1);                                                  \
    if (FAIL(f)) { errno = (int)f->arg; return (int)after(f, -1); }                   \
    if ((grows) && budget == 0) { errno = ENOSPC; return (int)after(f, -1); }         \
    return (int)after(f, (call));
#define FD1(what, fd, call)                                                           \
    int c = watched(fd);                                                              \
    if (!c) return (int)(call);                                                       \
    const fault *f = step(what, c);                                                   \
    if (FAIL(f)) { errno = (int)f->arg; return (int)after(f, -1); }                   \
    return (int)after(f, (call));
#define CW AT_FDCWD
int rename(const char *x, const char *y) { PATHS2(ST_RENAME, CW, x, CW, y, syscall(SYS_rename, x, y)) }
int renameat(int d, const char *x, int e, const char *y) { PATHS2(ST_RENAME, d, x, e, y, syscall(SYS_renameat2, d, x, e, y, 0)) }
int renameat2(int d, const char *x, int e, const char *y, unsigned fl) { PATHS2(ST_RENAME, d, x, e, y, syscall(SYS_renameat2, d, x, e, y, fl)) }
int link(const char *x, const char *y) { PATHS2(ST_LINK, CW, x, CW, y, syscall(SYS_link, x, y)) }
int linkat(int d, const char *x, int e, const char *y, int fl) { PATHS2(ST_LINK, d, x, e, y, syscall(SYS_linkat, d, x, e, y, fl)) }
int symlink(const char *x, const char *y) { PATH1(ST_LINK, CW, y, 1, syscall(SYS_symlink, x, y)) }
int symlinkat(const char *x, int d, const char *y) { PATH1(ST_LINK, d, y, 1, syscall(SYS_symlinkat, x, d, y)) }
int unlink(const char *x) { PATH1(ST_UNLINK, CW, x, 0, syscall(SYS_unlink, x)) }
int unlinkat(int d, const char *x, int fl) { PATH1(ST_UNLINK, d, x, 0, syscall(SYS_unlinkat, d, x, fl)) }
int remove(const char *x) { PATH1(ST_UNLINK, CW, x, 0, syscall(SYS_unlink, x)) }
int rmdir(const char *x) { PATH1(ST_UNLINK, CW, x, 0, syscall(SYS_rmdir, x)) }
int mkdir(const char *x, mode_t m) { PATH1(ST_MKDIR, CW, x, 1, syscall(SYS_mkdir, x, m)) }
int mkdirat(int d, const char *x, mode_t m) { PATH1(ST_MKDIR, d, x, 1, syscall(SYS_mkdirat, d, x, m)) }
int truncate(const char *x, off_t n) { PATH1(ST_TRUNC, CW, x, 0, syscall(SYS_truncate, x, n)) }
int truncate64(const char *x, off64_t n) { PATH1(ST_TRUNC, CW, x, 0, syscall(SYS_truncate, x, n)) }
int chmod(const char *x, mode_t m) { PATH1(ST_ATTR, CW, x, 0, syscall(SYS_chmod, x, m)) }
int fchmodat(int d, const char *x, mode_t m, int fl) { (void)fl; PATH1(ST_ATTR, d, x, 0, syscall(SYS_fchmodat, d, x, m)) }
int ftruncate(int fd, off_t n) { FD1(ST_TRUNC, fd, syscall(SYS_ftruncate, fd, n)) }
int ftruncate64(int fd, off64_t n) { FD1(ST_TRUNC, fd, syscall(SYS_ftruncate, fd, n)) }
int fsync(int fd) { FD1(ST_SYNC, fd, syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { FD1(ST_SYNC, fd, syscall(SYS_fdatasync, fd)) }
int fchmod(int fd, mode_t m) { FD1(ST_ATTR, fd, syscall(SYS_fchmod, fd, m)) }

// Entropy: a function of the plan, so that temporary names repeat.
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!active()) return syscall(SYS_getrandom, b, n, fl);
    for (size_t i = 0; i < n; i++) {
        rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
        ((uint8_t *)b)[i] = (uint8_t)(rnd >> 56);
    }
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

void simfs_begin(const char *dir, uint64_t seed, const fault *faults, int n, int w, int r, report *rep) {
    snprintf(root, sizeof root, "%s", dir);
    rootlen = strlen(root);
    nf = n < 64 ? n : 64;
    memcpy(F, faults, (size_t)nf * sizeof *F);
    rnd = seed * 2 + 1;
    step_w = w;
    go_r = r;
    R = rep;
    owner = (pid_t)syscall(SYS_getpid);
    on = 1;
}

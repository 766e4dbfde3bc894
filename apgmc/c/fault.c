/* Fault injector, loaded with LD_PRELOAD.
 *
 * Counts the file operations of this process on paths below FAULT_ROOT and
 * makes operation number FAULT_N (from 1) misbehave:
 *   e<errno>    fails with errno, nothing done
 *   p<k>        (write) first k bytes are written, later writes to this file
 *               fail with ENOSPC;  k = h: half, l: all but one
 *   s<k>        (read, write) only k bytes are moved, no failure
 *   c<errno>    (close) closes, then reports errno
 *   x           the process dies before the operation
 *   y           (write) half of the bytes are written, then the process dies
 *   z           the process dies after the operation
 * FAULT_LOG: one line per operation.  Without FAULT_ROOT nothing happens. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 1024
static char root[4096], logp[4096], kind[32];
static size_t rootlen;
static long target, count;
static int armed;
static char tracked[NFD];      /* 1: below root, 2: full (ENOSPC) */
static char names[NFD][4096];

void fault_arm(const char *r, const char *l, long n, const char *k)
{
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    snprintf(logp, sizeof logp, "%s", l);
    snprintf(kind, sizeof kind, "%s", k);
    target = n;
    count = 0;
    memset(tracked, 0, sizeof tracked);
    armed = 1;
}

__attribute__((constructor)) static void init(void)
{
    const char *r = getenv("FAULT_ROOT");
    if (r)
        fault_arm(r, getenv("FAULT_LOG") ? getenv("FAULT_LOG") : "",
                  getenv("FAULT_N") ? atol(getenv("FAULT_N")) : 0,
                  getenv("FAULT_KIND") ? getenv("FAULT_KIND") : "");
}

static void absolute(int dirfd, const char *p, char *out, size_t n)
{
    char base[2048] = "";
    if (p[0] == '/') {
        snprintf(out, n, "%s", p);
        return;
    }
    if (dirfd == AT_FDCWD) {
        if (!getcwd(base, sizeof base))
            base[0] = 0;
    } else {
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t k = readlink(l, base, sizeof base - 1);
        base[k > 0 ? k : 0] = 0;
    }
    snprintf(out, n, "%s/%s", base, p);
}

static int inside(const char *p)
{
    return armed && rootlen && !strncmp(p, root, rootlen)
        && (p[rootlen] == '/' || !p[rootlen]);
}

static void die(void)
{
    kill(getpid(), SIGKILL);
    for (;;)
        pause();
}

/* -> 1 if this operation is the one to disturb */
static int hit(const char *op, const char *path, long arg)
{
    count++;
    if (logp[0]) {
        char line[2200];
        const char *q = inside(path) ? path + rootlen : path;
        int k = snprintf(line, sizeof line, "%s %ld %s\n", op, arg, q);
        int fd = syscall(SYS_open, logp, O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) {
            syscall(SYS_write, fd, line, k);
            syscall(SYS_close, fd);
        }
    }
    return count == target;
}

#define REAL(name, ret, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

/* operations on a path */
#define PATHOP(full, opname, arg, call) do { \
        if (inside(full)) { \
            int h_ = hit(opname, full, arg); \
            if (h_ && kind[0] == 'x') die(); \
            if (h_ && kind[0] == 'e') { errno = atoi(kind + 1); return -1; } \
            int r_ = (call); \
            if (h_ && kind[0] == 'z') die(); \
            return r_; \
        } \
        return (call); \
    } while (0)

static int do_open(int dirfd, const char *p, int flags, mode_t mode)
{
    char full[4096];
    absolute(dirfd, p, full, sizeof full);
    int in = inside(full), h = 0;
    if (in) {
        struct stat st;
        int isdir = !stat(full, &st) && S_ISDIR(st.st_mode);
        if (isdir && !(flags & (O_WRONLY | O_RDWR)))
            in = 0;     /* listing a folder */
    }
    if (in) {
        h = hit((flags & (O_WRONLY | O_RDWR)) ? "openw" : "openr", full, 0);
        if (h && kind[0] == 'x')
            die();
        if (h && kind[0] == 'e') {
            errno = atoi(kind + 1);
            return -1;
        }
    }
    int fd = syscall(SYS_openat, dirfd, p, flags, mode);
    if (in && fd >= 0 && fd < NFD) {
        tracked[fd] = 1;
        snprintf(names[fd], sizeof names[fd], "%s", full);
    }
    if (h && kind[0] == 'z')
        die();
    return fd;
}

#define OPEN_BODY(dirfd) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); \
        va_end(ap); } \
    return do_open(dirfd, p, flags, mode)

int open(const char *p, int flags, ...) { OPEN_BODY(AT_FDCWD); }
int open64(const char *p, int flags, ...) { OPEN_BODY(AT_FDCWD); }
int openat(int d, const char *p, int flags, ...) { OPEN_BODY(d); }
int openat64(int d, const char *p, int flags, ...) { OPEN_BODY(d); }
int creat(const char *p, mode_t m)
{
    return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m);
}

int dup(int fd)
{
    int n = syscall(SYS_dup, fd);
    if (fd >= 0 && fd < NFD && n >= 0 && n < NFD) {
        tracked[n] = tracked[fd];
        memcpy(names[n], names[fd], sizeof names[n]);
    }
    return n;
}

static int is_tracked(int fd)
{
    return armed && fd >= 0 && fd < NFD && tracked[fd];
}

ssize_t read(int fd, void *buf, size_t n)
{
    if (is_tracked(fd)) {
        int h = hit("read", names[fd], (long)n);
        if (h && kind[0] == 'x')
            die();
        if (h && kind[0] == 'e') {
            errno = atoi(kind + 1);
            return -1;
        }
        if (h && kind[0] == 's' && n > (size_t)atol(kind + 1))
            n = atol(kind + 1);
        ssize_t r = syscall(SYS_read, fd, buf, n);
        if (h && kind[0] == 'z')
            die();
        return r;
    }
    return syscall(SYS_read, fd, buf, n);
}

static size_t part(size_t n)
{
    if (kind[1] == 'h')
        return n / 2;
    if (kind[1] == 'l')
        return n ? n - 1 : 0;
    size_t k = atol(kind + 1);
    return k < n ? k : n;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    if (is_tracked(fd)) {
        if (tracked[fd] == 2) {
            errno = ENOSPC;
            return -1;
        }
        int h = hit("write", names[fd], (long)n);
        if (h && kind[0] == 'x')
            die();
        if (h && kind[0] == 'e') {
            errno = atoi(kind + 1);
            return -1;
        }
        if (h && kind[0] == 'p') {
            size_t k = part(n);
            tracked[fd] = 2;
            if (k == 0) {
                errno = ENOSPC;
                return -1;
            }
            return syscall(SYS_write, fd, buf, k);
        }
        if (h && kind[0] == 's') {
            size_t k = part(n);
            n = k ? k : n;
        }
        if (h && kind[0] == 'y') {
            syscall(SYS_write, fd, buf, n / 2);
            die();
        }
        ssize_t r = syscall(SYS_write, fd, buf, n);
        if (h && kind[0] == 'z')
            die();
        return r;
    }
    return syscall(SYS_write, fd, buf, n);
}

int close(int fd)
{
    if (is_tracked(fd)) {
        int h = hit("close", names[fd], 0);
        if (h && kind[0] == 'x')
            die();
        tracked[fd] = 0;
        int r = syscall(SYS_close, fd);
        if (h && kind[0] == 'z')
            die();
        if (h && (kind[0] == 'c' || kind[0] == 'e')) {
            errno = atoi(kind + 1);
            return -1;
        }
        return r;
    }
    return syscall(SYS_close, fd);
}

int mkdir(const char *p, mode_t m)
{
    REAL(mkdir, int, const char *, mode_t);
    char full[4096];
    absolute(AT_FDCWD, p, full, sizeof full);
    PATHOP(full, "mkdir", 0, real(p, m));
}

int mkdirat(int d, const char *p, mode_t m)
{
    REAL(mkdirat, int, int, const char *, mode_t);
    char full[4096];
    absolute(d, p, full, sizeof full);
    PATHOP(full, "mkdir", 0, real(d, p, m));
}

int rename(const char *a, const char *b)
{
    REAL(rename, int, const char *, const char *);
    char full[4096];
    absolute(AT_FDCWD, b, full, sizeof full);
    PATHOP(full, "rename", 0, real(a, b));
}

int renameat(int x, const char *a, int y, const char *b)
{
    REAL(renameat, int, int, const char *, int, const char *);
    char full[4096];
    absolute(y, b, full, sizeof full);
    PATHOP(full, "rename", 0, real(x, a, y, b));
}

int unlink(const char *p)
{
    REAL(unlink, int, const char *);
    char full[4096];
    absolute(AT_FDCWD, p, full, sizeof full);
    PATHOP(full, "unlink", 0, real(p));
}

#define FDOP(opname, arg, call) do { \
        if (is_tracked(fd)) { \
            int h_ = hit(opname, names[fd], (long)(arg)); \
            if (h_ && kind[0] == 'x') die(); \
            if (h_ && (kind[0] == 'e' || kind[0] == 'p')) { \
                errno = kind[0] == 'p' ? ENOSPC : atoi(kind + 1); \
                return -1; } \
        } \
        return (call); \
    } while (0)

int fsync(int fd) { FDOP("fsync", 0, syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { FDOP("fsync", 0, syscall(SYS_fdatasync, fd)); }
int ftruncate(int fd, off_t n)
{
    FDOP("truncate", n, syscall(SYS_ftruncate, fd, n));
}
int ftruncate64(int fd, off_t n)
{
    FDOP("truncate", n, syscall(SYS_ftruncate, fd, n));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    FDOP("write", n, syscall(SYS_pwrite64, fd, b, n, o));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o)
{
    FDOP("write", n, syscall(SYS_pwrite64, fd, b, n, o));
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    FDOP("write", n, syscall(SYS_writev, fd, v, n));
}
ssize_t pread(int fd, void *b, size_t n, off_t o)
{
    FDOP("read", n, syscall(SYS_pread64, fd, b, n, o));
}
ssize_t sendfile(int fd, int in, off_t *o, size_t n)
{
    FDOP("write", n, syscall(SYS_sendfile, fd, in, o, n));
}
ssize_t sendfile64(int fd, int in, off_t *o, size_t n)
{
    FDOP("write", n, syscall(SYS_sendfile, fd, in, o, n));
}
ssize_t copy_file_range(int in, off_t *a, int fd, off_t *b, size_t n,
                        unsigned f)
{
    FDOP("write", n, syscall(SYS_copy_file_range, in, a, fd, b, n, f));
}

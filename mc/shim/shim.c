/* Interposes the C library calls that change files below one directory, so
   that a process can be ended, or a call be made to fail, at any of them.
   Loaded with LD_PRELOAD; does nothing until armed. */

#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, TRACE, KILL_BEFORE, KILL_PART, KILL_AFTER, FAIL, FAIL_PART,
       FAIL_ON, INTERRUPT };
/* a change of mode is a step, but changes no content */

#define LOGSIZE (8 << 20)

struct shared {
    int mode, step, err, part;
    int count;          /* mutating calls so far */
    size_t log_len;
    char root[PATH_MAX];
    char log[LOGSIZE];
};

static struct shared *S;
static char tracked[4096];

/* shared with the processes forked from now on only */
__attribute__((constructor)) void mc_renew(void)
{
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE,
             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED)
        abort();
}

void mc_arm(const char *root, int mode, int step, int err, int part)
{
    memset(tracked, 0, sizeof tracked);
    S->count = 0;
    S->log_len = 0;
    S->step = step;
    S->err = err;
    S->part = part;
    strncpy(S->root, root, PATH_MAX - 1);
    S->mode = mode;
}

void mc_disarm(void) { S->mode = OFF; }
int mc_count(void) { return S->count; }
size_t mc_log_length(void) { return S->log_len; }
const char *mc_log(void) { return S->log; }

/* an independent path, or NULL when it is not below the root */
static const char *resolve(int dirfd, const char *path, char *buf)
{
    char link[64];
    size_t n = 0, root = strlen(S->root);
    if (!path)
        return NULL;
    if (path[0] != '/') {
        ssize_t got;
        if (dirfd == AT_FDCWD) {
            if (!getcwd(buf, PATH_MAX))
                return NULL;
        } else {
            char *p = link;
            int d = dirfd;
            char digits[12];
            int k = 0;
            strcpy(p, "/proc/self/fd/");
            p += strlen(p);
            do { digits[k++] = '0' + d % 10; d /= 10; } while (d);
            while (k) *p++ = digits[--k];
            *p = 0;
            got = readlink(link, buf, PATH_MAX - 1);
            if (got < 0)
                return NULL;
            buf[got] = 0;
        }
        n = strlen(buf);
        buf[n++] = '/';
    }
    if (n + strlen(path) >= PATH_MAX)
        return NULL;
    strcpy(buf + n, path);
    if (strncmp(buf, S->root, root) || (buf[root] && buf[root] != '/'))
        return NULL;
    return buf;
}

static void put(const void *data, uint32_t n)
{
    if (S->log_len + n + 4 > LOGSIZE)
        abort();
    memcpy(S->log + S->log_len, &n, 4);
    memcpy(S->log + S->log_len + 4, data, n);
    S->log_len += n + 4;
}

/* record: kind, fd, number, a, b */
static void record(char kind, int fd, int64_t number, const char *a,
                   const void *b, size_t blen)
{
    put(&kind, 1);
    put(&fd, 4);
    put(&number, 8);
    put(a ? a : "", a ? strlen(a) : 0);
    put(b ? b : "", b ? blen : 0);
}

/* 0: go on, 1: fail with S->err, 2: do a part only, then end or fail */
static int step(void)
{
    int n = ++S->count;
    if (S->mode == FAIL_ON && n >= S->step) {
        errno = S->err;
        return 1;
    }
    if (n != S->step)
        return 0;
    switch (S->mode) {
    case KILL_BEFORE:
        kill(getpid(), SIGKILL);
        for (;;) pause();
    case FAIL:
        errno = S->err;
        return 1;
    case KILL_PART:
    case FAIL_PART:
        return 2;
    case INTERRUPT:
        raise(SIGINT);
    }
    return 0;
}

static void done(void)
{
    if (S->mode == KILL_AFTER && S->count == S->step) {
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, #name)
#define ARMED (S && S->mode)

static void track(int fd, const char *path, int flags)
{
    if (fd >= 0 && fd < (int)sizeof tracked) {
        tracked[fd] = path != NULL;
        if (path)
            record('o', fd, flags, path, NULL, 0);
    }
}

static int is_tracked(int fd)
{
    return ARMED && fd >= 0 && fd < (int)sizeof tracked && tracked[fd];
}

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
    mode_t mode = 0; \
    va_list ap; \
    char buf[PATH_MAX]; \
    const char *p; \
    int fd; \
    REAL(int, name, const char *, int, ...); \
    va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); \
    if (!ARMED) return real(path, flags, mode); \
    p = resolve(AT_FDCWD, path, buf); \
    if (p && (flags & (O_CREAT | O_TRUNC)) && step() == 1) return -1; \
    fd = real(path, flags, mode); \
    track(fd, p, flags); \
    if (p && (flags & (O_CREAT | O_TRUNC))) done(); \
    return fd; \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) \
{ \
    mode_t mode = 0; \
    va_list ap; \
    char buf[PATH_MAX]; \
    const char *p; \
    int fd; \
    REAL(int, name, int, const char *, int, ...); \
    va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); \
    if (!ARMED) return real(dir, path, flags, mode); \
    p = resolve(dir, path, buf); \
    if (p && (flags & (O_CREAT | O_TRUNC)) && step() == 1) return -1; \
    fd = real(dir, path, flags, mode); \
    track(fd, p, flags); \
    if (p && (flags & (O_CREAT | O_TRUNC))) done(); \
    return fd; \
}
OPENAT(openat)
OPENAT(openat64)

int close(int fd)
{
    REAL(int, close, int);
    if (is_tracked(fd)) {
        record('c', fd, 0, NULL, NULL, 0);
        tracked[fd] = 0;
    }
    return real(fd);
}

static ssize_t part_of(size_t n)
{
    ssize_t k = S->part == 0 ? 0 : S->part == 1 ? 1 : S->part == 2
        ? (ssize_t)(n / 2) : (ssize_t)n - 1;
    return k < 0 ? 0 : k > (ssize_t)n ? (ssize_t)n : k;
}

#define PART(call) do { \
    n = part_of(n); \
    if (n) { ssize_t k = call; \
             if (k > 0) record('w', fd, at, NULL, data, k); } \
    if (S->mode == KILL_PART) { kill(getpid(), SIGKILL); for (;;) pause(); } \
    S->mode = FAIL_ON; S->step = S->count + 1; \
    if (n) return n; \
    errno = S->err; return -1; } while (0)

ssize_t write(int fd, const void *data, size_t n)
{
    ssize_t k;
    int64_t at;
    REAL(ssize_t, write, int, const void *, size_t);
    if (!is_tracked(fd))
        return real(fd, data, n);
    at = lseek(fd, 0, SEEK_CUR);
    if (fcntl(fd, F_GETFL) & O_APPEND)
        at = lseek(fd, 0, SEEK_END);
    switch (step()) {
    case 1: return -1;
    case 2: PART(real(fd, data, n));
    }
    k = real(fd, data, n);
    if (k > 0)
        record('w', fd, at, NULL, data, k);
    done();
    return k;
}

#define PWRITE(name) \
ssize_t name(int fd, const void *data, size_t n, off_t at) \
{ \
    ssize_t k; \
    REAL(ssize_t, name, int, const void *, size_t, off_t); \
    if (!is_tracked(fd)) return real(fd, data, n, at); \
    switch (step()) { \
    case 1: return -1; \
    case 2: PART(real(fd, data, n, at)); \
    } \
    k = real(fd, data, n, at); \
    if (k > 0) record('w', fd, at, NULL, data, k); \
    done(); \
    return k; \
}
PWRITE(pwrite)
PWRITE(pwrite64)

ssize_t writev(int fd, const struct iovec *v, int n)
{
    ssize_t total = 0;
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!is_tracked(fd))
        return real(fd, v, n);
    for (int i = 0; i < n; i++) {
        ssize_t k = write(fd, v[i].iov_base, v[i].iov_len);
        if (k < 0)
            return total ? total : -1;
        total += k;
        if (k < (ssize_t)v[i].iov_len)
            break;
    }
    return total;
}

/* copies are done as writes */
#define SENDFILE(name) \
ssize_t name(int out, int in, off_t *offset, size_t n) \
{ \
    REAL(ssize_t, name, int, int, off_t *, size_t); \
    if (is_tracked(out)) { errno = EINVAL; return -1; } \
    return real(out, in, offset, n); \
}
SENDFILE(sendfile)
SENDFILE(sendfile64)

#define SYNC(name) \
int name(int fd) \
{ \
    int r; \
    REAL(int, name, int); \
    if (!is_tracked(fd)) return real(fd); \
    if (step() == 1) return -1; \
    r = real(fd); \
    if (!r) record('s', fd, 0, NULL, NULL, 0); \
    done(); \
    return r; \
}
SYNC(fsync)
SYNC(fdatasync)

#define FTRUNCATE(name) \
int name(int fd, off_t n) \
{ \
    int r; \
    REAL(int, name, int, off_t); \
    if (!is_tracked(fd)) return real(fd, n); \
    if (step() == 1) return -1; \
    r = real(fd, n); \
    if (!r) record('t', fd, n, NULL, NULL, 0); \
    done(); \
    return r; \
}
FTRUNCATE(ftruncate)
FTRUNCATE(ftruncate64)

int fchmod(int fd, mode_t mode)
{
    int r;
    REAL(int, fchmod, int, mode_t);
    if (!is_tracked(fd)) return real(fd, mode);
    if (step() == 1) return -1;
    r = real(fd, mode);
    if (!r) record('M', fd, mode, NULL, NULL, 0);
    done();
    return r;
}

/* calls with one path that is changed */
#define ONE(ret, name, kind, params, args, dir, ...) \
int name params \
{ \
    int r; \
    char buf[PATH_MAX]; \
    const char *p; \
    REAL(int, name, __VA_ARGS__); \
    if (!ARMED || !(p = resolve(dir, path, buf))) return real args; \
    if (step() == 1) return -1; \
    r = real args; \
    if (!r) record(kind, -1, number, p, NULL, 0); \
    done(); \
    return r; \
}
#define number 0
ONE(int, unlink, 'u', (const char *path), (path), AT_FDCWD, const char *)
ONE(int, unlinkat, 'u', (int d, const char *path, int f), (d, path, f), d,
    int, const char *, int)
ONE(int, chmod, 'm', (const char *path, mode_t m), (path, m), AT_FDCWD,
    const char *, mode_t)
ONE(int, fchmodat, 'm', (int d, const char *path, mode_t m, int f),
    (d, path, m, f), d, int, const char *, mode_t, int)
ONE(int, symlink, 'y', (const char *to, const char *path), (to, path),
    AT_FDCWD, const char *, const char *)
ONE(int, mkdir, 'd', (const char *path, mode_t m), (path, m), AT_FDCWD,
    const char *, mode_t)
ONE(int, rmdir, 'u', (const char *path), (path), AT_FDCWD, const char *)
#undef number
#define number (int64_t)n
ONE(int, truncate, 'T', (const char *path, off_t n), (path, n), AT_FDCWD,
    const char *, off_t)
ONE(int, truncate64, 'T', (const char *path, off_t n), (path, n), AT_FDCWD,
    const char *, off_t)
#undef number

static int two(char kind, int da, const char *a, int db, const char *b,
               int (*call)(void *), void *arg)
{
    char ba[PATH_MAX], bb[PATH_MAX];
    const char *pa = resolve(da, a, ba), *pb = resolve(db, b, bb);
    int r;
    if (!pa && !pb)
        return call(arg);
    if (step() == 1)
        return -1;
    r = call(arg);
    if (!r)
        record(kind, -1, 0, pa, pb, pb ? strlen(pb) : 0);
    done();
    return r;
}

struct pair { int da; const char *a; int db; const char *b; int f;
              void *real; };

#define TWO(name, kind) \
static int call_##name(void *arg) \
{ \
    struct pair *p = arg; \
    return ((int (*)(const char *, const char *))p->real)(p->a, p->b); \
} \
int name(const char *a, const char *b) \
{ \
    REAL(int, name, const char *, const char *); \
    struct pair p = { 0, a, 0, b, 0, (void *)real }; \
    if (!ARMED) return real(a, b); \
    return two(kind, AT_FDCWD, a, AT_FDCWD, b, call_##name, &p); \
}
TWO(rename, 'r')
TWO(link, 'l')

static int call_renameat(void *arg)
{
    struct pair *p = arg;
    return ((int (*)(int, const char *, int, const char *))p->real)(
        p->da, p->a, p->db, p->b);
}
int renameat(int da, const char *a, int db, const char *b)
{
    REAL(int, renameat, int, const char *, int, const char *);
    struct pair p = { da, a, db, b, 0, (void *)real };
    if (!ARMED) return real(da, a, db, b);
    return two('r', da, a, db, b, call_renameat, &p);
}

static int call_linkat(void *arg)
{
    struct pair *p = arg;
    return ((int (*)(int, const char *, int, const char *, int))p->real)(
        p->da, p->a, p->db, p->b, p->f);
}
int linkat(int da, const char *a, int db, const char *b, int f)
{
    REAL(int, linkat, int, const char *, int, const char *, int);
    struct pair p = { da, a, db, b, f, (void *)real };
    if (!ARMED) return real(da, a, db, b, f);
    return two('l', da, a, db, b, call_linkat, &p);
}

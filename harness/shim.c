/* LD_PRELOAD shim: counts the calls that change the filesystem below a prefix and, once armed,
 * kills the process, fails the call, raises SIGTERM or pauses at the n-th of them.
 * Armed through zv_arm(), which the forked child calls; inert before that. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { M_COUNT, M_KILL, M_FAIL, M_FAILON, M_TERM, M_PAUSE, M_PARTIAL };

static char prefix[PATH_MAX];
static size_t plen;
static long at = -1, count;
/* What the operations are and what file each is about, as text. */
static char kinds[1 << 20], last[PATH_MAX];
static size_t total;
static int mode, err, armed, notify_fd = -1, wait_fd = -1, logfd = -1;

void zv_arm(const char *p, long n, int m, int e, int nfd, int wfd, int lfd)
{
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    total = 0;
    at = n; mode = m; err = e; count = 0; notify_fd = nfd; wait_fd = wfd; logfd = lfd;
    armed = 1;
}
void zv_disarm(void) { armed = 0; }
long zv_count(void) { return count; }
const char *zv_kinds(void) { kinds[total] = 0; return kinds; }
static void note(const char *name)
{
    const char *base = strrchr(last, '/');
    size_t n = strlen(name);
    base = base ? base + 1 : last;
    if (!strstr(base, ".db") && strncmp(base, "info.json", 9) && strcmp(base, ".zielen-partial"))
        base = strstr(last, "/.zielen/Trash") ? "T" : strstr(last, "/.zielen/") ? "z" : strstr(last, "/R/") ? "R" : "L";
    if (total + n + strlen(base) + 3 > sizeof kinds) return;
    memcpy(kinds + total, name, n);
    total += n;
    kinds[total++] = ' ';
    strcpy(kinds + total, base);
    total += strlen(base);
    kinds[total++] = '\n';
}

static int sock;
static int under(const char *path)
{
    char buf[PATH_MAX];
    if (!armed || sock == 2 || !path) return 0;
    if (path[0] != '/') {
        /* relative to the working directory */
        if (syscall(SYS_getcwd, buf, sizeof buf) < 0) return 0;
        path = buf;
    }
    if (strncmp(path, prefix, plen) != 0) return 0;
    strncpy(last, path, sizeof last - 1);
    return 1;
}
static int under_at(int dfd, const char *path)
{
    char l[64], buf[PATH_MAX];
    ssize_t n;
    if (!armed || !path) return 0;
    if (path[0] == '/' || dfd == AT_FDCWD) return under(path);
    snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
    n = syscall(SYS_readlinkat, AT_FDCWD, l, buf, sizeof buf - 1);
    if (n < 0) return 0;
    buf[n] = 0;
    return under(buf);
}
static int under_fd(int fd) { return armed && under_at(fd, "."); }
static int under_fd2(int fd)
{
    char l[64], buf[PATH_MAX];
    ssize_t n;
    if (!armed || sock == 2) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    n = syscall(SYS_readlinkat, AT_FDCWD, l, buf, sizeof buf - 1);
    if (n < 0) return 0;
    buf[n] = 0;
    return buf[0] == '/' && under(buf);
}

/* Returns 1 if the call must fail with errno set, 2 if it must be done by half and then kill. */
static int hit(const char *name, int iswrite)
{
    char c;
    count++;
    if (mode == M_COUNT) note(name);
    if (logfd >= 0) {
        char b[64];
        int n = snprintf(b, sizeof b, "%ld %s\n", count, name);
        syscall(SYS_write, logfd, b, (size_t)n);
    }
    if (mode == M_FAILON && count >= at) { errno = err; return 1; }
    if (count != at) return 0;
    switch (mode) {
    case M_KILL: syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for (;;) pause();
    case M_FAIL: errno = err; return 1;
    case M_TERM: raise(err ? err : SIGTERM); return 0;
    case M_PAUSE:
        c = 'p';
        syscall(SYS_write, notify_fd, &c, 1);
        while (syscall(SYS_read, wait_fd, &c, 1) < 0 && errno == EINTR) ;
        return 0;
    case M_PARTIAL:
        if (iswrite) return 2;
        syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for (;;) pause();
    }
    return 0;
}
/* With zv_sock(1), taking the lock of a profile (binding a local socket) counts as well, with zv_sock(2) nothing else. */
void zv_sock(int on) { sock = on; }
int bind(int fd, const struct sockaddr *a, socklen_t n)
{
    static int (*real)(int, const struct sockaddr *, socklen_t);
    if (!real) real = dlsym(RTLD_NEXT, "bind");
    if (armed && sock && a && a->sa_family == AF_UNIX && hit("bind", 0) == 1) return -1;
    return real(fd, a, n);
}
static void die(void) { syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

/* A clock that runs ahead of (or behind) the real one, also where the kernel would fill in the time. */
static long long clock_off;
static int clock_set;
void zv_clock(long long ns) { clock_off = ns; clock_set = 1; }
static void shift(struct timespec *t)
{
    long long n = (long long)t->tv_sec * 1000000000 + t->tv_nsec + clock_off;
    t->tv_sec = n / 1000000000;
    t->tv_nsec = n % 1000000000;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
    int r = syscall(SYS_clock_gettime, c, t);
    if (r == 0 && clock_set && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) shift(t);
    return r;
}
int gettimeofday(struct timeval *restrict v, void *restrict z)
{
    struct timespec t;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &t);
    if (v) { v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *p)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
static const struct timespec *stamp(const struct timespec *t, struct timespec u[2])
{
    int i;
    if (!clock_set) return t;
    for (i = 0; i < 2; i++) {
        if (t) u[i] = t[i];
        if (!t || t[i].tv_nsec == UTIME_NOW) clock_gettime(CLOCK_REALTIME, &u[i]);
    }
    return u;
}

/* The kernel stamps files and directories by its own clock, so this one is put in afterwards. */
static void touch_now(int d, const char *p, int fl)
{
    struct timespec u[2];
    int e = errno;
    u[0].tv_nsec = UTIME_OMIT;
    clock_gettime(CLOCK_REALTIME, &u[1]);
    syscall(SYS_utimensat, d, p, u, fl);
    errno = e;
}
static void touch_fd(int fd) { if (clock_off && fd > 2) touch_now(fd, NULL, 0); }
static void touch_parent(int d, const char *p)
{
    char buf[PATH_MAX];
    char *q;
    if (!clock_off) return;
    strncpy(buf, p, sizeof buf - 1);
    buf[sizeof buf - 1] = 0;
    q = strrchr(buf, '/');
    while (q && q > buf && !q[1]) { *q = 0; q = strrchr(buf, '/'); }
    if (q) q[q == buf] = 0; else strcpy(buf, ".");
    touch_now(d, buf, 0);
}
static int missing(int d, const char *p, int fl)
{
    struct stat st;
    int e = errno, r = clock_off && (fl & O_CREAT) && fstatat(d, p, &st, AT_SYMLINK_NOFOLLOW) < 0;
    errno = e;
    return r;
}
static int opened(int r, int d, const char *p, int fl, int made)
{
    if (r >= 0 && made) touch_parent(d, p);
    if (r >= 0 && (made || (fl & O_TRUNC))) touch_fd(r);
    return r;
}
static ssize_t written(ssize_t r, int fd) { if (r > 0) touch_fd(fd); return r; }
static int named(int r, int d, const char *p) { if (r == 0) touch_parent(d, p); return r; }
static int renamed(int r, int d, const char *a, int e, const char *b)
{ if (r == 0) { touch_parent(d, a); touch_parent(e, b); } return r; }

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define WR(fl) (((fl) & O_ACCMODE) != O_RDONLY || ((fl) & (O_CREAT | O_TRUNC)))

#define OPENBODY(name, d, cond, call) \
    mode_t m = 0; REAL(name); \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
    if (cond && hit(WR(fl) ? "open-w" : "open-r", 0) == 1) return -1; \
    { int made = missing(d, p, fl); return opened(call, d, p, fl, made); }
int open(const char *p, int fl, ...) { OPENBODY(open, AT_FDCWD, under(p), real(p, fl, m)) }
int open64(const char *p, int fl, ...) { OPENBODY(open64, AT_FDCWD, under(p), real(p, fl, m)) }
int openat(int d, const char *p, int fl, ...) { OPENBODY(openat, d, under_at(d, p), real(d, p, fl, m)) }
int openat64(int d, const char *p, int fl, ...) { OPENBODY(openat64, d, under_at(d, p), real(d, p, fl, m)) }

ssize_t write(int fd, const void *b, size_t n)
{ REAL(write); if (armed && fd > 2 && under_fd2(fd)) { int h = hit("write", 1); if (h == 1) return -1; if (h == 2) { real(fd, b, n / 2); die(); } } return written(real(fd, b, n), fd); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{ REAL(pwrite); if (armed && under_fd2(fd)) { int h = hit("pwrite", 1); if (h == 1) return -1; if (h == 2) { real(fd, b, n / 2, o); die(); } } return written(real(fd, b, n, o), fd); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{ REAL(pwrite64); if (armed && under_fd2(fd)) { int h = hit("pwrite", 1); if (h == 1) return -1; if (h == 2) { real(fd, b, n / 2, o); die(); } } return written(real(fd, b, n, o), fd); }
ssize_t writev(int fd, const struct iovec *v, int c)
{ REAL(writev); if (armed && under_fd2(fd) && hit("writev", 0) == 1) return -1; return written(real(fd, v, c), fd); }
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{ REAL(sendfile); if (armed && under_fd2(o)) { int h = hit("sendfile", 1); if (h == 1) return -1; if (h == 2) { real(o, i, off, 1000); die(); } } return written(real(o, i, off, n), o); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{ REAL(sendfile64); if (armed && under_fd2(o)) { int h = hit("sendfile", 1); if (h == 1) return -1; if (h == 2) { real(o, i, off, 1000); die(); } } return written(real(o, i, off, n), o); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl)
{ REAL(copy_file_range); if (armed && under_fd2(o)) { int h = hit("copy", 1); if (h == 1) return -1; if (h == 2) { real(i, io, o, oo, 1000, fl); die(); } } return written(real(i, io, o, oo, n, fl), o); }

#define N1(name, proto, args, p) \
int name proto { REAL(name); if (under(p) && hit(#name, 0) == 1) return -1; return named(real args, AT_FDCWD, p); }
#define NAT(name, proto, args, d, p) \
int name proto { REAL(name); if (under_at(d, p) && hit(#name, 0) == 1) return -1; return named(real args, d, p); }
#define P1(name, proto, args, p) \
int name proto { REAL(name); if (under(p) && hit(#name, 0) == 1) return -1; return real args; }
#define PAT(name, proto, args, d, p) \
int name proto { REAL(name); if (under_at(d, p) && hit(#name, 0) == 1) return -1; return real args; }
#define PFD(name, proto, args, fd) \
int name proto { REAL(name); if (under_fd2(fd) && hit(#name, 0) == 1) return -1; return real args; }

int rename(const char *a, const char *b)
{ REAL(rename); if (under(a) && hit("rename", 0) == 1) return -1; return renamed(real(a, b), AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d, const char *a, int e, const char *b)
{ REAL(renameat); if (under_at(d, a) && hit("renameat", 0) == 1) return -1; return renamed(real(d, a, e, b), d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f)
{ REAL(renameat2); if (under_at(d, a) && hit("renameat2", 0) == 1) return -1; return renamed(real(d, a, e, b, f), d, a, e, b); }
N1(unlink, (const char *a), (a), a)
NAT(unlinkat, (int d, const char *a, int f), (d, a, f), d, a)
N1(rmdir, (const char *a), (a), a)
N1(mkdir, (const char *a, mode_t m), (a, m), a)
NAT(mkdirat, (int d, const char *a, mode_t m), (d, a, m), d, a)
N1(symlink, (const char *t, const char *a), (t, a), a)
NAT(symlinkat, (const char *t, int d, const char *a), (t, d, a), d, a)
N1(link, (const char *t, const char *a), (t, a), a)
NAT(linkat, (int c, const char *t, int d, const char *a, int f), (c, t, d, a, f), d, a)
P1(chmod, (const char *a, mode_t m), (a, m), a)
PFD(fchmod, (int fd, mode_t m), (fd, m), fd)
PAT(fchmodat, (int d, const char *a, mode_t m, int f), (d, a, m, f), d, a)
P1(utimes, (const char *a, const struct timeval t[2]), (a, t), a)
P1(truncate, (const char *a, off_t n), (a, n), a)
PFD(ftruncate, (int fd, off_t n), (fd, n), fd)
PFD(ftruncate64, (int fd, off64_t n), (fd, n), fd)
int utimensat(int d, const char *a, const struct timespec t[2], int f)
{
    struct timespec u[2];
    REAL(utimensat);
    if (armed && (a ? under_at(d, a) : under_fd2(d)) && hit("utimensat", 0) == 1) return -1;
    return real(d, a, stamp(t, u), f);
}
int futimens(int fd, const struct timespec t[2])
{
    struct timespec u[2];
    REAL(futimens);
    if (under_fd2(fd) && hit("futimens", 0) == 1) return -1;
    return real(fd, stamp(t, u));
}
PFD(fsync, (int fd), (fd), fd)
PFD(fdatasync, (int fd), (fd), fd)

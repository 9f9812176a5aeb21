/* simos: the simulated operating-system boundary, loaded with LD_PRELOAD.
 *
 * System calls on files below one of the configured prefixes are "tracked": they are logged to a shared buffer and obey a
 * script of rules (errno, short transfer, EINTR, signal, premature EOF, torn write, crash, concurrent rename).  The wall clock
 * and the entropy source can be simulated too.  Everything else passes through.  With no configuration it does nothing.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 0, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_N };
enum { A_NONE = 0, A_ERRNO, A_SHORT, A_EINTR, A_CRASH_BEFORE, A_CRASH_AFTER, A_TORN_CRASH, A_SIGNAL, A_EOF, A_RENAME };

struct rule { int32_t mask, nth, times, action; int64_t arg; int32_t counter, fired; };
struct ev { int32_t op, fd; int64_t arg, ret; int32_t err, action; };
#define MAXEV 20000
struct shared { int32_t n, total; int32_t fired[16]; struct ev ev[MAXEV]; };

static struct shared *SH;
static struct rule RULES[64];
static int NRULES;
static char PREFIX[4][PATH_MAX];
static int NPREFIX;
static int ENABLED;
static unsigned char TRACKED[4096];
static char RENSRC[16][PATH_MAX], RENDST[16][PATH_MAX];

static int CLK_ON; static int64_t CLK_NS; static int64_t CLK_D[64]; static int CLK_ND, CLK_I; static int64_t CLK_READS;
static int BLK; static int RND_ON; static uint64_t RND_S;

static __thread int INSIDE;

#define REAL(name) ({ static __typeof__(&name) p; if (!p) p = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p; })

/* ---------------------------------------------------------------- control interface (called through ctypes) */
void simos_shared(void *p) { SH = p; }
void simos_reset(void) { ENABLED = 0; NRULES = 0; NPREFIX = 0; CLK_ON = 0; RND_ON = 0; BLK = 0; memset(TRACKED, 0, sizeof TRACKED); if (SH) { SH->n = SH->total = 0; memset(SH->fired, 0, sizeof SH->fired); } }
void simos_clear_rules(void) { NRULES = 0; }
void simos_prefix(const char *p) { if (NPREFIX < 4) snprintf(PREFIX[NPREFIX++], PATH_MAX, "%s", p); }
int simos_rule(int mask, int nth, int times, int action, int64_t arg) { if (NRULES >= 64) return -1; RULES[NRULES] = (struct rule){mask, nth, times, action, arg, 0, 0}; return NRULES++; }
int simos_rule_fired(int i) { return RULES[i].fired; }
void simos_rename_pair(int i, const char *a, const char *b) { snprintf(RENSRC[i], PATH_MAX, "%s", a); snprintf(RENDST[i], PATH_MAX, "%s", b); }
void simos_enable(int on) { ENABLED = on; }
void simos_clock(int on, int64_t ns, const int64_t *d, int nd) { CLK_ON = on; CLK_NS = ns; CLK_ND = nd > 64 ? 64 : nd; for (int i = 0; i < CLK_ND; i++) CLK_D[i] = d[i]; CLK_I = 0; CLK_READS = 0; }
int64_t simos_clock_now(void) { return CLK_NS; }
int64_t simos_clock_reads(void) { return CLK_READS; }
void simos_random(int on, uint64_t seed) { RND_ON = on; RND_S = seed * 2654435761u + 88172645463325252ull; }
void simos_blksize(int n) { BLK = n; }
int simos_present(void) { return 1; }

/* ---------------------------------------------------------------- helpers */
static int under(const char *path) {
    char buf[PATH_MAX];
    if (!path || !NPREFIX) return 0;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        if (snprintf(buf, sizeof buf, "%s/%s", cwd, path) >= (int)sizeof buf) return 0;
        path = buf;
    }
    for (int i = 0; i < NPREFIX; i++) { size_t n = strlen(PREFIX[i]); if (!strncmp(path, PREFIX[i], n) && (path[n] == '/' || path[n] == 0)) return 1; }
    return 0;
}
static int tracked(int fd) { return ENABLED && fd >= 0 && fd < 4096 && TRACKED[fd]; }

static void logev(int op, int fd, int64_t arg, int64_t ret, int err, int action) {
    if (!SH) return;
    SH->total++;
    if (SH->n < MAXEV) { SH->ev[SH->n] = (struct ev){op, fd, arg, ret, err, action}; SH->n++; }
}
static struct rule *match(int op) {
    struct rule *hit = NULL;
    for (int i = 0; i < NRULES; i++) {
        struct rule *r = &RULES[i];
        if (!(r->mask & (1 << op))) continue;
        int c = r->counter++;
        if (!hit && c >= r->nth && c < r->nth + r->times) hit = r;
    }
    if (hit) { hit->fired++; if (SH) SH->fired[hit->action & 15]++; }
    return hit;
}
static void crash(int op, int fd, int64_t arg) { logev(op, fd, arg, -1, 0, A_CRASH_BEFORE); syscall(SYS_exit_group, 99); }

/* The common part of every tracked call.  Returns 1 if the call is decided (result in *ret, errno set). */
static int decide(int op, int fd, int64_t arg, size_t *count, int64_t *ret, struct rule **out) {
    struct rule *r = match(op);
    *out = r;
    if (!r) return 0;
    switch (r->action) {
    case A_ERRNO: logev(op, fd, arg, -1, (int)r->arg, r->action); errno = (int)r->arg; *ret = -1; return 1;
    case A_EINTR: logev(op, fd, arg, -1, EINTR, r->action); errno = EINTR; *ret = -1; return 1;
    case A_SIGNAL: logev(op, fd, arg, -1, EINTR, r->action); raise(SIGINT); errno = EINTR; *ret = -1; return 1;
    case A_EOF: if (op == OP_READ) { logev(op, fd, arg, 0, 0, r->action); *ret = 0; return 1; } return 0;
    case A_SHORT: if (count && *count > (size_t)r->arg) *count = r->arg < 1 ? 1 : (size_t)r->arg; return 0;
    case A_CRASH_BEFORE: crash(op, fd, arg); return 0;
    case A_TORN_CRASH: if (count && *count > (size_t)r->arg) *count = (size_t)r->arg; return 0;
    case A_RENAME: { INSIDE++; REAL(rename)(RENSRC[r->arg & 15], RENDST[r->arg & 15]); INSIDE--; return 0; }
    }
    return 0;
}
static void after(struct rule *r) { if (r && (r->action == A_CRASH_AFTER || r->action == A_TORN_CRASH)) syscall(SYS_exit_group, 99); }

/* ---------------------------------------------------------------- open family */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    int t = ENABLED && !INSIDE && (dirfd == AT_FDCWD || (path && path[0] == '/')) && under(path);
    int64_t ret; struct rule *r = NULL; int fd;
    if (t && decide(OP_OPEN, -1, flags, NULL, &ret, &r)) return (int)ret;
    fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    if (t) { int e = errno; if (fd >= 0 && fd < 4096) TRACKED[fd] = 1; logev(OP_OPEN, fd, flags, fd, fd < 0 ? e : 0, r ? r->action : 0); after(r); errno = e; }
    else if (fd >= 0 && fd < 4096) TRACKED[fd] = 0;
    return fd;
}
#define MODE_ARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE_ARG return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE_ARG return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

/* ---------------------------------------------------------------- transfers */
static ssize_t xfer(int op, long nr, int fd, const void *buf, size_t count, int64_t off, int has_off) {
    int64_t ret; struct rule *r = NULL; size_t n = count;
    if (!tracked(fd)) return has_off ? syscall(nr, fd, buf, count, off) : syscall(nr, fd, buf, count);
    if (decide(op, fd, (int64_t)count, &n, &ret, &r)) return ret;
    if (r && r->action == A_TORN_CRASH && n == 0) { crash(op, fd, (int64_t)count); }
    ret = has_off ? syscall(nr, fd, buf, n, off) : syscall(nr, fd, buf, n);
    int e = errno; logev(op, fd, (int64_t)count, ret, ret < 0 ? e : 0, r ? r->action : 0); after(r); errno = e;
    return ret;
}
ssize_t read(int fd, void *b, size_t n) { return xfer(OP_READ, SYS_read, fd, b, n, 0, 0); }
ssize_t write(int fd, const void *b, size_t n) { return xfer(OP_WRITE, SYS_write, fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return xfer(OP_READ, SYS_pread64, fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return xfer(OP_READ, SYS_pread64, fd, b, n, o, 1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return xfer(OP_WRITE, SYS_pwrite64, fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return xfer(OP_WRITE, SYS_pwrite64, fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c) { if (!tracked(fd)) return syscall(SYS_readv, fd, v, c); return read(fd, v[0].iov_base, v[0].iov_len); }
ssize_t writev(int fd, const struct iovec *v, int c) { if (!tracked(fd)) return syscall(SYS_writev, fd, v, c); return write(fd, v[0].iov_base, v[0].iov_len); }

#include <sys/sendfile.h>
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    if (!tracked(o)) return syscall(SYS_sendfile, o, i, off, n);
    int64_t ret; struct rule *r = NULL; size_t c = n;
    if (decide(OP_WRITE, o, (int64_t)n, &c, &ret, &r)) return ret;
    ret = syscall(SYS_sendfile, o, i, off, c);
    int e = errno; logev(OP_WRITE, o, (int64_t)n, ret, ret < 0 ? e : 0, r ? r->action : 0); after(r); errno = e; return ret;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, off, n); }

/* ---------------------------------------------------------------- simple calls */
#define SIMPLE(op, fd, cond, expr, after_err) \
    if (!(cond)) return (int)(expr); \
    { int64_t ret; struct rule *r = NULL; \
      if (decide(op, fd, 0, NULL, &ret, &r)) { int e = errno; after_err; errno = e; return (int)ret; } \
      ret = (expr); int e = errno; logev(op, fd, 0, ret, ret < 0 ? e : 0, r ? r->action : 0); after(r); errno = e; return (int)ret; }

int close(int fd) {
    int t = tracked(fd);
    if (fd >= 0 && fd < 4096) TRACKED[fd] = 0;
    SIMPLE(OP_CLOSE, fd, t, syscall(SYS_close, fd), syscall(SYS_close, fd))
}
int fsync(int fd) { SIMPLE(OP_FSYNC, fd, tracked(fd), syscall(SYS_fsync, fd), (void)0) }
int fdatasync(int fd) { SIMPLE(OP_FSYNC, fd, tracked(fd), syscall(SYS_fdatasync, fd), (void)0) }
int ftruncate(int fd, off_t n) { SIMPLE(OP_TRUNC, fd, tracked(fd), syscall(SYS_ftruncate, fd, n), (void)0) }
int ftruncate64(int fd, off64_t n) { SIMPLE(OP_TRUNC, fd, tracked(fd), syscall(SYS_ftruncate, fd, n), (void)0) }
int rename(const char *a, const char *b) { SIMPLE(OP_RENAME, -1, ENABLED && !INSIDE && (under(a) || under(b)), syscall(SYS_rename, a, b), (void)0) }
int renameat(int d1, const char *a, int d2, const char *b) { SIMPLE(OP_RENAME, -1, ENABLED && !INSIDE && (under(a) || under(b)), syscall(SYS_renameat, d1, a, d2, b), (void)0) }
int unlink(const char *a) { SIMPLE(OP_UNLINK, -1, ENABLED && !INSIDE && under(a), syscall(SYS_unlink, a), (void)0) }
int unlinkat(int d, const char *a, int f) { SIMPLE(OP_UNLINK, -1, ENABLED && !INSIDE && under(a), syscall(SYS_unlinkat, d, a, f), (void)0) }
int mkdir(const char *a, mode_t m) { SIMPLE(OP_MKDIR, -1, ENABLED && !INSIDE && under(a), syscall(SYS_mkdir, a, m), (void)0) }

/* the block size decides the buffer size of Python's files */
int fstat(int fd, struct stat *st) { int r = (int)syscall(SYS_fstat, fd, st); if (!r && BLK && tracked(fd)) st->st_blksize = BLK; return r; }
int fstat64(int fd, struct stat64 *st) { int r = (int)syscall(SYS_fstat, fd, st); if (!r && BLK && tracked(fd)) st->st_blksize = BLK; return r; }

/* ---------------------------------------------------------------- clock and entropy */
static int64_t tick(void) {
    int64_t t = CLK_NS;
    CLK_READS++;
    if (CLK_ND) { CLK_NS += CLK_D[CLK_I % CLK_ND]; CLK_I++; }
    return t;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (CLK_ON && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { int64_t t = tick(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
    return REAL(clock_gettime)(id, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    if (CLK_ON) { int64_t t = tick(); tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000; return 0; }
    struct timespec ts; REAL(clock_gettime)(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
static void fill(void *b, size_t n) {
    unsigned char *c = b;
    for (size_t i = 0; i < n; i++) { RND_S ^= RND_S << 13; RND_S ^= RND_S >> 7; RND_S ^= RND_S << 17; c[i] = (unsigned char)(RND_S >> 24); }
}
ssize_t getrandom(void *b, size_t n, unsigned f) { if (RND_ON) { fill(b, n); return (ssize_t)n; } return syscall(SYS_getrandom, b, n, f); }
int getentropy(void *b, size_t n) { if (RND_ON) { fill(b, n); return 0; } return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; }
__attribute__((constructor)) static void init(void) {
    const char *s = getenv("SIMOS_ENTROPY"); if (s) simos_random(1, strtoull(s, NULL, 10));
    const char *c = getenv("SIMOS_CLOCK_NS"); if (c) { int64_t d = 1000; const char *st = getenv("SIMOS_CLOCK_STEP"); if (st) d = atoll(st); simos_clock(1, atoll(c), &d, 1); }
}

/* simio.c - the simulator's libc seam (LD_PRELOAD).
 *
 * Every file call that touches a registered path prefix (the run's scratch
 * directory, and optionally nappy/config) and every read of the wall clock
 * goes through here. Calls are numbered; a plan of (event number, action,
 * argument) decides which of them misbehave, and how. Nothing here draws a
 * random number or reads a real clock: the plan, the clock table and the
 * short-transfer seed come from the harness. The state lives in a shared
 * anonymous mapping so that the parent of a forked child that "crashed" can
 * still read what it did.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPENR = 1, K_OPENW, K_READ, K_WRITE, K_CLOSE, K_SYNC, K_TRUNC, K_RENAME, K_UNLINK, K_MKDIR };
enum { A_NONE = 0, A_ERR = 1, A_SHORT = 2, A_EINTR = 3, A_CRASH = 4, A_STICKY = 5, A_TORNERR = 6 };

#define MAXFD 4096
#define MAXEV 200000
#define MAXPLAN 64
#define MAXFILES 256
#define MAXPFX 4
#define MAXJUMP 64
#define CRASH_CODE 97

typedef struct { int32_t kind, file, fault, res; int64_t req; } ev_t;
typedef struct { int64_t at; int32_t action, arg, kind, fired; } plan_t;

typedef struct {
    int active;
    int npfx; char pfx[MAXPFX][512];
    int nfiles; char files[MAXFILES][768];
    int fdfile[MAXFD];          /* 0 = not ours, else file id + 1 */
    int openfds;
    int64_t nev; ev_t ev[MAXEV];
    int nplan; plan_t plan[MAXPLAN];
    int sticky_errno;           /* all further writes fail (full or dead disk) */
    int64_t capacity;           /* -1 unlimited, else bytes left */
    int enospc_hits;
    int blksize;                /* 0 = real */
    uint64_t rng; int short_pct; int eintr_pct; int nshort; int neintr;
    int budget_hit; int64_t max_ev;
    int clock_on; int64_t now_ns, tick_ns; int64_t nclock;
    int njump; struct { int64_t at; int64_t delta; } jump[MAXJUMP]; int jumps_fired;
    int64_t clock_min, clock_max;
} st_t;

static st_t *S;

static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static ssize_t (*r_readv)(int, const struct iovec *, int);
static int (*r_close)(int);
static int (*r_fsync)(int);
static int (*r_fdatasync)(int);
static int (*r_ftruncate)(int, off_t);
static int (*r_rename)(const char *, const char *);
static int (*r_renameat)(int, const char *, int, const char *);
static int (*r_unlink)(const char *);
static int (*r_unlinkat)(int, const char *, int);
static int (*r_mkdir)(const char *, mode_t);
static int (*r_fstat)(int, struct stat *);
static int (*r_fstat64)(int, struct stat64 *);
static int (*r_clock_gettime)(clockid_t, struct timespec *);
static int (*r_gettimeofday)(struct timeval *, void *);
static time_t (*r_time)(time_t *);

#define SYM(v, n) do { if (!v) *(void **)&v = dlsym(RTLD_NEXT, n); } while (0)

__attribute__((constructor)) static void init(void)
{
    SYM(r_open, "open64"); SYM(r_openat, "openat64"); SYM(r_read, "read"); SYM(r_pread, "pread64");
    SYM(r_write, "write"); SYM(r_pwrite, "pwrite64"); SYM(r_writev, "writev"); SYM(r_readv, "readv");
    SYM(r_close, "close"); SYM(r_fsync, "fsync"); SYM(r_fdatasync, "fdatasync"); SYM(r_ftruncate, "ftruncate64");
    SYM(r_rename, "rename"); SYM(r_renameat, "renameat"); SYM(r_unlink, "unlink"); SYM(r_unlinkat, "unlinkat");
    SYM(r_mkdir, "mkdir"); SYM(r_fstat, "fstat"); SYM(r_fstat64, "fstat64");
    SYM(r_clock_gettime, "clock_gettime"); SYM(r_gettimeofday, "gettimeofday"); SYM(r_time, "time");
    S = mmap(NULL, sizeof(st_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { S = NULL; return; }
    S->capacity = -1; S->max_ev = MAXEV;
}

/* ---------------------------------------------------------------- helpers */
static uint64_t rnd(void)
{
    uint64_t x = S->rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return S->rng = x;
}

static int file_of(int dirfd, const char *path)
{
    char buf[1024];
    if (!S || !S->active || !path) return -1;
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) {
            if (!getcwd(buf, 512)) return -1;
        } else {
            char lnk[64]; ssize_t n;
            snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
            n = readlink(lnk, buf, 511); if (n <= 0) return -1; buf[n] = 0;
        }
        size_t l = strlen(buf);
        while (path[0] == '.' && path[1] == '/') path += 2;
        snprintf(buf + l, sizeof buf - l, "/%s", path);
        path = buf;
    }
    int hit = 0;
    for (int i = 0; i < S->npfx; i++)
        if (!strncmp(path, S->pfx[i], strlen(S->pfx[i]))) { hit = 1; break; }
    if (!hit) return -1;
    for (int i = 0; i < S->nfiles; i++) if (!strcmp(S->files[i], path)) return i;
    if (S->nfiles >= MAXFILES) return MAXFILES - 1;
    snprintf(S->files[S->nfiles], sizeof S->files[0], "%s", path);
    return S->nfiles++;
}

static inline int fd_file(int fd)
{
    if (!S || !S->active || fd < 0 || fd >= MAXFD) return -1;
    return S->fdfile[fd] - 1;
}

/* number the event; return the plan entry that applies to it, if any */
static plan_t *begin(int kind, int file, int64_t req, ev_t **out)
{
    int64_t n = S->nev;
    static ev_t dummy;
    ev_t *e = n < MAXEV ? &S->ev[n] : &dummy;
    e->kind = kind; e->file = file; e->req = req; e->fault = 0; e->res = 0;
    *out = e;
    S->nev = n + 1;
    if (S->nev > S->max_ev) S->budget_hit = 1;
    for (int i = 0; i < S->nplan; i++)
        if (S->plan[i].at == n && !S->plan[i].fired && (S->plan[i].kind == 0 || S->plan[i].kind == kind)) {
            S->plan[i].fired = 1; e->fault = S->plan[i].action; return &S->plan[i];
        }
    return NULL;
}

static int is_mod(int k) { return k == K_WRITE || k == K_OPENW || k == K_TRUNC || k == K_SYNC || k == K_MKDIR || k == K_RENAME; }

/* generic handling of the faults that replace a call: returns 1 and sets errno if it must fail */
static int fails(int kind, plan_t *p, ev_t *e)
{
    if (p) {
        if (p->action == A_CRASH && kind != K_WRITE) _exit(CRASH_CODE);
        if (p->action == A_ERR) { errno = p->arg; e->res = -p->arg; return 1; }
        if (p->action == A_EINTR) { errno = EINTR; e->res = -EINTR; return 1; }
        if (p->action == A_STICKY) { S->sticky_errno = p->arg; }
    }
    if (S->sticky_errno && is_mod(kind)) {
        /* a full disk still lets an existing file be opened; a dead one does not */
        if (S->sticky_errno == ENOSPC && kind != K_WRITE) return 0;
        errno = S->sticky_errno; e->res = -errno; e->fault = A_STICKY; return 1;
    }
    return 0;
}

static void note_open(int fd, int file)
{
    if (fd >= 0 && fd < MAXFD) { S->fdfile[fd] = file + 1; S->openfds++; }
}

/* ------------------------------------------------------------------- open */
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    int f = file_of(dirfd, path);
    if (f < 0 || (flags & O_DIRECTORY)) return r_openat(dirfd, path, flags, mode);
    ev_t *e; int kind = (flags & O_ACCMODE) == O_RDONLY ? K_OPENR : K_OPENW;
    plan_t *p = begin(kind, f, flags & (O_TRUNC | O_CREAT | O_APPEND | O_EXCL), &e);
    if (fails(kind, p, e)) return -1;
    int fd = r_openat(dirfd, path, flags, mode);
    int er = errno;
    e->res = fd >= 0 ? 0 : -er;
    note_open(fd, f);
    errno = er;
    return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE; return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE; return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE; return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE; return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC | O_LARGEFILE, mode); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags | O_LARGEFILE, 0); }

/* ------------------------------------------------------------------- read */
static ssize_t do_read(int fd, void *b, size_t n, off_t off, int pos)
{
    int f = fd_file(fd);
    if (f < 0) return pos ? r_pread(fd, b, n, off) : r_read(fd, b, n);
    ev_t *e; plan_t *p = begin(K_READ, f, n, &e);
    if (fails(K_READ, p, e)) return -1;
    size_t want = n;
    if (p && p->action == A_SHORT && n > 1) want = 1 + (size_t)p->arg % (n - 1);
    else if (S->short_pct && n > 1 && (int)(rnd() % 100) < S->short_pct) { want = 1 + rnd() % (n < 64 ? n : (rnd() & 1 ? n : 64)); S->nshort++; }
    else if (S->eintr_pct && (int)(rnd() % 100) < S->eintr_pct) { S->neintr++; errno = EINTR; e->res = -EINTR; return -1; }
    ssize_t r = pos ? r_pread(fd, b, want, off) : r_read(fd, b, want);
    e->res = r >= 0 ? (int32_t)r : -errno;
    return r;
}
ssize_t read(int fd, void *b, size_t n) { if (!r_read) SYM(r_read, "read"); return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (fd_file(fd) < 0) return r_readv(fd, v, c);
    return c > 0 ? do_read(fd, v[0].iov_base, v[0].iov_len, 0, 0) : 0;
}

/* ------------------------------------------------------------------ write */
static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int pos)
{
    int f = fd_file(fd);
    if (f < 0) return pos ? r_pwrite(fd, b, n, off) : r_write(fd, b, n);
    ev_t *e; plan_t *p = begin(K_WRITE, f, n, &e);
    if (p && p->action == A_CRASH) {
        size_t part = n ? (size_t)p->arg % (n + 1) : 0;
        if (part) { ssize_t q = pos ? r_pwrite(fd, b, part, off) : r_write(fd, b, part); (void)q; }
        e->res = (int32_t)part;
        _exit(CRASH_CODE);
    }
    if (fails(K_WRITE, p, e)) return -1;
    size_t want = n;
    if (p && p->action == A_SHORT && n > 1) want = 1 + (size_t)p->arg % (n - 1);
    else if (p && p->action == A_TORNERR) { S->sticky_errno = p->arg; want = n > 1 ? 1 + rnd() % (n - 1) : n; }
    else if (S->short_pct && n > 1 && (int)(rnd() % 100) < S->short_pct) { want = 1 + rnd() % n; if (want > n) want = n; S->nshort++; }
    else if (S->eintr_pct && (int)(rnd() % 100) < S->eintr_pct) { S->neintr++; errno = EINTR; e->res = -EINTR; return -1; }
    if (S->capacity >= 0) {
        if (S->capacity == 0 && want) { S->enospc_hits++; errno = ENOSPC; e->res = -ENOSPC; e->fault = A_STICKY; return -1; }
        if ((int64_t)want > S->capacity) want = S->capacity;
    }
    ssize_t r = pos ? r_pwrite(fd, b, want, off) : r_write(fd, b, want);
    if (r > 0 && S->capacity >= 0) S->capacity -= r;
    e->res = r >= 0 ? (int32_t)r : -errno;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { if (!r_write) SYM(r_write, "write"); return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (fd_file(fd) < 0) return r_writev(fd, v, c);
    return c > 0 ? do_write(fd, v[0].iov_base, v[0].iov_len, 0, 0) : 0;
}

/* ------------------------------------------------------------------ other */
int close(int fd)
{
    if (!r_close) SYM(r_close, "close");
    int f = fd_file(fd);
    if (f < 0) {
        if (S && fd >= 0 && fd < MAXFD && S->fdfile[fd]) { S->fdfile[fd] = 0; S->openfds--; }
        return r_close(fd);
    }
    ev_t *e; plan_t *p = begin(K_CLOSE, f, 0, &e);
    if (p && p->action == A_CRASH) _exit(CRASH_CODE);
    S->fdfile[fd] = 0; S->openfds--;
    int r = r_close(fd);
    if (p && p->action == A_ERR) { errno = p->arg; e->res = -p->arg; return -1; }
    return r;
}
static int simple_fd(int kind, int fd, int64_t req, ev_t **e)
{
    int f = fd_file(fd); if (f < 0) return -1;
    plan_t *p = begin(kind, f, req, e);
    return fails(kind, p, *e) ? 1 : 0;
}
int fsync(int fd) { ev_t *e; int s = simple_fd(K_SYNC, fd, 0, &e); return s == 1 ? -1 : r_fsync(fd); }
int fdatasync(int fd) { ev_t *e; int s = simple_fd(K_SYNC, fd, 0, &e); return s == 1 ? -1 : r_fdatasync(fd); }
int ftruncate(int fd, off_t o) { ev_t *e; int s = simple_fd(K_TRUNC, fd, o, &e); return s == 1 ? -1 : r_ftruncate(fd, o); }
int ftruncate64(int fd, off_t o) { ev_t *e; int s = simple_fd(K_TRUNC, fd, o, &e); return s == 1 ? -1 : r_ftruncate(fd, o); }
static int simple_path(int kind, int d, const char *path)
{
    int f = file_of(d, path); if (f < 0) return 0;
    ev_t *e; plan_t *p = begin(kind, f, 0, &e);
    return fails(kind, p, e);
}
int rename(const char *a, const char *b) { return simple_path(K_RENAME, AT_FDCWD, b) ? -1 : r_rename(a, b); }
int renameat(int d, const char *a, int d2, const char *b) { return simple_path(K_RENAME, d2, b) ? -1 : r_renameat(d, a, d2, b); }
int unlink(const char *a) { return simple_path(K_UNLINK, AT_FDCWD, a) ? -1 : r_unlink(a); }
int unlinkat(int d, const char *a, int fl) { return simple_path(K_UNLINK, d, a) ? -1 : r_unlinkat(d, a, fl); }
int mkdir(const char *a, mode_t m) { return simple_path(K_MKDIR, AT_FDCWD, a) ? -1 : r_mkdir(a, m); }

/* the buffer size Python picks follows st_blksize */
int fstat(int fd, struct stat *st)
{
    if (!r_fstat) SYM(r_fstat, "fstat");
    int r = r_fstat(fd, st);
    if (!r && S && S->blksize && fd_file(fd) >= 0) st->st_blksize = S->blksize;
    return r;
}
int fstat64(int fd, struct stat64 *st)
{
    if (!r_fstat64) SYM(r_fstat64, "fstat64");
    int r = r_fstat64(fd, st);
    if (!r && S && S->blksize && fd_file(fd) >= 0) st->st_blksize = S->blksize;
    return r;
}

/* ------------------------------------------------------------------ clock */
static int64_t sim_now(void)
{
    int64_t n = S->nclock++;
    for (int i = 0; i < S->njump; i++)
        if (S->jump[i].at == n) { S->now_ns += S->jump[i].delta; S->jumps_fired++; }
    int64_t t = S->now_ns;
    if (!n || t < S->clock_min) S->clock_min = t;
    if (!n || t > S->clock_max) S->clock_max = t;
    S->now_ns += S->tick_ns;
    return t;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (S && S->clock_on && S->active && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        int64_t t = sim_now(); ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL; return 0;
    }
    if (!r_clock_gettime) SYM(r_clock_gettime, "clock_gettime");
    return r_clock_gettime(c, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    if (S && S->clock_on && S->active) {
        int64_t t = sim_now(); tv->tv_sec = t / 1000000000LL; tv->tv_usec = (t % 1000000000LL) / 1000; return 0;
    }
    if (!r_gettimeofday) SYM(r_gettimeofday, "gettimeofday");
    return r_gettimeofday(tv, tz);
}
time_t time(time_t *p)
{
    if (S && S->clock_on && S->active) { time_t t = sim_now() / 1000000000LL; if (p) *p = t; return t; }
    if (!r_time) SYM(r_time, "time");
    return r_time(p);
}

/* ------------------------------------------------------ control (ctypes) */
int simio_present(void) { return S != NULL; }
void simio_reset(void)
{
    S->active = 0; S->npfx = 0; S->nfiles = 0; memset(S->fdfile, 0, sizeof S->fdfile); S->openfds = 0;
    S->nev = 0; S->nplan = 0; S->sticky_errno = 0; S->capacity = -1; S->enospc_hits = 0; S->blksize = 0;
    S->rng = 88172645463325252ULL; S->short_pct = S->eintr_pct = S->nshort = S->neintr = 0; S->budget_hit = 0;
    S->max_ev = MAXEV; S->clock_on = 0; S->now_ns = 0; S->tick_ns = 0; S->nclock = 0; S->njump = 0; S->jumps_fired = 0;
    S->clock_min = S->clock_max = 0;
}
void simio_prefix(const char *p) { if (S->npfx < MAXPFX) snprintf(S->pfx[S->npfx++], 512, "%s", p); }
/* drop the last prefix (used to switch configuration faults on and off) */
void simio_unprefix(void) { if (S->npfx) S->npfx--; }
void simio_active(int on) { S->active = on; }
void simio_clear_plan(void) { S->nplan = 0; S->sticky_errno = 0; S->capacity = -1; }
void simio_plan(int64_t at, int action, int arg, int kind)
{
    if (S->nplan < MAXPLAN) { plan_t *p = &S->plan[S->nplan++]; p->at = at; p->action = action; p->arg = arg; p->kind = kind; p->fired = 0; }
}
int simio_plan_fired(int i) { return i < S->nplan ? S->plan[i].fired : -1; }
void simio_capacity(int64_t c) { S->capacity = c; }
int simio_enospc_hits(void) { return S->enospc_hits; }
void simio_blksize(int n) { S->blksize = n; }
void simio_noise(uint64_t seed, int short_pct, int eintr_pct) { S->rng = seed ? seed : 1; S->short_pct = short_pct; S->eintr_pct = eintr_pct; }
void simio_max_events(int64_t n) { S->max_ev = n; }
int64_t simio_nev(void) { return S->nev; }
int simio_nshort(void) { return S->nshort; }
int simio_neintr(void) { return S->neintr; }
int simio_openfds(void) { return S->openfds; }
int simio_nfiles(void) { return S->nfiles; }
const char *simio_file(int i) { return S->files[i]; }
void simio_event(int64_t i, int64_t *out)
{
    ev_t *e = &S->ev[i < MAXEV ? i : MAXEV - 1];
    out[0] = e->kind; out[1] = e->file; out[2] = e->req; out[3] = e->res; out[4] = e->fault;
}
int simio_fd_file(int fd) { return fd >= 0 && fd < MAXFD ? S->fdfile[fd] - 1 : -1; }
void simio_clock(int64_t now_ns, int64_t tick_ns) { S->clock_on = 1; S->now_ns = now_ns; S->tick_ns = tick_ns; S->nclock = 0; S->njump = 0; S->jumps_fired = 0; S->clock_min = S->clock_max = now_ns; }
void simio_clock_off(void) { S->clock_on = 0; }
void simio_jump(int64_t at, int64_t delta) { if (S->njump < MAXJUMP) { S->jump[S->njump].at = at; S->jump[S->njump].delta = delta; S->njump++; } }
int64_t simio_clock_now(void) { return S->now_ns; }
int64_t simio_clock_reads(void) { return S->nclock; }
int simio_jumps_fired(void) { return S->jumps_fired; }
int64_t simio_clock_min(void) { return S->clock_min; }
int64_t simio_clock_max(void) { return S->clock_max; }
/* give up the descriptors a finished run left open */
int simio_force_close(void)
{
    int n = 0, was = S->active; S->active = 0;
    for (int fd = 3; fd < MAXFD; fd++) if (S->fdfile[fd]) { n++; S->fdfile[fd] = 0; r_close(fd); }
    S->openfds = 0; S->active = was; return n;
}

/* LD_PRELOAD monitor: records the system calls made on tracked descriptors and, on demand,
 * injects short transfers, errors, delays and stalls into them.  Controlled in-process (ctypes). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

enum { C_OPEN = 1, C_CLOSE, C_READ, C_WRITE, C_LSEEK, C_FCNTL, C_FTRUNC, C_FSYNC, C_FDSYNC, C_DUP, C_FSTAT, C_IOCTL };
enum { A_ERR = 1, A_SHORT, A_DELAY_BEFORE, A_DELAY_AFTER, A_STALL_BEFORE, A_STALL_AFTER, A_ERR_AFTER, A_SHORT_RANDOM };

typedef struct {
    uint64_t seq, t0, t1;
    int64_t a, b, ret;
    uint64_t dev, ino;
    int32_t pid, tid, call, fd, err, inj, x1, x2;
} rec_t;
#define NREC (1u << 18)
#define NRULE 64
typedef struct {
    volatile int32_t active, call, fd, pid, tid, action;
    volatile int64_t skip, count, arg;
    volatile uint64_t dev, ino;
    volatile int64_t seen, hits, stalled, release;
    volatile int32_t x1, pad;
} rule_t;
typedef struct {
    volatile uint64_t n;
    volatile int32_t logging, perturb_pm, perturb_us, pad;
    volatile uint64_t rng;
    rule_t rules[NRULE];
    rec_t recs[NREC];
} shm_t;

static shm_t *S;
static char prefix[PATH_MAX];
static size_t plen;
#define NFD 8192
static volatile uint8_t tracked[NFD];

#define REAL(name) ((__typeof__(&name))real_##name)
static void *real_open64, *real_open, *real_close, *real_read, *real_write, *real_lseek64, *real_fcntl64,
    *real_ftruncate64, *real_fsync, *real_fdatasync, *real_dup, *real_fstat64, *real_fstat, *real_ioctl;
static void resolve(void) {
    if (real_close) return;
    real_open64 = dlsym(RTLD_NEXT, "open64");
    real_open = dlsym(RTLD_NEXT, "open");
    real_read = dlsym(RTLD_NEXT, "read");
    real_write = dlsym(RTLD_NEXT, "write");
    real_lseek64 = dlsym(RTLD_NEXT, "lseek64");
    real_fcntl64 = dlsym(RTLD_NEXT, "fcntl64");
    real_ftruncate64 = dlsym(RTLD_NEXT, "ftruncate64");
    real_fsync = dlsym(RTLD_NEXT, "fsync");
    real_fdatasync = dlsym(RTLD_NEXT, "fdatasync");
    real_dup = dlsym(RTLD_NEXT, "dup");
    real_fstat64 = dlsym(RTLD_NEXT, "fstat64");
    real_fstat = dlsym(RTLD_NEXT, "fstat");
    real_ioctl = dlsym(RTLD_NEXT, "ioctl");
    real_close = dlsym(RTLD_NEXT, "close");
}
static int real_stat(int fd, struct stat *st) { return ((int (*)(int, struct stat *))real_fstat)(fd, st); }
static uint64_t now(void) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}
__attribute__((constructor)) static void ctor(void) {
    resolve();
    S = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) S = NULL;
}
/* ---- control ---- */
int vs_present(void) { return S ? (int)sizeof(rec_t) : 0; }
void vs_prefix(const char *p) { snprintf(prefix, sizeof prefix, "%s", p); plen = strlen(prefix); }
void vs_track(int fd, int on) { if (fd >= 0 && fd < NFD) tracked[fd] = on; }
int vs_tracked(int fd) { return fd >= 0 && fd < NFD && tracked[fd]; }
void vs_log(int on) { S->logging = on; }
uint64_t vs_count(void) { return S->n < NREC ? S->n : NREC; }
uint64_t vs_total(void) { return S->n; }
void vs_reset(void) { S->n = 0; }
rec_t *vs_recs(void) { return S->recs; }
void vs_perturb(uint64_t seed, int per_mille, int max_us) { S->rng = seed * 2654435761u + 88172645463325252ull; S->perturb_us = max_us; S->perturb_pm = per_mille; }
int vs_rule(int call, int fd, uint64_t dev, uint64_t ino, int64_t skip, int64_t count, int action, int64_t arg, int x1) {
    for (int i = 0; i < NRULE; i++)
        if (!S->rules[i].active) {
            rule_t *r = &S->rules[i];
            memset((void *)r, 0, sizeof *r);
            r->call = call; r->fd = fd; r->dev = dev; r->ino = ino; r->skip = skip; r->count = count;
            r->action = action; r->arg = arg; r->x1 = x1;
            __sync_synchronize();
            r->active = 1;
            return i;
        }
    return -1;
}
void vs_rule_who(int i, int pid, int tid) { S->rules[i].pid = pid; S->rules[i].tid = tid; }
int64_t vs_rule_hits(int i) { return S->rules[i].hits; }
int64_t vs_rule_stalled(int i) { return S->rules[i].stalled; }
void vs_rule_release(int i) { S->rules[i].release = 1; }
void vs_rule_clear(int i) {
    if (i >= 0) { S->rules[i].release = 1; S->rules[i].active = 0; }
    else for (int k = 0; k < NRULE; k++) { S->rules[k].release = 1; S->rules[k].active = 0; }
}
int vs_tid(void) { return (int)syscall(SYS_gettid); }

/* ---- machinery ---- */
static uint64_t rnd(void) {
    uint64_t x = __sync_add_and_fetch(&S->rng, 0x9E3779B97F4A7C15ull);
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
    return x;
}
static void perturb(void) {
    if (!S->perturb_pm) return;
    uint64_t r = rnd();
    if ((int)(r % 1000) < S->perturb_pm) {
        r >>= 20;
        if (r & 1) sched_yield();
        else usleep((r >> 1) % (S->perturb_us + 1));
    }
}
static int is_t(int fd) { return S && fd >= 0 && fd < NFD && tracked[fd]; }
typedef struct { rule_t *r; uint64_t dev, ino, t0; } ctx_t;
/* finds the first matching rule; performs "before" actions */
static rule_t *match(int call, int fd, ctx_t *c, int x1) {
    for (int i = 0; i < NRULE; i++) {
        rule_t *r = &S->rules[i];
        if (!r->active || r->call != call) continue;
        if (r->fd >= 0 && r->fd != fd) continue;
        if (r->ino && (r->ino != c->ino || r->dev != c->dev)) continue;
        if (r->pid && r->pid != getpid()) continue;
        if (r->tid && r->tid != vs_tid()) continue;
        if (r->x1 >= 0 && r->x1 != x1) continue;
        int64_t k = __sync_add_and_fetch(&r->seen, 1);
        if (k <= r->skip) continue;
        if (r->count >= 0 && k > r->skip + r->count) continue;
        __sync_add_and_fetch(&r->hits, 1);
        return r;
    }
    return NULL;
}
static void stall(rule_t *r) {
    __sync_add_and_fetch(&r->stalled, 1);
    for (int i = 0; i < 600000 && !r->release && r->active; i++) usleep(100);
}
static void begin(int call, int fd, ctx_t *c, int x1) {
    struct stat st;
    int e = errno;
    c->dev = c->ino = 0;
    if (fd >= 0 && real_stat(fd, &st) == 0) { c->dev = st.st_dev; c->ino = st.st_ino; }
    perturb();
    c->r = match(call, fd, c, x1);
    if (c->r) {
        if (c->r->action == A_DELAY_BEFORE) usleep(c->r->arg);
        if (c->r->action == A_STALL_BEFORE) stall(c->r);
    }
    errno = e;
    c->t0 = now();
}
static void end(int call, int fd, ctx_t *c, int64_t a, int64_t b, int64_t ret, int x1, int x2, int inj) {
    int e = errno;
    if (S->logging) {
        uint64_t i = __sync_fetch_and_add(&S->n, 1);
        if (i < NREC) {
            rec_t *p = &S->recs[i];
            p->t0 = c->t0; p->t1 = now(); p->a = a; p->b = b; p->ret = ret; p->dev = c->dev; p->ino = c->ino;
            p->pid = getpid(); p->tid = vs_tid(); p->call = call; p->fd = fd; p->err = ret < 0 ? e : 0;
            p->inj = inj; p->x1 = x1; p->x2 = x2;
            __sync_synchronize();
            p->seq = i + 1;
        }
    }
    if (c->r) {
        if (c->r->action == A_DELAY_AFTER) usleep(c->r->arg);
        if (c->r->action == A_STALL_AFTER) stall(c->r);
    }
    perturb();
    errno = e;
}
#define INJ_ERR(c) ((c).r && (c).r->action == A_ERR)
#define INJ_ERRA(c) ((c).r && (c).r->action == A_ERR_AFTER)

static int path_match(const char *p) { return plen && strncmp(p, prefix, plen) == 0; }
static int do_open(int (*f)(const char *, int, ...), const char *path, int flags, mode_t mode) {
    if (!S || !plen) return f(path, flags, mode);
    ctx_t c;
    int inj = 0, pm = path_match(path);
    if (pm) {
        begin(C_OPEN, -1, &c, -1);
        if (INJ_ERR(c)) { errno = c.r->arg; end(C_OPEN, -1, &c, flags, mode, -1, 0, 0, A_ERR); errno = c.r->arg; return -1; }
    }
    int fd = f(path, flags, mode);
    int e = errno;
    if (!pm && fd >= 0) {
        char l[64], t[PATH_MAX];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(l, t, sizeof t - 1);
        if (n > 0) { t[n] = 0; pm = path_match(t); }
        if (pm) { c.r = NULL; c.t0 = now(); }
    }
    if (pm) {
        struct stat st;
        c.dev = c.ino = 0;
        if (fd >= 0) {
            if (fd < NFD) tracked[fd] = 1;
            if (real_stat(fd, &st) == 0) { c.dev = st.st_dev; c.ino = st.st_ino; }
        }
        errno = e;
        end(C_OPEN, fd, &c, flags, mode, fd, 0, 0, inj);
    } else if (fd >= 0 && fd < NFD) tracked[fd] = 0;
    errno = e;
    return fd;
}
int open64(const char *path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    resolve();
    return do_open((int (*)(const char *, int, ...))real_open64, path, flags, m);
}
int open(const char *path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    resolve();
    return do_open((int (*)(const char *, int, ...))real_open, path, flags, m);
}
int close(int fd) {
    resolve();
    if (!is_t(fd)) {
        int (*f)(int) = real_close;
        int r = f(fd);
        if (r < 0 && errno == EBADF && S && S->logging && fd >= 0) {
            ctx_t c = {0};
            c.t0 = now();
            end(C_CLOSE, fd, &c, 0, 0, r, 0, 1, 0);
        }
        return r;
    }
    ctx_t c;
    begin(C_CLOSE, fd, &c, -1);
    if (INJ_ERR(c)) { errno = c.r->arg; end(C_CLOSE, fd, &c, 0, 0, -1, 0, 0, A_ERR); errno = c.r->arg; return -1; }
    tracked[fd] = 0;
    int r = ((int (*)(int))real_close)(fd);
    int inj = 0;
    if (INJ_ERRA(c) && r == 0) { r = -1; errno = c.r->arg; inj = A_ERR_AFTER; }
    end(C_CLOSE, fd, &c, 0, 0, r, 0, 0, inj);
    return r;
}
static size_t limit(ctx_t *c, size_t n, int *inj) {
    if (c->r && c->r->action == A_SHORT && n > (size_t)c->r->arg) { *inj = A_SHORT; return c->r->arg; }
    if (c->r && c->r->action == A_SHORT_RANDOM && n > 1) { *inj = A_SHORT_RANDOM; return 1 + rnd() % n; }
    return n;
}
ssize_t read(int fd, void *buf, size_t n) {
    resolve();
    if (!is_t(fd)) return ((ssize_t(*)(int, void *, size_t))real_read)(fd, buf, n);
    ctx_t c;
    begin(C_READ, fd, &c, -1);
    if (INJ_ERR(c)) { errno = c.r->arg; end(C_READ, fd, &c, n, 0, -1, 0, 0, A_ERR); errno = c.r->arg; return -1; }
    int inj = 0;
    size_t m = limit(&c, n, &inj);
    ssize_t r = ((ssize_t(*)(int, void *, size_t))real_read)(fd, buf, m);
    end(C_READ, fd, &c, n, m, r, 0, 0, inj);
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
    resolve();
    if (!is_t(fd)) return ((ssize_t(*)(int, const void *, size_t))real_write)(fd, buf, n);
    ctx_t c;
    begin(C_WRITE, fd, &c, -1);
    if (INJ_ERR(c)) { errno = c.r->arg; end(C_WRITE, fd, &c, n, 0, -1, 0, 0, A_ERR); errno = c.r->arg; return -1; }
    int inj = 0;
    size_t m = limit(&c, n, &inj);
    ssize_t r = ((ssize_t(*)(int, const void *, size_t))real_write)(fd, buf, m);
    end(C_WRITE, fd, &c, n, m, r, 0, 0, inj);
    return r;
}
off64_t lseek64(int fd, off64_t off, int whence) {
    resolve();
    if (!is_t(fd)) return ((off64_t(*)(int, off64_t, int))real_lseek64)(fd, off, whence);
    ctx_t c;
    begin(C_LSEEK, fd, &c, whence);
    if (INJ_ERR(c)) { errno = c.r->arg; end(C_LSEEK, fd, &c, off, whence, -1, whence, 0, A_ERR); errno = c.r->arg; return -1; }
    off64_t r = ((off64_t(*)(int, off64_t, int))real_lseek64)(fd, off, whence);
    end(C_LSEEK, fd, &c, off, whence, r, whence, 0, 0);
    return r;
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    resolve();
    if (!is_t(fd)) return ((int (*)(int, int, ...))real_fcntl64)(fd, cmd, arg);
    ctx_t c;
    int lk = (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW);
    struct flock *fl = lk ? (struct flock *)arg : NULL;
    int type = fl ? fl->l_type : -1;
    begin(C_FCNTL, fd, &c, lk ? type : 100 + cmd);
    if (INJ_ERR(c)) {
        errno = c.r->arg;
        end(C_FCNTL, fd, &c, fl ? fl->l_start : (intptr_t)arg, fl ? fl->l_len : 0, -1, cmd, type, A_ERR);
        errno = c.r->arg;
        return -1;
    }
    int64_t a = fl ? fl->l_start : (int64_t)(intptr_t)arg, b = fl ? fl->l_len : 0;
    int r = ((int (*)(int, int, ...))real_fcntl64)(fd, cmd, arg);
    int e = errno;
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < NFD) tracked[r] = 1;
    errno = e;
    end(C_FCNTL, fd, &c, a, b, r, cmd, type, 0);
    return r;
}
int ftruncate64(int fd, off64_t len) {
    resolve();
    if (!is_t(fd)) return ((int (*)(int, off64_t))real_ftruncate64)(fd, len);
    ctx_t c;
    begin(C_FTRUNC, fd, &c, -1);
    if (INJ_ERR(c)) { errno = c.r->arg; end(C_FTRUNC, fd, &c, len, 0, -1, 0, 0, A_ERR); errno = c.r->arg; return -1; }
    int r = ((int (*)(int, off64_t))real_ftruncate64)(fd, len);
    end(C_FTRUNC, fd, &c, len, 0, r, 0, 0, 0);
    return r;
}
static int do_sync(int call, int (*f)(int), int fd) {
    if (!is_t(fd)) return f(fd);
    ctx_t c;
    begin(call, fd, &c, -1);
    if (INJ_ERR(c)) { errno = c.r->arg; end(call, fd, &c, 0, 0, -1, 0, 0, A_ERR); errno = c.r->arg; return -1; }
    int r = f(fd);
    end(call, fd, &c, 0, 0, r, 0, 0, 0);
    return r;
}
int fsync(int fd) { resolve(); return do_sync(C_FSYNC, (int (*)(int))real_fsync, fd); }
int fdatasync(int fd) { resolve(); return do_sync(C_FDSYNC, (int (*)(int))real_fdatasync, fd); }
int dup(int fd) {
    resolve();
    int r = ((int (*)(int))real_dup)(fd);
    if (r >= 0 && r < NFD) tracked[r] = is_t(fd) ? 1 : 0;
    return r;
}
static int do_fstat(void *f, int fd, void *st) {
    if (!is_t(fd)) return ((int (*)(int, void *))f)(fd, st);
    ctx_t c;
    begin(C_FSTAT, fd, &c, -1);
    if (INJ_ERR(c)) { errno = c.r->arg; return -1; }
    return ((int (*)(int, void *))f)(fd, st);
}
int fstat64(int fd, struct stat64 *st) { resolve(); return do_fstat(real_fstat64, fd, st); }
int fstat(int fd, struct stat *st) { resolve(); return do_fstat(real_fstat, fd, st); }
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    resolve();
    if (!is_t(fd)) return ((int (*)(int, unsigned long, void *))real_ioctl)(fd, req, arg);
    ctx_t c;
    begin(C_IOCTL, fd, &c, -1);
    if (INJ_ERR(c)) { errno = c.r->arg; return -1; }
    return ((int (*)(int, unsigned long, void *))real_ioctl)(fd, req, arg);
}

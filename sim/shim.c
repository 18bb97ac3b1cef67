/* The system-call and allocator seam under the real command-line tool (C10), loaded with LD_PRELOAD.
 * Faults come only from the plan in AMSIM_PLAN; without one every call is passed on unchanged.
 * Plan: entries "class:nth:act:arg;" - class o(pen) s(tat) l(seek) r(ead) w(rite to stdout)
 * E (write to stderr) m(alloc); nth counts calls of the class from 0; acts:
 *   e fail this call with errno arg          z fail this and every later call with errno arg
 *   s at most arg bytes in this call         c at most arg bytes in this and every later call
 *   t end of file from this call on (a write: takes nothing)
 *   f room for arg bytes in all, then ENOSPC
 *   g the file size reported is arg          h hang up: arg bytes in all, then EPIPE */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

enum { C_OPEN, C_STAT, C_LSEEK, C_READ, C_WRITE, C_ERR, C_MALLOC, NCLS };
static const char cls_name[] = "oslrwEm";
static const char act_name[] = "ezsctfgh";
enum { A_E, A_Z, A_S, A_C, A_T, A_F, A_G, A_H, NACT };

struct rec { int cls, act; long nth, arg; };
static struct rec plan[64];
static int nplan, on;
static long calls[NCLS];
static const char *target;
static int tfd = -1;

/* what happened, for the simulator; survives an abort */
struct shared { int64_t calls[NCLS]; int64_t fired[NCLS][NACT]; int64_t got, trunc_at, eof, out; };
static struct shared dummy, *sh = &dummy;
static uint64_t seed;

static long raw(long n, long a, long b, long c, long d, long e) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = 0;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("AMSIM_PLAN"), *l = getenv("AMSIM_LOG"), *s = getenv("AMSIM_HSEED");
    target = getenv("AMSIM_FILE");
    if (s) seed = strtoull(s, 0, 10);
    if (l) {
        int fd = (int)raw(SYS_openat, AT_FDCWD, (long)l, O_RDWR, 0, 0);
        if (fd >= 0) {
            void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            raw(SYS_close, fd, 0, 0, 0, 0);
            if (m != MAP_FAILED) sh = m;
        }
    }
    sh->trunc_at = -1;
    while (p && *p && nplan < 64) {
        struct rec *r = &plan[nplan];
        const char *q = strchr(cls_name, *p);
        char *e;
        if (!q || p[1] != ':') break;
        r->cls = (int)(q - cls_name);
        r->nth = strtol(p + 2, &e, 10);
        if (*e != ':') break;
        q = strchr(act_name, e[1]);
        if (!q || !e[1] || e[2] != ':') break;
        r->act = (int)(q - act_name);
        r->arg = strtol(e + 3, &e, 10);
        if (*e != ';') break;
        p = e + 1;
        nplan++;
    }
    on = p != 0;
}

/* Environment variables have the value the seed gives them, except the runtime's own. */
extern char **environ;
char *getenv(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    if (!on || !strncmp(name, "RUST", 4) || !strncmp(name, "AMSIM", 5)) return 0;
    static char *val[] = {"", "0", "1", "2", "16", "true", "C", "tr_TR.UTF-8", "/tmp", "debug", "1000000"};
    uint64_t h = seed;
    for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)name[i]) * 0x9E3779B97F4A7C15u, h ^= h >> 29;
    return h % 4 ? val[(h >> 8) % 11] : 0;
}

/* The fault for this call of a class: 0 none; else errno is set (A_E), or *max lowered. */
static int fault(int cls, long *max, int *eof) {
    long k = calls[cls]++;
    if (k > 5000000 + sh->got + sh->out && cls != C_MALLOC && cls != C_ERR) raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0), 14, 0, 0, 0); /* no end in sight */
    int bad = 0;
    sh->calls[cls]++;
    for (int i = 0; i < nplan; i++) {
        struct rec *r = &plan[i];
        if (r->cls != cls) continue;
        int hit = r->act == A_E || r->act == A_S ? k == r->nth : k >= r->nth;
        if (!hit) continue;
        switch (r->act) {
        case A_E: case A_Z: errno = (int)r->arg; bad = 1; break;
        case A_S: case A_C: if (max && *max > r->arg && r->arg > 0) *max = r->arg; else continue; break;
        case A_T: if (eof) *eof = 1; break;
        case A_F: case A_H: {
            long room = r->arg - sh->out;
            if (!max || *max <= room) continue;
            if (room <= 0) { errno = r->act == A_F ? ENOSPC : EPIPE; bad = 1; } else *max = room;
            break;
        }
        default: continue;
        }
        sh->fired[cls][r->act]++;
        if (bad) return 1;
    }
    return 0;
}

static int do_open(int dir, const char *path, int flags, int mode) {
    int mine = on && target && !strcmp(path, target);
    if (mine && fault(C_OPEN, 0, 0)) return -1;
    int fd = (int)ret(raw(SYS_openat, dir, (long)path, flags, mode, 0));
    if (mine && fd >= 0) tfd = fd;
    return fd;
}
#define MODE int mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }

static long do_read(long n, int fd, void *buf, size_t len, off_t off) {
    long max = (long)len;
    int eof = 0;
    if (on && fd == tfd) {
        if (fault(C_READ, &max, &eof)) return -1;
        if (eof) {
            if (sh->trunc_at < 0) sh->trunc_at = sh->got;
            return 0;
        }
    }
    long r = ret(raw(n, fd, (long)buf, max, off, 0));
    if (on && fd == tfd && r > 0) sh->got += r;
    if (on && fd == tfd && r == 0 && len) sh->eof = 1;
    return r;
}
ssize_t read(int fd, void *buf, size_t len) { return do_read(SYS_read, fd, buf, len, 0); }
ssize_t pread(int fd, void *buf, size_t len, off_t o) { return do_read(SYS_pread64, fd, buf, len, o); }
ssize_t pread64(int fd, void *buf, size_t len, off_t o) { return do_read(SYS_pread64, fd, buf, len, o); }
ssize_t readv(int fd, const struct iovec *v, int n) {
    for (int i = 0; i < n; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t write(int fd, const void *buf, size_t len) {
    long max = (long)len;
    int none = 0;
    if (on && fd == 1) { if (fault(C_WRITE, &max, &none)) return -1; if (none) return 0; }
    else if (on && fd == 2) { if (fault(C_ERR, &max, 0)) return -1; }
    long r = ret(raw(SYS_write, fd, (long)buf, max, 0, 0));
    if (fd == 1 && r > 0) sh->out += r;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!on || (fd != 1 && fd != 2)) return ret(raw(SYS_writev, fd, (long)v, n, 0, 0));
    for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
/* std copies files with these when it can; then every byte goes through read and write instead */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { errno = EINVAL; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { errno = EINVAL; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = EINVAL; return -1; }

static int lie(long *size) {
    for (int i = 0; i < nplan; i++)
        if (plan[i].cls == C_STAT && plan[i].act == A_G) { *size = plan[i].arg; sh->fired[C_STAT][A_G]++; return 1; }
    return 0;
}
static int is_target(int d, const char *path) {
    if (path && *path) return target && !strcmp(path, target);
    return d >= 0 && d == tfd;
}
int statx(int d, const char *restrict path, int flags, unsigned mask, struct statx *restrict b) {
    int mine = on && is_target(d, path);
    long z;
    if (mine && fault(C_STAT, 0, 0)) return -1;
    int r = (int)ret(raw(SYS_statx, d, (long)path, flags, mask, (long)b));
    if (mine && r == 0 && lie(&z)) b->stx_size = z;
    return r;
}
int fstat(int fd, struct stat *b) {
    int mine = on && fd >= 0 && fd == tfd;
    long z;
    if (mine && fault(C_STAT, 0, 0)) return -1;
    int r = (int)ret(raw(SYS_fstat, fd, (long)b, 0, 0, 0));
    if (mine && r == 0 && lie(&z)) b->st_size = z;
    return r;
}
int fstat64(int fd, struct stat64 *b) { return fstat(fd, (struct stat *)b); }
off_t lseek(int fd, off_t o, int w) {
    if (on && fd >= 0 && fd == tfd && fault(C_LSEEK, 0, 0)) return -1;
    return ret(raw(SYS_lseek, fd, o, w, 0, 0));
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd) {
    if (fd >= 0 && fd == tfd) tfd = -1;
    return (int)ret(raw(SYS_close, fd, 0, 0, 0, 0));
}

static int no_memory(void) { return on && fault(C_MALLOC, 0, 0); }
void *malloc(size_t n) { return no_memory() ? (errno = ENOMEM, (void *)0) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return no_memory() ? (errno = ENOMEM, (void *)0) : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return no_memory() ? (errno = ENOMEM, (void *)0) : __libc_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n) {
    void *q = no_memory() ? 0 : __libc_memalign(a, n);
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
void *aligned_alloc(size_t a, size_t n) { return no_memory() ? (errno = ENOMEM, (void *)0) : __libc_memalign(a, n); }

/* hash seeds */
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    for (size_t i = 0; i < n; i++) {
        seed += 0x9E3779B97F4A7C15ull;
        uint64_t z = seed;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        ((unsigned char *)buf)[i] = (unsigned char)(z >> 56);
    }
    return (ssize_t)n;
}

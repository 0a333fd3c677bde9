/*
 * simos: the simulated operating system seam.
 *
 * Loaded with LD_PRELOAD into every simulation process.  While disarmed every
 * call is passed straight to libc.  While armed, calls that touch files below
 * one "tracked" prefix (the scratch directory of the current run) are counted
 * and can be made to fail, be cut short, or kill the process at one exact call
 * number; directory listings below the prefix are returned in an order drawn
 * from a seeded generator; wall-clock reads return simulated time; and kernel
 * randomness is drawn from a seeded generator.  Everything is a function of
 * the values passed to the simos_* entry points, nothing else.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define NOPS 8
enum { OP_OPEN_R, OP_OPEN_W, OP_READ, OP_WRITE, OP_RENAME, OP_UNLINK, OP_FTRUNC, OP_CLOSE_W };

static char prefix[PATH_MAX];
static size_t prefix_len = 0;
static int armed = 0;              /* faults + counters */
static int rec_listing = 0;        /* shuffled directory order */
static unsigned char fd_track[MAXFD]; /* 0 no, 1 read, 2 write */
static long counts[NOPS];
static long fired[18];
/* one write-side fault and one read-side fault per armed region */
static int w_kind = 0;   /* 0 none 1 ENOSPC sticky 2 EIO once 3 crash before 4 crash after torn write 5 short-write quota (ENOSPC after) */
static long w_at = -1;   /* mutation index (open_w, write, ftrunc, rename, unlink, close_w) */
static double w_frac = 0;
static int r_kind = 0;   /* 1 EIO at read index, 2 EMFILE/ENOENT-like at open index, 3 sticky EIO, 4 EINTR once */
static long r_at = -1;
static char only[256];   /* optional substring filter on path for read faults */
static long mutations = 0, reads = 0, opens = 0;
static int log_on = 0;
static uint64_t log_hash = 1469598103934665603ULL;

static int clock_on = 0;
static int64_t clock_ns = 0, clock_step = 0;
static int rand_on = 0;
static uint64_t rand_s = 0, dir_s = 0;

static uint64_t sm(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
#define REAL(name) static __typeof__(name) *real_##name; if (!real_##name) real_##name = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static void mix(const char *s) { for (; *s; s++) { log_hash ^= (unsigned char)*s; log_hash *= 1099511628211ULL; } }

static int tracked_path(const char *p) {
    if (!prefix_len || !p) return 0;
    if (p[0] == '/') return strncmp(p, prefix, prefix_len) == 0;
    char cwd[PATH_MAX];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    return strncmp(cwd, prefix, prefix_len) == 0;
}

/* ---- control ---- */
void simos_prefix(const char *p) { strncpy(prefix, p, PATH_MAX - 1); prefix_len = strlen(prefix); memset(fd_track, 0, sizeof fd_track); }
void simos_arm(int wk, long wat, double wfrac, int rk, long rat, const char *flt) {
    memset(counts, 0, sizeof counts); memset(fired, 0, sizeof fired);
    mutations = reads = opens = 0; log_hash = 1469598103934665603ULL;
    w_kind = wk; w_at = wat; w_frac = wfrac; r_kind = rk; r_at = rat;
    only[0] = 0; if (flt) strncpy(only, flt, 255);
    armed = 1;
}
void simos_disarm(void) { armed = 0; w_kind = r_kind = 0; }
long simos_mutations(void) { return mutations; }
long simos_reads(void) { return reads; }
long simos_opens(void) { return opens; }
long simos_fired(int i) { return fired[i]; }
long simos_count(int i) { return counts[i]; }
uint64_t simos_hash(void) { return log_hash; }
void simos_listing(int on, uint64_t seed) { rec_listing = on; dir_s = seed; }
void simos_clock(int on, int64_t start_ns, int64_t step_ns) { clock_on = on; clock_ns = start_ns; clock_step = step_ns; }
int64_t simos_clock_now(void) { return clock_ns; }
void simos_random(int on, uint64_t seed) { rand_on = on; rand_s = seed; }
long simos_open_fds(void) { long n = 0; for (int i = 0; i < MAXFD; i++) n += fd_track[i] != 0; return n; }

/* ---- netCDF library: a call fails the way it does when HDF5 cannot allocate, compress or decode ---- */
static int n_kind = 0;   /* 1 n-th write call, 2 n-th read call */
static long n_at = -1, nc_puts = 0, nc_gets = 0;
void simos_netcdf(int kind, long at) { n_kind = kind; n_at = at; nc_puts = nc_gets = 0; }
long simos_nc_puts(void) { return nc_puts; }
long simos_nc_gets(void) { return nc_gets; }
#define NC_EHDFERR (-101)
static int nc_put_fails(void) { if (!armed) return 0; long i = nc_puts++; if (n_kind == 1 && i == n_at) { fired[14]++; return 1; } return 0; }
static int nc_get_fails(void) { if (!armed) return 0; long i = nc_gets++; if (n_kind == 2 && i == n_at) { fired[15]++; return 1; } return 0; }
static int nc_find(struct dl_phdr_info *i, size_t n, void *out) { (void)n; if (i->dlpi_name && strstr(i->dlpi_name, "libnetcdf")) { *(void **)out = dlopen(i->dlpi_name, RTLD_NOLOAD | RTLD_LAZY); return 1; } return 0; }
static void *nc_real(const char *name) { static void *h; if (!h) dl_iterate_phdr(nc_find, &h); return h ? dlsym(h, name) : dlsym(RTLD_NEXT, name); }
#define NCF(NAME, PRE, ARGS, PASS) int NAME ARGS { static int (*real) ARGS; if (!real) real = nc_real(#NAME); if (PRE()) return NC_EHDFERR; return real PASS; }
NCF(nc_put_vara, nc_put_fails, (int n, int v, const size_t *a, const size_t *b, const void *d), (n, v, a, b, d))
NCF(nc_put_vars, nc_put_fails, (int n, int v, const size_t *a, const size_t *b, const ptrdiff_t *c, const void *d), (n, v, a, b, c, d))
NCF(nc_put_att, nc_put_fails, (int n, int v, const char *k, int t, size_t l, const void *d), (n, v, k, t, l, d))
NCF(nc_put_att_text, nc_put_fails, (int n, int v, const char *k, size_t l, const char *d), (n, v, k, l, d))
NCF(nc_put_att_string, nc_put_fails, (int n, int v, const char *k, size_t l, const char **d), (n, v, k, l, d))
NCF(nc_def_var, nc_put_fails, (int n, const char *k, int t, int d, const int *ds, int *r), (n, k, t, d, ds, r))
NCF(nc_def_dim, nc_put_fails, (int n, const char *k, size_t l, int *r), (n, k, l, r))
NCF(nc_get_vara, nc_get_fails, (int n, int v, const size_t *a, const size_t *b, void *d), (n, v, a, b, d))
NCF(nc_get_vars, nc_get_fails, (int n, int v, const size_t *a, const size_t *b, const ptrdiff_t *c, void *d), (n, v, a, b, c, d))

static unsigned char op_log[8192]; /* kind of each mutation */
int simos_op(long i) { return i >= 0 && i < mutations && i < 8192 ? op_log[i] : -1; }
/* decide a mutation; returns 0 proceed, >0 errno, -2 torn-crash */
static int mutate(int op) {
    counts[op]++;
    long idx = mutations++;
    if (idx < 8192) op_log[idx] = op;
    if (!w_kind) return 0;
    if (w_kind == 1) { if (idx >= w_at && op != OP_CLOSE_W && op != OP_UNLINK && op != OP_RENAME) { fired[1]++; return ENOSPC; } return 0; }
    if (w_kind == 2) { if (idx == w_at && op != OP_CLOSE_W) { fired[2]++; return EIO; } return 0; }
    if (w_kind == 6) { if (idx >= w_at && op != OP_CLOSE_W) { fired[2]++; return EIO; } return 0; }
    if (w_kind == 3) { if (idx == w_at) { _exit(137); } return 0; }
    if (w_kind == 4) { if (idx == w_at) { if (op == OP_WRITE) return -2; _exit(137); } return 0; }
    if (w_kind == 5) { if (idx >= w_at && op == OP_WRITE) { fired[5]++; return idx == w_at ? -3 : ENOSPC; } return 0; }
    return 0;
}
static int reading(int fd) {
    (void)fd;
    counts[OP_READ]++;
    long idx = reads++;
    if (r_kind == 1 && idx == r_at) { fired[9]++; return EIO; }
    if (r_kind == 3 && idx >= r_at) { fired[11]++; return EIO; }
    return 0;
}
static int opening_r(const char *p) {
    counts[OP_OPEN_R]++;
    if (only[0] && !strstr(p, only)) return 0;
    long idx = opens++;
    if (r_kind == 2 && idx == r_at) { fired[10]++; return EIO; }
    if (r_kind == 4 && idx == r_at) { fired[12]++; return EMFILE; }
    return 0;
}

/* ---- open family ---- */
static int do_track(int fd, int flags) {
    if (fd >= 0 && fd < MAXFD) fd_track[fd] = (flags & O_ACCMODE) == O_RDONLY ? 1 : 2;
    return fd;
}
static int pre_open(const char *p, int flags) {
    if (!armed || !tracked_path(p)) return 0;
    if (flags & O_DIRECTORY) return 0;
    struct stat st;
    if (stat(p, &st) == 0 && S_ISDIR(st.st_mode)) return 0;
    int e;
    if ((flags & O_ACCMODE) == O_RDONLY) e = opening_r(p); else e = mutate(OP_OPEN_W);
    mix(p + prefix_len);
    return e > 0 ? e : 0;
}
#define OPENBODY(NAME, CALL) \
    mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    REAL(NAME); int e = pre_open(p, flags); if (e) { errno = e; return -1; } \
    int fd = CALL; if (fd >= 0 && armed && tracked_path(p)) { struct stat st; if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) do_track(fd, flags); } return fd;
int open(const char *p, int flags, ...) { OPENBODY(open, real_open(p, flags, mode)) }
int open64(const char *p, int flags, ...) { OPENBODY(open64, real_open64(p, flags, mode)) }
int openat(int d, const char *p, int flags, ...) { OPENBODY(openat, real_openat(d, p, flags, mode)) }
int openat64(int d, const char *p, int flags, ...) { OPENBODY(openat64, real_openat64(d, p, flags, mode)) }
static int fmode_flags(const char *m) { return (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')) ? O_RDWR : O_RDONLY; }
FILE *fopen(const char *p, const char *m) { REAL(fopen); int e = pre_open(p, fmode_flags(m)); if (e) { errno = e; return NULL; } return real_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); int e = pre_open(p, fmode_flags(m)); if (e) { errno = e; return NULL; } return real_fopen64(p, m); }
int close(int fd) {
    REAL(close);
    if (fd >= 0 && fd < MAXFD && fd_track[fd]) { if (armed && fd_track[fd] == 2) mutate(OP_CLOSE_W); fd_track[fd] = 0; }
    return real_close(fd);
}
#define ISW(fd) (armed && (fd) >= 0 && (fd) < MAXFD && fd_track[fd] == 2)
#define ISR(fd) (armed && (fd) >= 0 && (fd) < MAXFD && fd_track[fd] == 1)
static size_t part(size_t n) { size_t k = (size_t)(w_frac * (double)n); return k >= n ? (n ? n - 1 : 0) : k; }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (ISW(fd)) { int e = mutate(OP_WRITE); if (e == -2) { real_write(fd, b, part(n)); _exit(137); } if (e == -3) { size_t k = part(n); if (k) return real_write(fd, b, k); e = ENOSPC; } if (e > 0) { errno = e; return -1; } }
    return real_write(fd, b, n);
}
#define PW(NAME, OFF) ssize_t NAME(int fd, const void *b, size_t n, OFF o) { REAL(NAME); \
    if (ISW(fd)) { int e = mutate(OP_WRITE); if (e == -2) { real_##NAME(fd, b, part(n), o); _exit(137); } if (e == -3) { size_t k = part(n); if (k) return real_##NAME(fd, b, k, o); e = ENOSPC; } if (e > 0) { errno = e; return -1; } } \
    return real_##NAME(fd, b, n, o); }
PW(pwrite, off_t)
PW(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); if (ISW(fd)) { int e = mutate(OP_WRITE); if (e == -2) _exit(137); if (e == -3) e = ENOSPC; if (e > 0) { errno = e; return -1; } } return real_writev(fd, v, c); }
ssize_t read(int fd, void *b, size_t n) { REAL(read); if (ISR(fd)) { int e = reading(fd); if (e) { errno = e; return -1; } } return real_read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(pread); if (ISR(fd)) { int e = reading(fd); if (e) { errno = e; return -1; } } return real_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64); if (ISR(fd)) { int e = reading(fd); if (e) { errno = e; return -1; } } return real_pread64(fd, b, n, o); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { REAL(sendfile); if (ISR(i)) { int e = reading(i); if (e) { errno = e; return -1; } } if (ISW(o)) { int e = mutate(OP_WRITE); if (e == -2) { real_sendfile(o, i, off, part(n > 4096 ? 4096 : n)); _exit(137); } if (e == -3) e = ENOSPC; if (e > 0) { errno = e; return -1; } } return real_sendfile(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(sendfile64); if (ISR(i)) { int e = reading(i); if (e) { errno = e; return -1; } } if (ISW(o)) { int e = mutate(OP_WRITE); if (e == -2) { real_sendfile64(o, i, off, part(n > 4096 ? 4096 : n)); _exit(137); } if (e == -3) e = ENOSPC; if (e > 0) { errno = e; return -1; } } return real_sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { REAL(copy_file_range); if (ISR(i)) { int e = reading(i); if (e) { errno = e; return -1; } } if (ISW(o)) { int e = mutate(OP_WRITE); if (e == -2) _exit(137); if (e == -3) e = ENOSPC; if (e > 0) { errno = e; return -1; } } return real_copy_file_range(i, io, o, oo, n, f); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (ISW(fd)) { int e = mutate(OP_FTRUNC); if (e == -2) _exit(137); if (e > 0) { errno = e; return -1; } } return real_ftruncate(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (ISW(fd)) { int e = mutate(OP_FTRUNC); if (e == -2) _exit(137); if (e > 0) { errno = e; return -1; } } return real_ftruncate64(fd, n); }
int rename(const char *a, const char *b) { REAL(rename); if (armed && tracked_path(b)) { int e = mutate(OP_RENAME); if (e > 0) { errno = e; return -1; } mix("R"); } return real_rename(a, b); }
int renameat(int da, const char *a, int db, const char *b) { REAL(renameat); if (armed && tracked_path(b)) { int e = mutate(OP_RENAME); if (e > 0) { errno = e; return -1; } } return real_renameat(da, a, db, b); }
int unlink(const char *a) { REAL(unlink); if (armed && tracked_path(a)) { int e = mutate(OP_UNLINK); if (e > 0) { errno = e; return -1; } mix("U"); } return real_unlink(a); }

/* ---- directory order ---- */
typedef struct { DIR *d; int n, i; struct dirent64 **e; } DirState;
#define MAXDIR 64
static DirState dirs[MAXDIR];
static DirState *dir_find(DIR *d) { for (int i = 0; i < MAXDIR; i++) if (dirs[i].d == d) return &dirs[i]; return NULL; }
static void dir_register(DIR *d, const char *p) {
    if (!d || !rec_listing) return;
    if (p && !tracked_path(p)) return;
    static struct dirent64 *(*rd)(DIR *); if (!rd) rd = dlsym(RTLD_NEXT, "readdir64");
    DirState *s = dir_find(NULL); if (!s) return;
    int cap = 16; s->e = malloc(cap * sizeof *s->e); s->n = 0; s->i = 0; s->d = d;
    struct dirent64 *e;
    while ((e = rd(d))) {
        if (s->n == cap) { cap *= 2; s->e = realloc(s->e, cap * sizeof *s->e); }
        s->e[s->n] = malloc(sizeof(struct dirent64)); memcpy(s->e[s->n], e, e->d_reclen < sizeof(struct dirent64) ? e->d_reclen : sizeof(struct dirent64)); s->n++;
    }
    /* canonical order first (the real order is the host's business), then a seeded shuffle */
    for (int i = 1; i < s->n; i++) for (int j = i; j > 0 && strcmp(s->e[j - 1]->d_name, s->e[j]->d_name) > 0; j--) { struct dirent64 *t = s->e[j]; s->e[j] = s->e[j - 1]; s->e[j - 1] = t; }
    if (dir_s) { uint64_t st = dir_s; for (int i = s->n - 1; i > 0; i--) { int j = sm(&st) % (i + 1); struct dirent64 *t = s->e[j]; s->e[j] = s->e[i]; s->e[i] = t; } fired[13]++; }
}
DIR *opendir(const char *p) { REAL(opendir); DIR *d = real_opendir(p); dir_register(d, p); return d; }
DIR *fdopendir(int fd) { REAL(fdopendir); char l[64], t[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, t, sizeof t - 1); DIR *d = real_fdopendir(fd); if (k > 0) { t[k] = 0; dir_register(d, t); } return d; }
struct dirent64 *readdir64(DIR *d) { static struct dirent64 *(*rd)(DIR *); if (!rd) rd = dlsym(RTLD_NEXT, "readdir64"); DirState *s = dir_find(d); if (!d || !s) return rd(d); if (s->i >= s->n) return NULL; return s->e[s->i++]; }
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) { REAL(closedir); DirState *s = d ? dir_find(d) : NULL; if (s) { for (int i = 0; i < s->n; i++) free(s->e[i]); free(s->e); memset(s, 0, sizeof *s); } return real_closedir(d); }

/* ---- clock and randomness ---- */
int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(clock_gettime);
    if (clock_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { t->tv_sec = clock_ns / 1000000000; t->tv_nsec = clock_ns % 1000000000; clock_ns += clock_step; return 0; }
    return real_clock_gettime(c, t);
}
time_t time(time_t *o) { if (clock_on) { time_t t = clock_ns / 1000000000; if (o) *o = t; return t; } struct timespec ts; REAL(clock_gettime); real_clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
ssize_t getrandom(void *b, size_t n, unsigned f) { static ssize_t (*rg)(void *, size_t, unsigned); if (!rg) rg = dlsym(RTLD_NEXT, "getrandom"); if (!rand_on) return rg(b, n, f); unsigned char *c = b; for (size_t i = 0; i < n; i++) c[i] = (unsigned char)sm(&rand_s); return (ssize_t)n; }

#define _GNU_SOURCE
#include "plan.h"
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdarg.h>
#include <stddef.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

/* Everything here uses raw system calls, so that nothing of the shim itself
 * runs through the interposed functions. */
static struct sim_hdr *H;
static unsigned char *B;
static int script_fd = -1;
static uint32_t i_script, i_stdin, i_out, i_err;
static uint32_t left_script, left_stdin; /* of the current EV_DATA */
static uint32_t idle_reads, calls;
static uint64_t rnd;
static int active;
static long heap; /* live bytes, if tracked */

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }

static void end(uint32_t verdict, int code) {
  H->verdict = verdict;
  raw(SYS_exit_group, code, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

static void logrec(int op, int cls, int32_t result, uint32_t req, const void *data, uint32_t len) {
  uint32_t need = 16 + len;
  if (H->log_len + need > H->log_cap) end(3, 98);
  unsigned char *p = B + H->off_log + H->log_len;
  p[0] = op; p[1] = cls; p[2] = p[3] = 0;
  memcpy(p + 4, &result, 4); memcpy(p + 8, &req, 4); memcpy(p + 12, &len, 4);
  if (len) memcpy(p + 16, data, len);
  H->log_len += need;
}
static void pass(int io);
static void tick(void) { pass(1); if (++calls > H->max_calls) end(2, 97); }

__attribute__((constructor)) static void init(void) {
  void *p = (void *)raw(SYS_mmap, 0, HDR_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, SIM_FD, 0);
  if ((long)p < 0 && (long)p > -4096) return;
  H = p;
  if (H->magic != SIM_MAGIC) { H = 0; return; }
  uint32_t sz = H->map_size;
  raw(SYS_munmap, (long)p, HDR_SIZE, 0, 0, 0, 0);
  p = (void *)raw(SYS_mmap, 0, sz, PROT_READ | PROT_WRITE, MAP_SHARED, SIM_FD, 0);
  H = p; B = p;
  rnd = H->hash_seed;
  struct rlimit rl = {10, 12};
  raw(SYS_prlimit64, 0, RLIMIT_CPU, (long)&rl, 0, 0, 0);
  struct rlimit as = {2ul << 30, 2ul << 30};
  raw(SYS_prlimit64, 0, RLIMIT_AS, (long)&as, 0, 0, 0);
  struct rlimit core = {0, 0};
  raw(SYS_prlimit64, 0, RLIMIT_CORE, (long)&core, 0, 0, 0);
  active = 1;
}

/* ---- script file ------------------------------------------------------ */
static int is_script(const char *path) {
  const char *b = strrchr(path, '/');
  b = b ? b + 1 : path;
  return strcmp(b, "sim.ws") == 0;
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (active && is_script(path)) {
    tick();
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC | O_APPEND))) { H->wrote_other++; logrec(OP_FSWRITE, CLS_SCRIPT, 0, flags, 0, 0); }
    if (H->open_errno) {
      H->fired[FIRE_OPEN_ERR]++;
      logrec(OP_OPEN, CLS_SCRIPT, -(int)H->open_errno, 0, 0, 0);
      errno = H->open_errno;
      return -1;
    }
    char self[32] = "/proc/self/fd/201";
    int fd = ret(raw(SYS_openat, AT_FDCWD, (long)self, O_RDONLY | O_CLOEXEC, 0, 0, 0));
    if (script_fd < 0) { script_fd = fd; }
    else { /* opened again: start over, the plan goes on where it is */ script_fd = fd; H->script_pos = 0; left_script = 0; }
    logrec(OP_OPEN, CLS_SCRIPT, 0, 0, 0, 0);
    return fd;
  }
  if (active && ((flags & O_ACCMODE) != O_RDONLY)) {
    if (strncmp(path, "/dev/", 5) && strncmp(path, "/proc/", 6)) { H->wrote_other++; logrec(OP_FSWRITE, 9, 0, flags, path, strlen(path)); }
  }
  return ret(raw(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
}
#define OPENLIKE(name) int name(const char *path, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return do_open(AT_FDCWD, path, flags, m); }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(name) int name(int d, const char *path, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return do_open(d, path, flags, m); }
OPENATLIKE(openat)
OPENATLIKE(openat64)
int close(int fd) { if (active && fd == script_fd) script_fd = -1; return ret(raw(SYS_close, fd, 0, 0, 0, 0, 0)); }

/* One source of bytes with a plan of events. */
static ssize_t planned_read(int cls, uint32_t *i, uint32_t n_ev, uint32_t off_ev, uint32_t *left,
                            uint32_t off, uint32_t len, volatile uint32_t *pos, void *buf, size_t want) {
  tick();
  if (H->track && cls == CLS_STDIN) logrec(OP_LIVE, cls, (int32_t)heap, *pos, 0, 0);
  struct sim_ev *ev = (struct sim_ev *)(B + off_ev);
  uint32_t avail = len > *pos ? len - *pos : 0;
  uint32_t n = want > avail ? avail : (uint32_t)want;
  if (*left == 0 && *i < n_ev) {
    struct sim_ev e = ev[(*i)++];
    if (e.kind == EV_ERR) {
      if (e.arg == EINTR) H->fired[FIRE_EINTR]++; else H->fired[FIRE_READ_ERR]++;
      logrec(OP_READ, cls, -(int)e.arg, want, 0, 0);
      errno = e.arg;
      return -1;
    }
    if (e.kind == EV_EOF) { logrec(OP_READ, cls, 0, want, 0, 0); return 0; }
    *left = e.arg;
    if (*left == 0) *left = 1;
  }
  if (*left) {
    if (n > *left) { n = *left; H->fired[FIRE_SHORT_READ]++; }
    *left -= n;
  }
  if (n == 0 && want > 0) {
    *left = 0;
    if (++idle_reads > H->max_idle_reads) { logrec(OP_READ, cls, 0, want, 0, 0); end(1, 97); }
  }
  memcpy(buf, B + off + *pos, n);
  logrec(OP_READ, cls, n, want, buf, n);
  *pos += n;
  return n;
}
static ssize_t do_read(int fd, void *buf, size_t want) {
  if (active && want > 0) {
    if (fd == 0)
      return planned_read(CLS_STDIN, &i_stdin, H->n_stdin_ev, H->off_stdin_ev, &left_stdin, H->off_stdin, H->stdin_len, &H->stdin_pos, buf, want);
    if (fd == script_fd && script_fd >= 0)
      return planned_read(CLS_SCRIPT, &i_script, H->n_script_ev, H->off_script_ev, &left_script, H->off_script, H->script_len, &H->script_pos, buf, want);
  }
  return ret(raw(SYS_read, fd, (long)buf, want, 0, 0, 0));
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n); }
ssize_t __read_chk(int fd, void *buf, size_t n, size_t bl) { return do_read(fd, buf, n); }
ssize_t readv(int fd, const struct iovec *v, int cnt) {
  if (active && (fd == 0 || (fd == script_fd && fd >= 0))) {
    for (int k = 0; k < cnt; k++) if (v[k].iov_len) return do_read(fd, v[k].iov_base, v[k].iov_len);
    return 0;
  }
  return ret(raw(SYS_readv, fd, (long)v, cnt, 0, 0, 0));
}
static ssize_t do_pread(int fd, void *buf, size_t n, off_t off) {
  if (active && fd == script_fd && fd >= 0) {
    if (H->is_fifo) { errno = ESPIPE; return -1; }
    uint32_t save = H->script_pos;
    H->script_pos = off > H->script_len ? H->script_len : (uint32_t)off;
    ssize_t r = do_read(fd, buf, n);
    H->script_pos = save;
    return r;
  }
  return ret(raw(SYS_pread64, fd, (long)buf, n, off, 0, 0));
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { return do_pread(fd, buf, n, off); }
static off_t do_lseek(int fd, off_t off, int wh) {
  if (active && fd == script_fd && fd >= 0) {
    tick();
    if (H->is_fifo) { errno = ESPIPE; return -1; }
    int64_t size = H->stat_lie ? (int64_t)H->stat_size : (int64_t)H->script_len;
    int64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? (int64_t)H->script_pos + off : size + off;
    if (p < 0) { errno = EINVAL; return -1; }
    H->script_pos = p > (int64_t)H->script_len ? H->script_len : (uint32_t)p;
    logrec(OP_SEEK, CLS_SCRIPT, (int)p, wh, 0, 0);
    return p;
  }
  return ret(raw(SYS_lseek, fd, off, wh, 0, 0, 0));
}
off_t lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return do_lseek(fd, o, w); }

static void fix_stat(struct stat *st) {
  if (H->stat_lie) { st->st_size = H->stat_size; H->fired[FIRE_SIZE_LIE]++; }
  else st->st_size = H->script_len;
  st->st_mode = (st->st_mode & ~S_IFMT) | (H->is_fifo ? S_IFIFO : S_IFREG);
  if (H->is_fifo) st->st_size = 0;
  logrec(OP_STAT, CLS_SCRIPT, 0, 0, 0, 0);
}
static int do_fstat(int fd, struct stat *st) {
  long r = raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0);
  if (r == 0 && active && fd == script_fd && fd >= 0) fix_stat(st);
  return ret(r);
}
int fstat(int fd, struct stat *st) { return do_fstat(fd, st); }
int fstat64(int fd, struct stat64 *st) { return do_fstat(fd, (struct stat *)st); }
static int do_fstatat(int d, const char *path, struct stat *st, int fl) {
  if (active && path && is_script(path)) {
    if (H->open_errno) { errno = H->open_errno; return -1; }
    long r = raw(SYS_fstat, SIM_SCRIPT_FD, (long)st, 0, 0, 0, 0);
    if (r == 0) fix_stat(st);
    return ret(r);
  }
  if (active && path && !*path && d == script_fd && d >= 0) return do_fstat(d, st);
  return ret(raw(SYS_newfstatat, d, (long)path, (long)st, fl, 0, 0));
}
int fstatat(int d, const char *p, struct stat *st, int fl) { return do_fstatat(d, p, st, fl); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return do_fstatat(d, p, (struct stat *)st, fl); }
int stat(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return do_fstatat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return do_fstatat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int statx(int d, const char *restrict path, int fl, unsigned mask, struct statx *restrict sx) {
  int mine = 0;
  long r;
  if (active && path && *path && is_script(path)) {
    if (H->open_errno) { errno = H->open_errno; return -1; }
    r = raw(SYS_statx, SIM_SCRIPT_FD, (long)"", AT_EMPTY_PATH, mask, (long)sx, 0);
    mine = 1;
  } else {
    r = raw(SYS_statx, d, (long)path, fl, mask, (long)sx, 0);
    if (active && d == script_fd && d >= 0 && (!path || !*path)) mine = 1;
  }
  if (r == 0 && mine) {
    if (H->stat_lie) { sx->stx_size = H->stat_size; H->fired[FIRE_SIZE_LIE]++; }
    else sx->stx_size = H->script_len;
    sx->stx_mode = (sx->stx_mode & ~S_IFMT) | (H->is_fifo ? S_IFIFO : S_IFREG);
    if (H->is_fifo) sx->stx_size = 0;
    logrec(OP_STAT, CLS_SCRIPT, 0, 0, 0, 0);
  }
  return ret(r);
}

/* ---- output ----------------------------------------------------------- */
static ssize_t planned_write(int cls, const void *buf, size_t want) {
  tick();
  uint32_t *i = cls == CLS_STDOUT ? &i_out : &i_err;
  uint32_t n_ev = cls == CLS_STDOUT ? H->n_out_ev : H->n_err_ev;
  struct sim_ev *ev = (struct sim_ev *)(B + (cls == CLS_STDOUT ? H->off_out_ev : H->off_err_ev));
  uint32_t n = want > 0x7fffffff ? 0x7fffffff : want;
  if (*i < n_ev) {
    struct sim_ev e = ev[*i];
    /* an error with this mark stays for good */
    if (!(e.kind == EV_ERR && *i + 1 == n_ev && e.arg != EINTR)) (*i)++;
    if (e.kind == EV_ERR) {
      H->fired[e.arg == EINTR ? FIRE_EINTR_W : FIRE_WRITE_ERR]++;
      logrec(OP_WRITE, cls, -(int)e.arg, want, 0, 0);
      errno = e.arg;
      return -1;
    }
    if (e.kind == EV_DATA && e.arg < n) { n = e.arg ? e.arg : 1; if (n > want) n = want; H->fired[FIRE_SHORT_WRITE]++; }
  }
  logrec(OP_WRITE, cls, n, want, buf, n);
  return n;
}
static ssize_t do_write(int fd, const void *buf, size_t n) {
  if (active && n > 0 && (fd == 1 || fd == 2)) return planned_write(fd, buf, n);
  return ret(raw(SYS_write, fd, (long)buf, n, 0, 0, 0));
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n); }
ssize_t writev(int fd, const struct iovec *v, int cnt) {
  if (active && (fd == 1 || fd == 2)) {
    /* gather up to 64 KiB and treat it as one write */
    static __thread unsigned char tmp[65536];
    size_t n = 0;
    for (int k = 0; k < cnt && n < sizeof tmp; k++) {
      size_t m = v[k].iov_len; if (m > sizeof tmp - n) m = sizeof tmp - n;
      memcpy(tmp + n, v[k].iov_base, m); n += m;
    }
    return n ? planned_write(fd, tmp, n) : 0;
  }
  return ret(raw(SYS_writev, fd, (long)v, cnt, 0, 0, 0));
}

/* ---- file system changes ---------------------------------------------- */
#define FSLOG(p) do { if (active) { H->wrote_other++; logrec(OP_FSWRITE, 9, 0, 0, p, strlen(p)); } } while (0)
int unlink(const char *p) { FSLOG(p); errno = EROFS; return -1; }
int unlinkat(int d, const char *p, int f) { FSLOG(p); errno = EROFS; return -1; }
int rename(const char *a, const char *b) { FSLOG(a); errno = EROFS; return -1; }
int mkdir(const char *p, mode_t m) { FSLOG(p); errno = EROFS; return -1; }
int truncate(const char *p, off_t l) { FSLOG(p); errno = EROFS; return -1; }

/* ---- randomness ------------------------------------------------------- */
static uint64_t next_rnd(void) {
  uint64_t z = (rnd += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!active) return ret(raw(SYS_getrandom, (long)buf, n, flags, 0, 0, 0));
  H->n_getrandom++;
  unsigned char *p = buf;
  for (size_t k = 0; k < n; k += 8) { uint64_t v = next_rnd(); memcpy(p + k, &v, n - k < 8 ? n - k : 8); }
  return n;
}

/* ---- clock, environment, terminals -------------------------------------
 * Time passes at every call for input or output and at every look at the
 * clock, mostly little, sometimes hours; the calendar may be set back. The
 * program's own variables are anything; so is whether a stream is a terminal. */
static uint64_t now = 1000000000000ull;
static int64_t calendar = 1700000000000000000ll;
static uint64_t mixed(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void pass(int io) {
  static uint64_t k;
  if (!H || !H->hash_seed) { now += 1000; return; }
  uint64_t r = mixed(H->hash_seed + 0x9E3779B97F4A7C15ull * ++k);
  uint64_t d = 1 + (r >> 20) % 2000;
  switch (r % 16) {
    case 0: d *= 1000; break;
    case 1: if (io) d *= 1000000; break;          /* up to two seconds */
    case 2: if (io) d *= 100000000ull; break;     /* minutes */
    case 3: if (io && r / 16 % 8 == 0) d *= 10000000000ull; break; /* hours */
    case 4: if (io && r / 16 % 4 == 0) { calendar -= (int64_t)d * 1000000000ll; } break;
  }
  if (d > 1000000) H->fired[FIRE_CLOCK]++;
  now += d;
}
int clock_gettime(clockid_t id, struct timespec *t) {
  if (!active || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return ret(raw(SYS_clock_gettime, id, (long)t, 0, 0, 0, 0));
  H->n_clock++;
  pass(0);
  uint64_t n = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? now + calendar : now;
  t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict z) {
  struct timespec t;
  (void)z;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
extern char **environ;
char *getenv(const char *name) {
  if (active && strncmp(name, "RUST_", 5) && strncmp(name, "LD_", 3) && strncmp(name, "MALLOC_", 7) && strncmp(name, "GLIBC_", 6)) {
    H->n_getenv++;
    static char *pool[] = {"", "0", "1", "true", "80", "dumb", "xterm-256color", "C.UTF-8", "/nonexistent"};
    uint64_t r = H->hash_seed;
    if (!r) return 0;
    for (const char *p = name; *p; p++) r = mixed(r + (unsigned char)*p);
    return r % 2 ? 0 : pool[r / 2 % (sizeof pool / sizeof *pool)];
  }
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return 0;
}
int isatty(int fd) {
  if (!active) return 0;
  H->n_isatty++;
  if (H->hash_seed && mixed(H->hash_seed + fd) % 2) return 1;
  errno = ENOTTY;
  return 0;
}
pid_t getpid(void) { return active && H->hash_seed ? (pid_t)(2 + H->hash_seed % 4000000) : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }

/* ---- allocator -------------------------------------------------------- */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int deny(size_t n) {
  if (!active) return 0;
  uint32_t k = ++H->n_alloc;
  if (H->fail_alloc && (k == H->fail_alloc || (H->fail_alloc_sticky && k > H->fail_alloc))) {
    if (!H->alloc_failed) logrec(OP_ALLOCFAIL, 0, 0, n, 0, 0);
    H->alloc_failed++;
    H->fired[FIRE_ALLOC]++;
    errno = ENOMEM;
    return 1;
  }
  return 0;
}
extern void __libc_free(void *);
/* Threads of the program, if any, count as well. */
static void held(void *p, int sign) { if (p && active && H->track) __atomic_add_fetch(&heap, sign * (long)malloc_usable_size(p), __ATOMIC_RELAXED); }
void *malloc(size_t n) { if (deny(n)) return 0; void *p = __libc_malloc(n); held(p, 1); if (p && active && H->poison) memset(p, H->poison, n); return p; }
void *calloc(size_t a, size_t b) { if (deny(a * b)) return 0; void *p = __libc_calloc(a, b); held(p, 1); return p; }
void *realloc(void *o, size_t n) { if (deny(n)) return 0; long was = o && active && H->track ? (long)malloc_usable_size(o) : 0; void *p = __libc_realloc(o, n); if (p || n == 0) { if (was) __atomic_sub_fetch(&heap, was, __ATOMIC_RELAXED); held(p, 1); } return p; }
void free(void *p) { held(p, -1); __libc_free(p); }
int posix_memalign(void **out, size_t al, size_t n) { if (deny(n)) return ENOMEM; void *p = __libc_memalign(al, n); if (!p) return ENOMEM; held(p, 1); *out = p; return 0; }
void *memalign(size_t al, size_t n) { if (deny(n)) return 0; void *p = __libc_memalign(al, n); held(p, 1); return p; }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }

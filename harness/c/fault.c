/* Preloaded: makes the k-th system call on a NetCDF file (*.nc) fail, once armed.
   fault_arm(k, kind): kind 0: error EIO; 1: error ENOSPC; 2: half of the data is transferred, then EIO; 3: EOF (reads) or EIO.
   fault_arm(0, 0) disarms. fault_calls(): number of such calls since the last fault_arm. fault_hit(): which call failed ("" if none). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static char watched[4096];
static long at, calls;
static int kind, sticky, active;
static char hit[32];

void fault_arm(long k, int what) { at = k; calls = 0; kind = what; hit[0] = 0; sticky = 0; active = 1; }
void fault_off(void) { active = 0; sticky = 0; at = 0; }
long fault_calls(void) { return calls; }
const char *fault_hit(void) { return hit; }

static int nc(const char *p) { size_t n = p ? strlen(p) : 0; return n > 3 && !strcmp(p + n - 3, ".nc"); }
static int fail(const char *name) {
  if (!active) return 0;
  calls++;
  if (sticky || (at && calls == at)) {
    if (!hit[0]) strncpy(hit, name, sizeof hit - 1);
    errno = kind == 1 ? ENOSPC : EIO;
    return 1;
  }
  return 0;
}
static int is(int fd) { return fd >= 0 && fd < (int)sizeof watched && watched[fd]; }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

#define OPEN(name) \
int name(const char *p, int flags, ...) { \
  REAL(int, name, const char *, int, ...); \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); } \
  int w = nc(p); \
  if (w && fail("open")) return -1; \
  int fd = real(p, flags, mode); \
  if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = w; \
  return fd; }
OPEN(open)
OPEN(open64)
#define RW(name, ctype, sig, args, shortargs) \
ssize_t name sig { \
  REAL(ssize_t, name, int, ctype, size_t, ...); \
  if (is(fd) && fail(#name)) { \
    if (kind == 2) { sticky = 1; if (n > 1) return real shortargs; } \
    if (kind == 3 && name##_reads) return 0; \
    return -1; } \
  return real args; }
enum { read_reads = 1, write_reads = 0, pread_reads = 1, pread64_reads = 1, pwrite_reads = 0, pwrite64_reads = 0 };
RW(read, void *, (int fd, void *b, size_t n), (fd, b, n), (fd, b, n / 2))
RW(write, const void *, (int fd, const void *b, size_t n), (fd, b, n), (fd, b, n / 2))
RW(pread, void *, (int fd, void *b, size_t n, off_t o), (fd, b, n, o), (fd, b, n / 2, o))
RW(pread64, void *, (int fd, void *b, size_t n, off64_t o), (fd, b, n, o), (fd, b, n / 2, o))
RW(pwrite, const void *, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), (fd, b, n / 2, o))
RW(pwrite64, const void *, (int fd, const void *b, size_t n, off64_t o), (fd, b, n, o), (fd, b, n / 2, o))
off_t lseek(int fd, off_t o, int w) { REAL(off_t, lseek, int, off_t, int); return is(fd) && fail("lseek") ? -1 : real(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { REAL(off64_t, lseek64, int, off64_t, int); return is(fd) && fail("lseek") ? -1 : real(fd, o, w); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); return is(fd) && fail("ftruncate") ? -1 : real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); return is(fd) && fail("ftruncate") ? -1 : real(fd, n); }
int fsync(int fd) { REAL(int, fsync, int); return is(fd) && fail("fsync") ? -1 : real(fd); }
/* The file is closed even if close() reports an error, as on Linux. */
int close(int fd) {
  REAL(int, close, int);
  int f = is(fd) && fail("close"), e = errno;
  if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = 0;
  int r = real(fd);
  if (f) { errno = e; return -1; }
  return r;
}

// File calls of the code under test: forwarded to the real kernel inside the scratch directory, with injected faults.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <stdlib.h>
#include <map>

#include "rt.h"
#include "sim.h"

using namespace rt;
#define SIM (g_active && !g_in)
static char is_sut[4096];      // descriptors opened by the code under test
static int nfds = 0;
static bool failed = false;
struct Map { size_t len; int fd; bool anon; };
static std::map<uintptr_t, Map>* maps;

namespace sim {
int io_open_fds() { return nfds; }
int io_open_maps() { return maps ? (int)maps->size() : 0; }
bool io_failed() { return failed; }
void (*io_on_op)() = nullptr;
}  // namespace sim

static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) {
  if (r < 0) { errno = -r; return -1; }
  return r;
}
static bool hit(double p, const char* name) {
  if (!sim::io.armed || p <= 0 || !SIM) return false;
  { int old = g_in; g_in = 1; rt::sync_point(50); g_in = old; }
  if (!sim::flip(p)) return false;
  sim::fault(name);
  sim::event("fault: %s", name);
  return true;
}
static int opened(int fd) {
  if (fd >= 0 && fd < 4096 && SIM) { is_sut[fd] = 1; nfds++; }
  return fd;
}

static void changes() {
  if (!SIM || !sim::io_on_op) return;
  { int old = g_in; g_in = 1; rt::sync_point(51); g_in = old; }
  sim::io_on_op();
}

extern "C" {
int rename(const char* a, const char* b) {
  changes();
  if (SIM && hit(sim::io.p_enospc, "rename failed")) { failed = true; errno = EIO; return -1; }
  return (int)ret(sys(SYS_rename, (long)a, (long)b));
}
int unlink(const char* p) {
  changes();
  return (int)ret(sys(SYS_unlink, (long)p));
}
static int do_open(const char* p, int fl, int mode) {
  if (fl & (O_CREAT | O_TRUNC)) changes();
  if (SIM && hit(sim::io.p_open, "open failed")) { failed = true; errno = sim::choose(2, -1) ? EMFILE : EIO; return -1; }
  return opened((int)ret(sys(SYS_openat, AT_FDCWD, (long)p, fl, mode)));
}
int open(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return do_open(p, fl, mode);
}
int open64(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return do_open(p, fl, mode);
}
int mkstemp(char* t) {
  size_t n = strlen(t);
  if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
  static int k = 0;
  snprintf(t + n - 6, 7, "%06d", k++);
  return do_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
}
int mkstemp64(char* t) { return mkstemp(t); }
FILE* fopen64(const char* p, const char* m) {
  int fl = O_RDONLY;
  bool plus = strchr(m, '+');
  if (m[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else if (m[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  else if (plus) fl = O_RDWR;
  int fd = do_open(p, fl, 0666);
  if (fd < 0) return nullptr;
  int old = g_in;
  g_in = 1;
  FILE* f = fdopen(fd, m);
  g_in = old;
  return f;
}
FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
int fclose(FILE* f) {
  int fd = fileno(f);
  // the stream objects used by libstdc++ hold no data of their own
  fflush(f);
  if (fd >= 0 && fd < 4096 && is_sut[fd]) { is_sut[fd] = 0; nfds--; }
  return (int)ret(sys(SYS_close, fd));
}
int close(int fd) {
  if (fd >= 0 && fd < 4096 && is_sut[fd]) { is_sut[fd] = 0; nfds--; }
  else if (SIM && fd >= 0) { sim::violation(sim::memory_class, "close of a descriptor that is not open"); errno = EBADF; return -1; }
  return (int)ret(sys(SYS_close, fd));
}
static bool sut(int fd) { return SIM && fd >= 0 && fd < 4096 && is_sut[fd]; }
static long do_read(int fd, void* b, size_t n, long off, bool at) {
  if (sut(fd)) {
    if (hit(sim::io.p_eintr, "read interrupted")) { errno = EINTR; return -1; }
    if (hit(sim::io.p_eio, "read error")) { failed = true; errno = EIO; return -1; }
    if (n > 1 && hit(sim::io.p_short, "short read")) n = 1 + sim::choose(n - 1 < 64 ? (int)n - 1 : 64, -1) * (n > 64 ? n / 65 : 1);
    rt::touch(b, 0, true, nullptr);
  }
  long r = at ? sys(SYS_pread64, fd, (long)b, n, off) : sys(SYS_read, fd, (long)b, n);
  if (r > 0 && sut(fd)) rt::touch(b, r, true, __builtin_return_address(0));
  return ret(r);
}
ssize_t read(int fd, void* b, size_t n) { return do_read(fd, b, n, 0, false); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, o, true); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return do_read(fd, b, n, o, true); }
static long do_write(int fd, const void* b, size_t n, long off, bool at) {
  if (sut(fd)) {
    changes();
    if (hit(sim::io.p_eintr, "write interrupted")) { errno = EINTR; return -1; }
    if (hit(sim::io.p_enospc, "disk full")) { failed = true; errno = ENOSPC; return -1; }
    if (n > 1 && hit(sim::io.p_short, "short write")) n = 1 + sim::choose((int)(n - 1 < 1000 ? n - 1 : 1000), -1);
    rt::touch(b, n, false, __builtin_return_address(0));
  }
  return ret(at ? sys(SYS_pwrite64, fd, (long)b, n, off) : sys(SYS_write, fd, (long)b, n));
}
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n, 0, false); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return do_write(fd, b, n, o, true); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return do_write(fd, b, n, o, true); }
ssize_t writev(int fd, const struct iovec* v, int k) {
  if (sut(fd)) {
    long tot = 0;
    for (int i = 0; i < k; i++) {
      if (!v[i].iov_len) continue;
      long r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, false);
      if (r < 0) return tot ? tot : -1;
      tot += r;
      if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
  }
  return ret(sys(SYS_writev, fd, (long)v, k));
}
int ftruncate(int fd, off_t n) {
  if (sut(fd)) changes();
  if (sut(fd) && hit(sim::io.p_trunc, "disk full")) { failed = true; errno = ENOSPC; return -1; }
  return (int)ret(sys(SYS_ftruncate, fd, n));
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fstat(int fd, struct stat* s) {
  if (sut(fd) && hit(sim::io.p_stat, "stat failed")) { failed = true; errno = EIO; return -1; }
  return (int)ret(sys(SYS_fstat, fd, (long)s));
}
int fstat64(int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }

void* mmap(void* at, size_t n, int prot, int fl, int fd, off_t off) {
  if (!SIM) {
    long r = sys(SYS_mmap, (long)at, n, prot, fl, fd, off);
    if (r < 0 && r > -4096) { errno = -r; return MAP_FAILED; }
    return (void*)r;
  }
  if (n == 0) { errno = EINVAL; return MAP_FAILED; }
  if (hit(sim::io.p_mmap, "mmap failed")) { failed = true; errno = ENOMEM; return MAP_FAILED; }
  uintptr_t p = rt::map_place(n);
  if (!p) { errno = ENOMEM; return MAP_FAILED; }
  long r = sys(SYS_mmap, p, n, prot, fl | MAP_FIXED, fd, off);
  if (r < 0 && r > -4096) { errno = -r; return MAP_FAILED; }
  size_t valid = n;
  if (fd >= 0) {
    struct stat s;
    sys(SYS_fstat, fd, (long)&s);
    size_t left = s.st_size > off ? (size_t)(s.st_size - off) : 0;
    if (left < valid) valid = left;
  }
  rt::map_state(p, valid, 1);
  int old = g_in;
  g_in = 1;
  if (!maps) maps = new std::map<uintptr_t, Map>();
  (*maps)[p] = Map{n, fd, fd < 0};
  g_in = old;
  return (void*)p;
}
void* mmap64(void* at, size_t n, int prot, int fl, int fd, off64_t off) { return mmap(at, n, prot, fl, fd, off); }
int munmap(void* p, size_t n) {
  if (!SIM) return (int)ret(sys(SYS_munmap, (long)p, n));
  int old = g_in;
  g_in = 1;
  bool known = maps && maps->count((uintptr_t)p);
  size_t len = known ? (*maps)[(uintptr_t)p].len : 0;
  if (known) maps->erase((uintptr_t)p);
  g_in = old;
  if (!known || len != n) sim::violation(sim::memory_class, "munmap of %s", known ? "a wrong length" : "an address that is not mapped");
  if (!known) { errno = EINVAL; return -1; }
  rt::map_state((uintptr_t)p, len, 3);
  // keep the pages: a use after unmapping is reported by the runtime, not by the kernel
  return 0;
}
int madvise(void* p, size_t n, int a) {
  if (!SIM) return (int)ret(sys(SYS_madvise, (long)p, n, a));
  if ((uintptr_t)p & 4095) { errno = EINVAL; return -1; }
  if (!rt::in_maps((uintptr_t)p)) { errno = ENOMEM; return -1; }
  return (int)ret(sys(SYS_madvise, (long)p, n, a));
}
int posix_madvise(void* p, size_t n, int a) { return a == POSIX_MADV_DONTNEED ? 0 : (madvise(p, n, a) ? errno : 0); }
int msync(void* p, size_t n, int fl) {
  if ((uintptr_t)p & 4095) { errno = EINVAL; return -1; }
  return (int)ret(sys(SYS_msync, (long)p, n, fl));
}
}

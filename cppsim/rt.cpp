// Simulator runtime: every thread of the code under test is a fibre; one seeded stream of decisions picks every
// interleaving.  The code under test is compiled with -fsanitize=thread but linked with the hooks below instead of
// libtsan, so each memory access and atomic operation is a possible pre-emption point, is checked for use outside
// live memory, and takes part in happens-before race detection.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "rt.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <math.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <map>

extern "C" char __libc_single_threaded;

namespace rt {

// ------------------------------------------------------------------ layout
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t HEAP_SZ = 640ull << 20, STACK_SZ = 512 << 10, MAP_SZ = 512ull << 20;
static const int MAXT = 48;
static const size_t ARENA_SZ = HEAP_SZ + MAXT * STACK_SZ + MAP_SZ;
static const uintptr_t STACKS = ARENA + HEAP_SZ, MAPS = STACKS + MAXT * STACK_SZ;
static const uintptr_t RTHEAP = 0x180000000000ull;
static const size_t RTHEAP_SZ = 2048ull << 20;
static const uintptr_t LOW = 0x400000, LOW_SZ = 32 << 20;
static uint8_t* S = nullptr;     // byte state: 0 not allocated, 1 live, 2 live but never written, 3 freed
static uint32_t* W = nullptr;    // last write epoch
static uint32_t* R = nullptr;    // last read epoch, or index of a read set
static size_t heap_used = 0, rt_used = 0, map_used = 0;

int g_in = 1;          // inside the runtime: hooks are off
bool g_active = false; // simulation running
static bool g_ready = false;

static void init_mem() {
  if (g_ready) return;
  g_ready = true;
  int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
  auto m = [&](uintptr_t at, size_t n) {
    void* p = (void*)syscall(SYS_mmap, (void*)at, n, PROT_READ | PROT_WRITE, fl, -1, 0);
    if (p != (void*)at) {
      const char* e = "csim: cannot reserve memory\n";
      (void)!write(2, e, strlen(e));
      _exit(3);
    }
    return p;
  };
  m(ARENA, ARENA_SZ);
  m(RTHEAP, RTHEAP_SZ);
  size_t n = ARENA_SZ + LOW_SZ;
  S = (uint8_t*)m(0x200000000000ull, n);
  W = (uint32_t*)m(0x210000000000ull, n * 4);
  R = (uint32_t*)m(0x220000000000ull, n * 4);
}

static inline long sh(uintptr_t a) {
  if (a - ARENA < ARENA_SZ) return a - ARENA;
  if (a - LOW < LOW_SZ) return ARENA_SZ + (a - LOW);
  return -1;
}

void* rt_alloc(size_t n, size_t al) {
  init_mem();
  size_t at = (rt_used + al - 1) & ~(al - 1);
  if (at + n > RTHEAP_SZ) {
    const char* e = "csim: runtime heap full\n";
    (void)!write(2, e, strlen(e));
    _exit(3);
  }
  rt_used = at + n;
  return (void*)(RTHEAP + at);
}

struct Hdr { size_t size; size_t magic; };

static void* u_alloc(size_t n, size_t al, bool zero) {
  init_mem();
  if (al < 16) al = 16;
  size_t at = (heap_used + sizeof(Hdr) + 16 + al - 1) & ~(al - 1);
  if (at + n + 16 > HEAP_SZ || n > HEAP_SZ) { errno = ENOMEM; return nullptr; }
  heap_used = at + n + 16;
  char* p = (char*)(ARENA + at);
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  h->size = n;
  h->magic = 0x51a110c;
  if (n <= (4u << 20)) {
    if (!zero) memset(p, 0xA5, n);
  }
  memset(S + at, (zero || !g_active) ? 1 : 2, n);
  return p;
}

// ------------------------------------------------------------------ fibres
struct VC { uint32_t v[MAXT]; };
static inline void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.v[i] > a.v[i]) a.v[i] = b.v[i]; }

enum St { UNUSED, RUN, BLOCK, DONE };
struct Fiber {
  void* sp;
  int id;
  St st;
  const char* why;
  const void* obj;       // waited-for object
  uint64_t wake;         // virtual time limit of a wait (0: none)
  bool stalled;          // blocked only by a stall
  bool timed_out, signalled;
  const std::function<bool()>* pred;
  VC vc, acq, rel;
  bool has_rel, has_acq;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool detached, joined;
  int err;
  void* eh[2];
  void* cs[1024];
  int depth;
  uint64_t ran;
};
static Fiber* F[MAXT];
static int nf = 0, cur = 0;
static uint64_t steps = 0, switches = 0, slice = 0, vtime = 0;
static long acc_left = -1, sync_left = -1;
static bool is_fair = false;

// ------------------------------------------------------------------ decisions
static uint64_t rs[4];
static std::vector<int>* rec;
static std::vector<int>* trace_in = nullptr;
static size_t tpos = 0;
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd() {
  uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17;
  rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl(rs[3], 45);
  return r;
}
static double rndf() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
void seed(uint64_t s, std::vector<int>* tr) {
  for (int i = 0; i < 4; i++) {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    rs[i] = z ^ (z >> 31);
  }
  trace_in = tr;
  rec = new std::vector<int>();
}
static int next_traced(int n) {
  int v = tpos < trace_in->size() ? (*trace_in)[tpos] : 0;
  tpos++;
  if (n > 0) v = (int)((unsigned)v % (unsigned)n);
  return v;
}
static int choose_(int n, double p0) {
  if (n <= 1) return 0;
  int v;
  if (trace_in) v = next_traced(n);
  else if (p0 >= 0) v = rndf() < p0 ? 0 : 1 + (int)(rnd() % (uint64_t)(n - 1));
  else v = (int)(rnd() % (uint64_t)n);
  rec->push_back(v);
  return v;
}
static long gap_(double mean) {
  if (mean <= 0 || is_fair) return -1;
  int v;
  if (trace_in) v = next_traced(0);
  else {
    double u = rndf();
    v = 1 + (int)(-log(1 - u) * mean);
    if (v > 1000000) v = 1000000;
  }
  rec->push_back(v);
  return v == 0 ? -1 : v;
}

// ------------------------------------------------------------------ history
static uint64_t H = 0xcbf29ce484222325ull;
static void mix_(uint64_t v) { H = (H ^ v) * 0x100000001b3ull; H ^= H >> 29; }
struct Viol { std::string cls, msg; std::vector<void*> pcs; };
static std::vector<Viol>* viols;
static std::map<std::string, long>*faults, *probes;
static std::vector<std::string>* log_;
static int out_fd = 1;

static void logf_(const char* fmt, va_list ap) {
  char b[600];
  vsnprintf(b, sizeof b, fmt, ap);
  char c[700];
  snprintf(c, sizeof c, "%llu [%d] %s", (unsigned long long)vtime, cur, b);
  if (log_->size() < 4000) log_->push_back(c);
  for (char* p = b; *p; p++) mix_((unsigned char)*p);
}

static void jstr(std::string& o, const std::string& s) {
  o += '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  o += '"';
}
static void jmap(std::string& o, const std::map<std::string, long>& m) {
  o += '{';
  bool first = true;
  for (auto& [k, v] : m) {
    if (!first) o += ',';
    first = false;
    jstr(o, k);
    o += ':' + std::to_string(v);
  }
  o += '}';
}

[[noreturn]] void finish_(const char* reason) {
  g_in++;
  g_active = false;
  std::string o = "{\"reason\":";
  jstr(o, reason);
  o += ",\"hash\":" + std::to_string(H) + ",\"steps\":" + std::to_string(steps) + ",\"switches\":" + std::to_string(switches)
       + ",\"ns\":" + std::to_string(vtime) + ",\"threads\":" + std::to_string(nf) + ",\"faults\":";
  jmap(o, *faults);
  o += ",\"probes\":";
  jmap(o, *probes);
  o += ",\"violations\":[";
  for (size_t i = 0; i < viols->size(); i++) {
    auto& v = (*viols)[i];
    if (i) o += ',';
    o += '[';
    jstr(o, v.cls);
    o += ',';
    jstr(o, v.msg);
    o += ",[";
    for (size_t j = 0; j < v.pcs.size(); j++) { if (j) o += ','; o += std::to_string((uint64_t)v.pcs[j]); }
    o += "]]";
  }
  o += "],\"trace\":[";
  for (size_t i = 0; i < rec->size(); i++) { if (i) o += ','; o += std::to_string((*rec)[i]); }
  o += "],\"log\":[";
  for (size_t i = 0; i < log_->size(); i++) { if (i) o += ','; jstr(o, (*log_)[i]); }
  o += "]}\n";
  const char* p = o.data();
  size_t n = o.size();
  while (n) {
    ssize_t k = syscall(SYS_write, out_fd, p, n);
    if (k <= 0) break;
    p += k;
    n -= k;
  }
  _exit(0);
}

static void stack_of(Fiber* f, std::vector<void*>& v, void* pc) {
  if (pc) v.push_back(pc);
  int d = f->depth < 1024 ? f->depth : 1024;
  for (int i = d - 1; i >= 0 && (int)v.size() < 14; i--) v.push_back(f->cs[i]);
}

void report(const char* cls, std::string msg, void* pc) {
  if (viols->size() >= 6) return;
  Viol v;
  v.cls = cls;
  v.msg = std::move(msg);
  stack_of(F[cur], v.pcs, pc);
  // one report per class and place
  for (auto& w : *viols)
    if (w.cls == v.cls && !w.pcs.empty() && !v.pcs.empty() && w.pcs[0] == v.pcs[0]) return;
  for (char c : v.msg) mix_((unsigned char)c);
  viols->push_back(std::move(v));
}

// ------------------------------------------------------------------ switching
extern "C" void rt_switch(void** save, void* to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_switch,.-rt_switch
)");

static void eh_save(Fiber* f) {
  void** g = (void**)__cxxabiv1::__cxa_get_globals();
  f->eh[0] = g[0];
  f->eh[1] = (void*)(uintptr_t)(unsigned)(uintptr_t)g[1];
}
static void eh_load(Fiber* f) {
  void** g = (void**)__cxxabiv1::__cxa_get_globals();
  g[0] = f->eh[0];
  *(unsigned*)&g[1] = (unsigned)(uintptr_t)f->eh[1];
}

static void go(int to) {
  if (to == cur) return;
  Fiber *a = F[cur], *b = F[to];
  a->err = errno;
  eh_save(a);
  switches++;
  slice = 0;
  mix_(0x5317 + to);
  cur = to;
  eh_load(b);
  errno = b->err;
  rt_switch(&a->sp, b->sp);
}

static void stuck(const char* cls, const char* head) {
  std::string m = head;
  for (int i = 0; i < nf; i++) {
    Fiber* f = F[i];
    if (f->st == DONE) continue;
    char b[200];
    snprintf(b, sizeof b, "; thread %d %s%s", i, f->st == BLOCK ? "waits: " : "runs", f->st == BLOCK ? f->why : "");
    m += b;
  }
  if (sim::stuck_detail) m += "; " + sim::stuck_detail();
  report(cls, m, nullptr);
  // add the stacks of the waiting threads
  auto& v = viols->back();
  for (int i = 0; i < nf; i++)
    if (F[i]->st != DONE && i != cur) stack_of(F[i], v.pcs, nullptr);
  finish_("stuck");
}

static bool runnable(Fiber* f) {
  if (f->st == RUN) return true;
  if (f->st == BLOCK) {
    if (f->wake && vtime >= f->wake) { f->timed_out = !f->stalled; f->stalled = false; f->st = RUN; f->wake = 0; return true; }
    if (f->pred && (*f->pred)()) { f->st = RUN; f->pred = nullptr; return true; }
  }
  return false;
}

// Candidates in round-robin order behind the current thread.
static int candidates(int* c) {
  int n = 0;
  for (int k = 1; k <= nf; k++) {
    int i = (cur + k) % nf;
    if (i == cur) continue;
    if (runnable(F[i])) c[n++] = i;
  }
  return n;
}

static void tick(uint64_t n) { steps += n; vtime += n * 10; }

static void check_limits() {
  if (!is_fair && steps > sim::params.fair_after) {
    is_fair = true;
    acc_left = sync_left = -1;
  }
  if (steps > sim::params.limit) stuck(sim::hang_class, "no progress although every thread keeps being scheduled");
}

// The current thread cannot go on: run somebody else.
static void reschedule() {
  int c[MAXT];
  for (;;) {
    check_limits();
    int n = candidates(c);
    if (n == 0) {
      if (runnable(F[cur])) return;
      uint64_t t = 0;
      for (int i = 0; i < nf; i++)
        if (F[i]->st == BLOCK && F[i]->wake && (!t || F[i]->wake < t)) t = F[i]->wake;
      if (!t) stuck(sim::deadlock_class, "deadlock: no thread can run");
      if (t > vtime) vtime = t;
      continue;
    }
    int k = is_fair ? 0 : choose_(n, 0.4);
    go(c[k]);
    return;
  }
}

static void preempt() {
  int c[MAXT];
  int n = candidates(c);
  if (!n) return;
  if (!is_fair && sim::params.p_stall > 0 && nf > 1 && choose_(2, 1 - sim::params.p_stall)) {
    Fiber* f = F[cur];
    f->st = BLOCK;
    f->why = "stalled";
    f->obj = nullptr;
    f->stalled = true;
    f->wake = vtime + 10 * (uint64_t)(200 + choose_(8, 0.3) * 2000);
    (*faults)["thread stalled"]++;
  }
  go(c[is_fair ? 0 : choose_(n, 0.5)]);
}

static void block(const char* why, const void* obj, uint64_t wake = 0) {
  Fiber* f = F[cur];
  f->st = BLOCK;
  f->why = why;
  f->obj = obj;
  f->wake = wake;
  f->timed_out = f->signalled = false;
  reschedule();
}
static void ready(Fiber* f) {
  if (f->st == BLOCK) { f->st = RUN; f->wake = 0; f->stalled = false; f->pred = nullptr; }
}

// ------------------------------------------------------------------ memory accesses
static inline uint32_t ep(int t, uint32_t c) { return ((uint32_t)t << 25) | c; }
static inline int etid(uint32_t e) { return (e >> 25) & 63; }
static inline uint32_t eclk(uint32_t e) { return e & 0x1ffffff; }
static std::vector<VC>* rsets;
static uint64_t nraces = 0;
static void* last_pc_w = nullptr;

static void race(const char* kind, uintptr_t a, int other, void* pc) {
  nraces++;
  char b[160];
  snprintf(b, sizeof b, "%s (threads %d and %d, no synchronisation between them)", kind, other, cur);
  if (getenv("CSIM_ERR")) fprintf(stderr, "race at %lx arena %lx maps %lx\n", (long)a, (long)ARENA, (long)MAPS);
  report(sim::race_class, b, pc);
}

static const char* bad_state(uint8_t s) {
  return s == 3 ? "freed memory" : "memory outside every live block";
}

static void check_access(uintptr_t a, size_t n, bool wr, void* pc) {
  long i0 = sh(a);
  if (i0 < 0) return;
  Fiber* f = F[cur];
  VC& vc = f->vc;
  uint32_t me = ep(cur, vc.v[cur]);
  bool heap = a - ARENA < HEAP_SZ || a - MAPS < MAP_SZ;
  for (size_t k = 0; k < n; k++) {
    long i = i0 + k;
    if (heap) {
      uint8_t s = S[i];
      if (s == 0 || s == 3) {
        char b[120];
        snprintf(b, sizeof b, "%s of %s", wr ? "write" : "read", bad_state(s));
        report(sim::memory_class, b, pc);
        if (s == 0) finish_("memory");
        return;
      }
      if (wr) S[i] = 1;
    }
    uint32_t w = W[i];
    if (w == me) { if (!wr) continue; }
    else if (w && etid(w) != cur && eclk(w) > vc.v[etid(w)]) { race(wr ? "two unordered writes" : "read not ordered after a write", a + k, etid(w), pc); W[i] = 0; R[i] = 0; return; }
    uint32_t r = R[i];
    if (wr) {
      if (r & 0x80000000u) {
        VC& rv = (*rsets)[r & 0x7fffffff];
        for (int t = 0; t < nf; t++)
          if (t != cur && rv.v[t] > vc.v[t]) { race("write not ordered after a read", a + k, t, pc); W[i] = 0; R[i] = 0; return; }
      } else if (r && etid(r) != cur && eclk(r) > vc.v[etid(r)]) {
        race("write not ordered after a read", a + k, etid(r), pc);
        W[i] = 0;
        R[i] = 0;
        return;
      }
      W[i] = me;
      R[i] = 0;
    } else {
      if (r == me) continue;
      if (r & 0x80000000u) (*rsets)[r & 0x7fffffff].v[cur] = vc.v[cur];
      else if (r == 0 || etid(r) == cur || eclk(r) <= vc.v[etid(r)]) R[i] = me;
      else {
        VC nv;
        memset(&nv, 0, sizeof nv);
        nv.v[etid(r)] = eclk(r);
        nv.v[cur] = vc.v[cur];
        rsets->push_back(nv);
        R[i] = 0x80000000u | (uint32_t)(rsets->size() - 1);
      }
    }
  }
}

static void check_state(uintptr_t a, size_t n, const char* what, void* pc) {
  if (!(a - ARENA < HEAP_SZ || a - MAPS < MAP_SZ)) return;
  for (size_t k = 0; k < n; k++) {
    uint8_t s = S[a + k - ARENA];
    if (s == 0 || s == 3) {
      char b[120];
      snprintf(b, sizeof b, "%s on %s", what, bad_state(s));
      report(sim::memory_class, b, pc);
      if (s == 0) finish_("memory");
      return;
    }
  }
}

static uint64_t next_check = 256;
static inline void maybe_check() {
  if (steps >= next_check) { next_check = steps + 256; check_limits(); }
}
static void plain_point() {
  tick(1);
  slice++;
  maybe_check();
  if (acc_left > 0 && --acc_left == 0) {
    acc_left = gap_(sim::params.gap);
    preempt();
  } else if (slice > 5000) {
    slice = 0;
    preempt();
  }
}

void sync_point(int op) {
  tick(3);
  slice++;
  mix_(((uint64_t)op << 8) ^ cur);
  maybe_check();
  if (sync_left > 0 && --sync_left == 0) {
    sync_left = gap_(sim::params.sync_gap);
    preempt();
  } else if (slice > 5000) {
    slice = 0;
    preempt();
  }
}

void access(uintptr_t a, size_t n, bool wr, void* pc) {
  if (!g_active || g_in) return;
  g_in = 1;
  plain_point();
  check_access(a, n, wr, pc);
  g_in = 0;
}

// Range access by library code (memcpy, read, ...): no pre-emption.
void touch(const void* p, size_t n, bool wr, void* pc) {
  if (!g_active || g_in || !n) return;
  g_in = 1;
  tick(1);
  check_access((uintptr_t)p, n, wr, pc);
  g_in = 0;
}

// Harmless if the address is not tracked: makes [p, p+n) live (or not) in the mapping area.
void map_state(uintptr_t a, size_t n, uint8_t s) {
  if (a - ARENA < ARENA_SZ) {
    memset(S + (a - ARENA), s, n);
    memset(W + (a - ARENA), 0, n * 4);
    memset(R + (a - ARENA), 0, n * 4);
  }
}
uintptr_t map_place(size_t n) {
  size_t at = map_used;
  n = (n + 4095) & ~4095ull;
  if (at + n + 8192 > MAP_SZ) return 0;
  map_used = at + n + 8192;
  return MAPS + at + 4096;
}
bool in_maps(uintptr_t a) { return a - MAPS < MAP_SZ; }

// ------------------------------------------------------------------ synchronisation objects
struct Obj {
  const void* addr;
  int owner = -1, rec = 0, readers = 0;
  bool guard_done = false;
  VC vc;
  std::vector<int> waiters;   // condition waiters in order
};
static std::vector<Obj*>* otab;
static size_t ocap = 0, ocount = 0;
static Obj* obj(const void* a) {
  if (ocount * 2 >= ocap) {
    auto* old = otab;
    ocap = ocap ? ocap * 2 : 1024;
    otab = new std::vector<Obj*>(ocap, nullptr);
    if (old)
      for (auto* o : *old)
        if (o) {
          size_t i = ((uintptr_t)o->addr * 0x9E3779B97F4A7C15ull >> 20) & (ocap - 1);
          while ((*otab)[i]) i = (i + 1) & (ocap - 1);
          (*otab)[i] = o;
        }
  }
  size_t i = ((uintptr_t)a * 0x9E3779B97F4A7C15ull >> 20) & (ocap - 1);
  while ((*otab)[i]) {
    if ((*otab)[i]->addr == a) return (*otab)[i];
    i = (i + 1) & (ocap - 1);
  }
  Obj* o = new Obj();
  o->addr = a;
  memset(&o->vc, 0, sizeof o->vc);
  (*otab)[i] = o;
  ocount++;
  return o;
}
static inline void bump() {
  Fiber* f = F[cur];
  f->vc.v[cur]++;
}
static void acquire(const VC& v) { join(F[cur]->vc, v); }
static void release(VC& v) { join(v, F[cur]->vc); bump(); }

// ------------------------------------------------------------------ threads
static void fiber_main();
static Fiber* new_fiber(void* (*fn)(void*), void* arg) {
  if (nf >= MAXT) return nullptr;
  Fiber* f = (Fiber*)rt_alloc(sizeof(Fiber), 64);
  memset((void*)f, 0, sizeof *f);
  f->id = nf;
  f->fn = fn;
  f->arg = arg;
  f->st = RUN;
  uintptr_t lo = STACKS + nf * STACK_SZ, hi = lo + STACK_SZ;
  memset(S + (lo - ARENA), 1, 1);
  uint64_t* sp = (uint64_t*)(hi - 64);
  *--sp = 0;                       // keeps the stack aligned at entry
  *--sp = (uint64_t)&fiber_main;   // return address
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  f->vc.v[nf] = 1;
  F[nf++] = f;
  return f;
}
static void fiber_end(void* ret) {
  g_in = 1;
  Fiber* f = F[cur];
  f->ret = ret;
  f->st = DONE;
  mix_(0xdead + cur);
  Obj* o = obj(f);
  release(o->vc);
  for (int i = 0; i < nf; i++)
    if (F[i]->st == BLOCK && F[i]->obj == f) ready(F[i]);
  reschedule();
  abort();
}
static void fiber_main() {
  Fiber* f = F[cur];
  g_in = 0;
  void* r = f->fn(f->arg);
  fiber_end(r);
}

}  // namespace rt

using namespace rt;

struct InRt {
  int old;
  InRt() : old(g_in) { g_in = 1; }
  ~InRt() { g_in = old; }
};
#define SIM (g_active && !g_in)
#define PC __builtin_return_address(0)

// ------------------------------------------------------------------ sim:: interface
namespace sim {
std::function<bool(const char*, int)> on_exit;
std::function<std::string()> stuck_detail;
const char* deadlock_class = "deadlock";
const char* crash_class = "crash";
const char* race_class = "race";
const char* memory_class = "memory";
const char* hang_class = "hang";
Params params;
IoParams io;

int choose(int n, double p0) { InRt _; return choose_(n, p0); }
bool flip(double p) { InRt _; return p > 0 && !is_fair && choose_(2, 1 - p) == 1; }
void violation(const char* cls, const char* fmt, ...) {
  InRt _;
  char b[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  report(cls, b, nullptr);
}
void fault(const char* n) { InRt _; (*faults)[n]++; }
void probe(const char* n) { InRt _; (*probes)[n]++; }
void event(const char* fmt, ...) {
  InRt _;
  va_list ap;
  va_start(ap, fmt);
  logf_(fmt, ap);
  va_end(ap);
}
void mix(uint64_t v) { mix_(v); }
void finish(const char* r) { finish_(r); }
uint64_t now_ns() { return vtime; }
int self() { return cur; }
bool fair() { return is_fair; }
void sleep_ns(uint64_t ns) { InRt _; if (g_active) block("sleep", nullptr, vtime + (ns ? ns : 1)); }
void yield() { InRt _; sync_point(1); }
void wait_until(const std::function<bool()>& pred) {
  InRt _;
  if (pred()) return;
  F[cur]->pred = &pred;
  block("harness condition", nullptr);
}
bool initialised(const void* p, size_t n) {
  long i = sh((uintptr_t)p);
  if (i < 0) return true;
  for (size_t k = 0; k < n; k++) if (S[i + k] == 2) return false;
  return true;
}
bool live(const void* p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (!(a - ARENA < HEAP_SZ || in_maps(a))) return false;
  for (size_t k = 0; k < n; k++) if (S[a + k - ARENA] == 0 || S[a + k - ARENA] == 3) return false;
  return true;
}
void hb_release(const void* o) { InRt _; release(obj(o)->vc); }
void hb_acquire(const void* o) { InRt _; acquire(obj(o)->vc); }
Quiet::Quiet() : saved_(g_in) { g_in = 1; }
Quiet::~Quiet() { g_in = saved_; }
}  // namespace sim

namespace rt {
static void (*main_fn)();
static void* main_tramp(void*) {
  main_fn();
  g_in = 1;
  finish_("done");
}
static void on_signal(int sig, siginfo_t* si, void*) {
  g_in = 1;
  if (!g_active) _exit(4);
  char b[160];
  uintptr_t a = (uintptr_t)si->si_addr;
  const char* where = a < 65536 ? "near the null pointer" : (a - ARENA < ARENA_SZ ? "in simulated memory" : "outside known memory");
  snprintf(b, sizeof b, "signal %d, access %s", sig, where);
  report(sim::crash_class, b, nullptr);
  finish_("crash");
}
static void on_terminate();
void start(void (*fn)(), int fd) {
  std::set_terminate(on_terminate);
  out_fd = fd;
  main_fn = fn;
  viols = new std::vector<Viol>();
  faults = new std::map<std::string, long>();
  probes = new std::map<std::string, long>();
  log_ = new std::vector<std::string>();
  rsets = new std::vector<VC>();
  rsets->reserve(1 << 16);
  __libc_single_threaded = 0;
  static char alt[65536];
  stack_t ss = {};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  acc_left = gap_(sim::params.gap);
  sync_left = gap_(sim::params.sync_gap);
  Fiber* f = new_fiber(main_tramp, nullptr);
  eh_save(f);
  cur = 0;
  void* dummy;
  g_active = true;
  rt_switch(&dummy, f->sp);
}
}  // namespace rt

// ------------------------------------------------------------------ allocation
extern "C" {
static bool no_mem(size_t n) {
  if (!SIM || n < sim::params.nomem_min || sim::params.p_nomem <= 0) return false;
  if (sim::flip(sim::params.p_nomem)) { sim::fault("allocation failed"); return true; }
  return false;
}
void* malloc(size_t n) {
  if (g_active && g_in) return rt_alloc(n, 16);
  if (no_mem(n)) { errno = ENOMEM; return nullptr; }
  InRt _;
  return u_alloc(n, 16, false);
}
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  if (g_active && g_in) return rt_alloc(n, 16);
  if (no_mem(n)) { errno = ENOMEM; return nullptr; }
  InRt _;
  return u_alloc(n, 16, true);
}
void free(void* p) {
  uintptr_t a = (uintptr_t)p;
  if (!p || a - ARENA >= HEAP_SZ) return;
  Hdr* h = (Hdr*)(a - sizeof(Hdr));
  if (g_active && !g_in) {
    g_in = 1;
    long i = a - ARENA;
    if (h->magic != 0x51a110c) report(sim::memory_class, h->magic == 0xdead0bad ? "block freed twice" : "free of an address that is not a block", PC);
    else {
      if (h->size) check_access(a, h->size < 4096 ? h->size : 4096, true, PC);
      memset(S + i, 3, h->size);
      h->magic = 0xdead0bad;
    }
    g_in = 0;
  } else if (!g_active && h->magic == 0x51a110c) {
    memset(S + (a - ARENA), 3, h->size);
    h->magic = 0xdead0bad;
  } else if (h->magic == 0x51a110c) {
    memset(S + (a - ARENA), 3, h->size);
    h->magic = 0xdead0bad;
  }
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  size_t old = 0;
  uintptr_t a = (uintptr_t)p;
  if (a - ARENA < HEAP_SZ) old = ((Hdr*)(a - sizeof(Hdr)))->size;
  void* q = malloc(n);
  if (!q) return nullptr;
  {
    InRt _;
    __builtin_memcpy(q, p, old < n ? old : n);
    long i = sh((uintptr_t)q);
    if (i >= 0) memset(S + i, 1, old < n ? old : n);
  }
  free(p);
  return q;
}
int posix_memalign(void** r, size_t al, size_t n) {
  if (g_active && g_in) { *r = rt_alloc(n, al); return 0; }
  if (no_mem(n)) return ENOMEM;
  InRt _;
  *r = u_alloc(n, al, false);
  return *r ? 0 : ENOMEM;
}
void* aligned_alloc(size_t al, size_t n) { void* p = nullptr; return posix_memalign(&p, al, n) ? nullptr : p; }
void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
size_t malloc_usable_size(void* p) {
  uintptr_t a = (uintptr_t)p;
  return a - ARENA < HEAP_SZ ? ((Hdr*)(a - sizeof(Hdr)))->size : 0;
}
}

// ------------------------------------------------------------------ compiler hooks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  if (!g_active || g_in) return;
  Fiber* f = F[cur];
  if (f->depth < 1024 && f->depth >= 0) f->cs[f->depth] = pc;
  f->depth++;
}
void __tsan_func_exit() {
  if (!g_active || g_in) return;
  if (F[cur]->depth > 0) F[cur]->depth--;
}
#define RW(n)                                                                       \
  void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, PC); }              \
  void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, PC); }              \
  void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, PC); }    \
  void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, PC); }    \
  void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, PC); }     \
  void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }

static inline bool is_acq(int m) { return m == 1 || m == 2 || m == 4 || m == 5; }
static inline bool is_rel(int m) { return m == 3 || m == 4 || m == 5; }

// Before an atomic operation: schedule, check that the memory is live and ordered after its plain construction.
static Obj* a_begin(const volatile void* a, size_t n, const char* what, void* pc) {
  sync_point(2);
  check_state((uintptr_t)a, n, what, pc);
  long i = sh((uintptr_t)a);
  if (i >= 0) {
    uint32_t w = W[i];
    if (w && etid(w) != cur && eclk(w) > F[cur]->vc.v[etid(w)]) { race("atomic access not ordered after a plain write", (uintptr_t)a, etid(w), pc); W[i] = 0; }
  }
  return obj((const void*)a);
}
static void a_load(Obj* o, int m) {
  if (is_acq(m)) acquire(o->vc);
  else { join(F[cur]->acq, o->vc); F[cur]->has_acq = true; }
}
static void a_store(Obj* o, int m) {
  if (is_rel(m)) { o->vc = F[cur]->vc; bump(); }
  else if (F[cur]->has_rel) o->vc = F[cur]->rel;
  else memset(&o->vc, 0, sizeof o->vc);
}
static void a_rmw(Obj* o, int m) {
  a_load(o, m);
  if (is_rel(m)) release(o->vc);
  else if (F[cur]->has_rel) join(o->vc, F[cur]->rel);
}
static void a_written(const volatile void* a, size_t n) {
  uintptr_t x = (uintptr_t)a;
  if (x - ARENA < HEAP_SZ || in_maps(x)) memset(S + (x - ARENA), 1, n);
}
#define ATOMIC(bits, T)                                                                              \
  T __tsan_atomic##bits##_load(const volatile T* a, int m) {                                         \
    if (!SIM) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                           \
    InRt _;                                                                                          \
    Obj* o = a_begin(a, sizeof(T), "atomic load", PC);                                               \
    T v = *a;                                                                                        \
    a_load(o, m);                                                                                    \
    return v;                                                                                        \
  }                                                                                                  \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int m) {                                      \
    if (!SIM) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }                                  \
    InRt _;                                                                                          \
    Obj* o = a_begin(a, sizeof(T), "atomic store", PC);                                              \
    *a = v;                                                                                          \
    a_written(a, sizeof(T));                                                                         \
    a_store(o, m);                                                                                   \
  }                                                                                                  \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int m) {                                      \
    if (!SIM) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                    \
    InRt _;                                                                                          \
    Obj* o = a_begin(a, sizeof(T), "atomic exchange", PC);                                           \
    T r = *a;                                                                                        \
    *a = v;                                                                                          \
    a_rmw(o, m);                                                                                     \
    return r;                                                                                        \
  }                                                                                                  \
  static int cas##bits(volatile T* a, T* e, T v, int m, int fm, bool weak, void* pc) {               \
    if (!SIM) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);\
    InRt _;                                                                                          \
    Obj* o = a_begin(a, sizeof(T), "atomic compare-exchange", pc);                                   \
    T c = *a;                                                                                        \
    if (weak && c == *e && sim::params.p_cas > 0 && !is_fair && choose_(2, 1 - sim::params.p_cas)) { \
      (*faults)["weak compare-exchange failed"]++;                                                   \
      a_load(o, fm);                                                                                 \
      return 0;                                                                                      \
    }                                                                                                \
    if (c == *e) { *a = v; a_rmw(o, m); return 1; }                                                  \
    *e = c;                                                                                          \
    a_load(o, fm);                                                                                   \
    return 0;                                                                                        \
  }                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int m, int fm) {       \
    return cas##bits(a, e, v, m, fm, false, PC);                                                     \
  }                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int m, int fm) {         \
    return cas##bits(a, e, v, m, fm, true, PC);                                                      \
  }                                                                                                  \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int m, int fm) {             \
    cas##bits(a, &e, v, m, fm, false, PC);                                                           \
    return e;                                                                                        \
  }
#define FETCH(bits, T, name, expr)                                                                   \
  T __tsan_atomic##bits##_fetch_##name(volatile T* a, T v, int m) {                                  \
    if (!SIM) { T r = *a; *a = (expr); return r; }                                                   \
    InRt _;                                                                                          \
    Obj* o = a_begin(a, sizeof(T), "atomic read-modify-write", PC);                                  \
    T r = *a;                                                                                        \
    *a = (expr);                                                                                     \
    a_rmw(o, m);                                                                                     \
    return r;                                                                                        \
  }
#define ALL(bits, T)              \
  ATOMIC(bits, T)                 \
  FETCH(bits, T, add, (T)(r + v)) \
  FETCH(bits, T, sub, (T)(r - v)) \
  FETCH(bits, T, and, (T)(r & v)) \
  FETCH(bits, T, or, (T)(r | v))  \
  FETCH(bits, T, xor, (T)(r ^ v)) \
  FETCH(bits, T, nand, (T)(~(r & v)))
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int m) {
  if (!SIM) return;
  InRt _;
  sync_point(3);
  Fiber* f = F[cur];
  if (is_acq(m) && f->has_acq) join(f->vc, f->acq);
  if (is_rel(m)) { f->rel = f->vc; f->has_rel = true; bump(); }
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ libc memory functions
void* memcpy(void* d, const void* s, size_t n) {
  if (SIM && n) { touch(s, n, false, PC); touch(d, n, true, PC); }
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n) {
  if (SIM && n) { touch(s, n, false, PC); touch(d, n, true, PC); }
  void* r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else {
    char* dd = (char*)d + n - 1;
    const char* ss = (const char*)s + n - 1;
    asm volatile("std\n rep movsb\n cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return r;
}
void* memset(void* d, int c, size_t n) {
  if (SIM && n) touch(d, n, true, PC);
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}

// ------------------------------------------------------------------ threads
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  InRt _;
  sync_point(10);
  Fiber* f = new_fiber(fn, arg);
  if (!f) return EAGAIN;
  f->vc.v[f->id] = 1;
  join(f->vc, F[cur]->vc);
  bump();
  *t = (pthread_t)f;
  sync_point(11);
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  InRt _;
  sync_point(12);
  Fiber* f = (Fiber*)t;
  while (f->st != DONE) block("joining a thread", f);
  f->joined = true;
  acquire(obj(f)->vc);
  if (r) *r = f->ret;
  return 0;
}
int pthread_detach(pthread_t t) { ((Fiber*)t)->detached = true; return 0; }
pthread_t pthread_self() { return g_active && nf ? (pthread_t)F[cur] : (pthread_t)1; }

static void lock_(const void* m, bool recursive) {
  Obj* o = obj(m);
  if (o->owner == cur && recursive) { o->rec++; return; }
  while (o->owner >= 0 || o->readers > 0) block(o->owner == cur ? "locking a mutex it already holds" : "locking a mutex", m);
  o->owner = cur;
  o->rec = 1;
  acquire(o->vc);
}
static void wake_lock(const void* m) {
  for (int i = 0; i < nf; i++)
    if (F[i]->st == BLOCK && F[i]->obj == m && !F[i]->stalled) ready(F[i]);
}
static void unlock_(const void* m) {
  Obj* o = obj(m);
  if (o->readers > 0 && o->owner != cur) {
    o->readers--;
    release(o->vc);
    if (!o->readers) wake_lock(m);
    return;
  }
  if (o->owner != cur) { report(sim::memory_class, "a mutex is unlocked by a thread that does not hold it", nullptr); return; }
  if (--o->rec > 0) return;
  o->owner = -1;
  release(o->vc);
  wake_lock(m);
}
static bool rec_mutex(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  __builtin_memset(m, 0, sizeof *m);
  if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!SIM) return 0;
  InRt _;
  sync_point(20);
  check_state((uintptr_t)m, sizeof *m, "lock of a mutex", PC);
  lock_(m, rec_mutex(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!SIM) return 0;
  InRt _;
  sync_point(21);
  Obj* o = obj(m);
  if (o->owner == cur && rec_mutex(m)) { o->rec++; return 0; }
  if (o->owner >= 0) return EBUSY;
  o->owner = cur;
  o->rec = 1;
  acquire(o->vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!SIM) return 0;
  InRt _;
  check_state((uintptr_t)m, sizeof *m, "unlock of a mutex", PC);
  unlock_(m);
  sync_point(22);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  if (!SIM) return 0;
  InRt _;
  sync_point(23);
  Obj* o = obj(m);
  uint64_t lim = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
  while (o->owner >= 0) {
    if (vtime >= lim) return ETIMEDOUT;
    block("locking a mutex", m, lim);
  }
  o->owner = cur;
  o->rec = 1;
  acquire(o->vc);
  return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_mutex_timedlock(m, t); }
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { __builtin_memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!SIM) return 0;
  InRt _;
  sync_point(24);
  lock_(m, false);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!SIM) return 0;
  InRt _;
  sync_point(25);
  Obj* o = obj(m);
  while (o->owner >= 0) block("locking a mutex", m);
  o->readers++;
  acquire(o->vc);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (!SIM) return 0;
  InRt _;
  sync_point(26);
  Obj* o = obj(m);
  if (o->owner >= 0 || o->readers) return EBUSY;
  o->owner = cur;
  o->rec = 1;
  acquire(o->vc);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!SIM) return 0;
  InRt _;
  sync_point(27);
  Obj* o = obj(m);
  if (o->owner >= 0) return EBUSY;
  o->readers++;
  acquire(o->vc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!SIM) return 0;
  InRt _;
  unlock_(m);
  sync_point(28);
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { __builtin_memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait_(pthread_cond_t* c, pthread_mutex_t* m, uint64_t lim) {
  InRt _;
  sync_point(30);
  Obj* o = obj(c);
  Obj* mo = obj(m);
  int rec = mo->rec;
  if (mo->owner != cur) report(sim::memory_class, "waiting on a condition without holding its mutex", PC);
  mo->rec = 1;
  bool spurious = sim::params.p_spurious > 0 && !is_fair && choose_(2, 1 - sim::params.p_spurious);
  if (!spurious) o->waiters.push_back(cur);
  unlock_(m);
  int rv = 0;
  if (spurious) {
    (*faults)["spurious wake-up"]++;
    preempt();
  } else {
    F[cur]->signalled = false;
    block("waiting on a condition", c, lim);
    if (!F[cur]->signalled) {
      for (size_t i = 0; i < o->waiters.size(); i++)
        if (o->waiters[i] == cur) { o->waiters.erase(o->waiters.begin() + i); break; }
      rv = ETIMEDOUT;
    }
  }
  lock_(m, false);
  mo->rec = rec;
  return rv;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!SIM) return 0; return cond_wait_(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!SIM) return 0;
  uint64_t lim = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
  if (lim <= vtime) { pthread_mutex_unlock(m); pthread_mutex_lock(m); return ETIMEDOUT; }
  return cond_wait_(c, m, lim);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
  return pthread_cond_timedwait(c, m, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!SIM) return 0;
  InRt _;
  sync_point(31);
  check_state((uintptr_t)c, sizeof *c, "signal of a condition", PC);
  Obj* o = obj(c);
  if (!o->waiters.empty()) {
    int k = is_fair ? 0 : choose_((int)o->waiters.size(), 0.4);
    int w = o->waiters[k];
    o->waiters.erase(o->waiters.begin() + k);
    ready(F[w]);
    F[w]->signalled = true;
  }
  sync_point(32);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!SIM) return 0;
  InRt _;
  sync_point(33);
  Obj* o = obj(c);
  for (int w : o->waiters) { ready(F[w]); F[w]->signalled = true; }
  o->waiters.clear();
  sync_point(34);
  return 0;
}
int pthread_once(pthread_once_t* o_, void (*fn)()) {
  if (!SIM) { if (!*(int*)o_) { *(int*)o_ = 1; fn(); } return 0; }
  InRt _;
  sync_point(35);
  Obj* o = obj(o_);
  while (o->owner >= 0) block("a one-time initialisation", o_);
  if (!o->guard_done) {
    o->owner = cur;
    g_in = 0;
    try { fn(); } catch (...) {
      g_in = 1;
      o->owner = -1;
      wake_lock(o_);
      throw;
    }
    g_in = 1;
    o->guard_done = true;
    o->owner = -1;
    release(o->vc);
    wake_lock(o_);
  }
  acquire(o->vc);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  if (*(volatile char*)g) return 0;
  if (!SIM) { ((volatile char*)g)[1] = 1; return 1; }
  InRt _;
  sync_point(36);
  Obj* o = obj((char*)g + 1);
  while (o->owner >= 0) block("a static initialisation", (char*)g + 1);
  if (*(volatile char*)g) { acquire(obj(g)->vc); return 0; }
  o->owner = cur;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  *(volatile char*)g = 1;
  if (!SIM) return;
  InRt _;
  Obj* o = obj((char*)g + 1);
  o->owner = -1;
  release(obj(g)->vc);
  wake_lock((char*)g + 1);
}
void __cxa_guard_abort(uint64_t* g) {
  if (!SIM) return;
  InRt _;
  Obj* o = obj((char*)g + 1);
  o->owner = -1;
  wake_lock((char*)g + 1);
}

// ------------------------------------------------------------------ time
int sched_yield() {
  if (!SIM) return 0;
  InRt _;
  tick(20);
  mix_(0x71e1d + cur);
  check_limits();
  int c[MAXT];
  int n = candidates(c);
  if (n) go(c[is_fair ? 0 : choose_(n, 0.6)]);
  return 0;
}
static int sleep_(uint64_t ns) {
  if (!SIM) return 0;
  InRt _;
  block("sleeping", nullptr, vtime + (ns ? ns : 1));
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec*) { return sleep_(t->tv_sec * 1000000000ull + t->tv_nsec); }
int clock_nanosleep(clockid_t, int fl, const struct timespec* t, struct timespec*) {
  uint64_t ns = t->tv_sec * 1000000000ull + t->tv_nsec;
  if (fl & TIMER_ABSTIME) { if (ns <= vtime) return 0; ns -= vtime; }
  return sleep_(ns);
}
int usleep(useconds_t u) { return sleep_(u * 1000ull); }
unsigned sleep(unsigned s) { sleep_(s * 1000000000ull); return 0; }
static const uint64_t EPOCH = 1700000000ull;
int clock_gettime(clockid_t id, struct timespec* t) {
  if (g_active && !g_in) tick(1);
  uint64_t v = vtime;
  t->tv_sec = v / 1000000000ull + (id == CLOCK_REALTIME ? 0 : 0);
  t->tv_nsec = v % 1000000000ull;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t->tv_sec += EPOCH - EPOCH;
  return 0;
}
int gettimeofday(struct timeval* t, void*) { t->tv_sec = vtime / 1000000000ull; t->tv_usec = vtime / 1000 % 1000000; return 0; }
time_t time(time_t* t) { time_t v = vtime / 1000000000ull; if (t) *t = v; return v; }
int get_nprocs() { return 4; }
long random() { InRt _; return choose_(1 << 30, -1); }
int rand() { InRt _; return choose_(1 << 30, -1); }
ssize_t getrandom(void* p, size_t n, unsigned) { __builtin_memset(p, 7, n); return n; }
int getentropy(void* p, size_t n) { __builtin_memset(p, 7, n); return 0; }
unsigned arc4random() { return 7; }

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && g_active && !g_in) {
    InRt _;
    sync_point(40);
    int op = a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    const void* k = (const void*)(a[0]);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
      uint64_t lim = 0;
      if (a[3]) {
        auto* t = (struct timespec*)a[3];
        lim = t->tv_sec * 1000000000ull + t->tv_nsec + (op == FUTEX_WAIT ? vtime : 0);
        if (lim <= vtime) { errno = ETIMEDOUT; return -1; }
      }
      if (sim::params.p_spurious > 0 && !is_fair && choose_(2, 1 - sim::params.p_spurious)) { (*faults)["spurious wake-up"]++; preempt(); return 0; }
      block("waiting on an atomic", k, lim);
      if (F[cur]->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long cnt = 0;
      for (int i = 0; i < nf && cnt < a[2]; i++)
        if (F[i]->st == BLOCK && F[i]->obj == k) { ready(F[i]); cnt++; }
      return cnt;
    }
    return 0;
  }
  long r;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8") = a[4];
  register long r9 asm("r9") = a[5];
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

// ------------------------------------------------------------------ process end
static void proc_end(const char* how, int code, void* pc) {
  if (!g_active) _exit(5);
  g_in = 1;
  bool ok = sim::on_exit && sim::on_exit(how, code);
  if (!ok) {
    char b[120];
    snprintf(b, sizeof b, "the process ends itself (%s)", how);
    report(sim::crash_class, b, pc);
  }
  finish_(how);
}
}
static void rt::on_terminate() {
  const char* what = "an exception nobody catches";
  static char b[200];
  try {
    if (std::current_exception()) throw;
    what = "std::terminate";
  } catch (const std::exception& e) {
    InRt _;
    snprintf(b, sizeof b, "an exception nobody catches: %s", e.what());
    what = b;
  } catch (...) {}
  proc_end(what, 134, PC);
  __builtin_unreachable();
}
extern "C" {
void abort() { proc_end("abort", 134, PC); __builtin_unreachable(); }
void exit(int c) {
  if (!g_active) _exit(c);
  proc_end("exit", c, PC);
  __builtin_unreachable();
}
void __assert_fail(const char* e, const char*, unsigned, const char*) {
  (void)e;
  proc_end("assertion in a library", 134, PC);
  __builtin_unreachable();
}
void __assert(const char*, const char*, int) { proc_end("assertion in a library", 134, PC); __builtin_unreachable(); }
}

// Interface between the simulator runtime (rt.cpp, io.cpp) and the workloads.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// --- decisions (0 is always the plain choice)
int choose(int n, double p0 = -1.0);
bool flip(double p);

// --- reporting
void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void fault(const char* name);
void probe(const char* name);
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(uint64_t v);                     // add to the history hash
void finish(const char* reason) __attribute__((noreturn));

// --- time and scheduling
uint64_t now_ns();
int self();
void sleep_ns(uint64_t ns);
void yield();
bool fair();                              // random faults and pre-emption are over
// Block until pred() (evaluated by the scheduler with checks off) holds.
void wait_until(const std::function<bool()>& pred);

// --- memory
bool initialised(const void* p, size_t n);   // every byte was written since allocation
bool live(const void* p, size_t n);          // every byte lies in live memory
void hb_release(const void* obj);            // harness-level happens-before edges
void hb_acquire(const void* obj);

// Checks off inside the scope (harness book-keeping must not race or be pre-empted).
struct Quiet {
  Quiet();
  ~Quiet();
 private:
  int saved_;
};

// What to do when the code under test ends the process or throws out of a thread.
// Return true to end the run quietly with the reason, false to report a violation.
extern std::function<bool(const char* how, int code)> on_exit;
extern const char* deadlock_class;
extern const char* crash_class;
extern const char* race_class;
extern const char* memory_class;
extern const char* hang_class;
extern std::function<std::string()> stuck_detail;

// --- parameters (set by the plan)
struct Params {
  double gap = 50;          // mean accesses between pre-emptions (0: never)
  double sync_gap = 3;      // mean synchronisation operations between pre-emptions (0: never)
  double p_spurious = 0;    // spurious wake-ups
  double p_cas = 0;         // spurious failure of weak compare-exchange
  double p_stall = 0;       // a pre-empted thread stays away for long
  double p_nomem = 0;       // failing system allocations
  uint64_t nomem_min = 0;   // ... of at least this size
  uint64_t fair_after = 60000, limit = 3000000;
};
extern Params params;

// --- file faults
struct IoParams {
  double p_short = 0, p_eintr = 0, p_eio = 0, p_enospc = 0, p_open = 0, p_mmap = 0, p_stat = 0, p_trunc = 0;
  bool armed = false;
};
extern IoParams io;
int io_open_fds();
int io_open_maps();
extern void (*io_on_op)();   // called before every operation that changes files
bool io_failed();   // some injected failure was returned to the code under test
}  // namespace sim

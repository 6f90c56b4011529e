// N01: concurrent submitters, life-cycle changes and teardown of the real HpcThreadPool.
#include <thread>
#include "mllm/engine/HpcThreadPool.hpp"
#include "work.h"
using nlohmann::json;
using mllm::HpcThreadPool;
using mllm::HpcThreadPoolTask;
namespace {
struct Loop { int start, end, step, slot, nested, work; };
struct Life { int op; int pause; };
int n_threads;
bool started, destroy_first;
std::vector<std::vector<Loop>> subs;
std::vector<Life> life;
HpcThreadPool* pool;

struct Cell { int n; int val; };

void spin(int k) {
  static thread_local volatile int sink;
  for (int i = 0; i < k; i++) sink = i;
}

void run_loop(const Loop& l, int slot, const char* who) {
  int want;
  std::vector<Cell>* cells;
  int* calls;
  int* outside;
  int* running;
  {
    sim::Quiet q;
    want = l.end > l.start ? (l.end - l.start + l.step - 1) / l.step : 0;
  }
  cells = new std::vector<Cell>(want > 0 ? want : 1, Cell{0, -1});
  {
    sim::Quiet q;
    outside = new int(0);
    running = new int(0);
    calls = new int(0);
    sim::event("%s loop %d..%d step %d slot %d", who, l.start, l.end, l.step, slot);
  }
  HpcThreadPoolTask t;
  t.start = l.start;
  t.end = l.end;
  t.step = l.step;
  t.func = [=, &l](int i) {
    int k;
    {
      sim::Quiet q;
      ++*calls;
      ++*running;
      if (*running > 1) sim::probe("two iterations of one loop at once");
      k = (i >= l.start && i < l.end && (i - l.start) % l.step == 0) ? (i - l.start) / l.step : -1;
      if (k < 0) ++*outside;
    }
    if (k >= 0) {
      Cell& c = (*cells)[k];
      c.n = c.n + 1;
      if (l.work) spin(l.work);
      c.val = i;
      if (l.nested && k == 0) {
        std::vector<int> in(4, 0);
        HpcThreadPoolTask u;
        u.start = 0;
        u.end = 4;
        u.step = 1;
        u.func = [&in](int x) { in[x] = in[x] + 1; };
        pool->push(std::move(u), slot);
        for (int x = 0; x < 4; x++)
          if (in[x] != 1) sim::violation("par-count", "an inner loop ran iteration %d %d times", x, in[x]);
        sim::probe("nested loop");
      }
    }
    {
      sim::Quiet q;
      --*running;
    }
  };
  pool->push(std::move(t), slot);
  {
    sim::Quiet q;
    if (*running > 0)
      sim::violation("par-early", "push returned while %d iterations of its loop were still running", *running);
    if (*outside)
      sim::violation("par-count", "loop %d..%d step %d called its body %d times for indices outside the loop", l.start, l.end, l.step, *outside);
  }
  for (int k = 0; k < want; k++) {   // plain reads: a missing happens-before edge is a race
    int n = (*cells)[k].n, v = (*cells)[k].val;
    if (n != 1)
      sim::violation("par-count", "loop %d..%d step %d ran iteration %d %d times", l.start, l.end, l.step, l.start + k * l.step, n);
    else if (v != l.start + k * l.step)
      sim::violation("par-early", "the result of iteration %d is not visible to the caller", l.start + k * l.step);
  }
  delete cells;
}

void submitter(int id) {
  int own = pool->acquireTaskSlot();
  if (own >= 2) sim::violation("par-count", "slot %d handed out", own);
  char who[16];
  {
    sim::Quiet q;
    snprintf(who, sizeof who, "s%d", id);
  }
  for (auto& l : subs[id]) {
    int slot = own;
    if (l.slot == 1) slot = -1;
    if (l.slot == 2) slot = 0;
    run_loop(l, slot, who);
  }
  pool->releaseTaskSlot(own);
}

void run() {
  pool = new HpcThreadPool(n_threads);
  if (started) pool->activate();
  {
    std::vector<std::thread> ts;
    for (size_t i = 1; i < subs.size(); i++) ts.emplace_back(submitter, (int)i);
    std::thread lc;
    if (!life.empty())
      lc = std::thread([] {
        for (auto& l : life) {
          if (l.pause) sim::sleep_ns(l.pause);
          sim::event("life %d", l.op);
          sim::fault("pool life-cycle change");
          switch (l.op) {
            case 0: pool->idle(); break;
            case 1: pool->wakeup(); break;
            case 2: pool->activate(); break;
            case 3: pool->deactivate(); break;
          }
        }
      });
    submitter(0);
    for (auto& t : ts) t.join();
    if (lc.joinable()) lc.join();
  }
  if (destroy_first) pool->__threadPoolDestroy();
  delete pool;
  sim::event("pool gone");
}
Register r("pool", [](const json& p) {
  n_threads = p["threads"];
  started = p.value("active", true);
  destroy_first = p.value("destroy", true);
  for (auto& o : p["ops"]) {
    if (o.contains("life")) { life.push_back(Life{o["life"], o.value("pause", 0)}); continue; }
    size_t k = o["s"];
    while (subs.size() <= k) subs.emplace_back();
    subs[k].push_back(Loop{o["start"], o["end"], o["step"], o.value("slot", 0), o.value("nested", 0), o.value("work", 0)});
  }
  if (subs.empty()) subs.emplace_back();
  sim::deadlock_class = "par-deadlock";
  sim::hang_class = "par-deadlock";
  sim::race_class = "par-race";
  sim::memory_class = "par-memory";
  sim::crash_class = "par-crash";
}, run);
}

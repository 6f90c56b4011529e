// N02: threads that allocate, fill, check, hand over and free blocks of the real memory manager.
#include <map>
#include <mutex>
#include <thread>
#include "mllm/backends/cpu/CPUAllocator.hpp"
#include "mllm/engine/MemoryManager.hpp"
#include "work.h"
using nlohmann::json;
using namespace mllm;
namespace {
struct Op { int t, kind, slot; size_t size; int cache; };
int n_threads;
bool direct, small, flush_end;
size_t cap, threshold;
int min_order, max_order;
std::vector<size_t> cached;
std::vector<std::vector<size_t>> cache_lists;
std::vector<std::vector<Op>> ops;
bool failing = false, too_big = false, single = false;

struct Seg { size_t n; bool freed; };
std::map<char*, Seg> segs;        // system memory the pool holds
std::map<char*, size_t> direct_blocks;
struct Live { size_t n; uint32_t id; };
std::map<char*, Live> live;

size_t pow2(size_t n) { size_t p = (size_t)1 << min_order; while (p < n) p *= 2; return p; }

// Is there an aligned free range for n bytes in some segment?
bool room(size_t n) {
  size_t w = pow2(n);
  for (auto& [p, s] : segs) {
    if (s.freed) continue;
    for (size_t o = 0; o + w <= s.n; o += w) {
      auto it = live.lower_bound(p + o);
      bool hit = it != live.end() && it->first < p + o + w;
      if (!hit && it != live.begin()) {
        --it;
        hit = it->first + pow2(it->second.n) > p + o;
      }
      if (!hit) return true;
    }
  }
  return false;
}
size_t asking = 0;

class Counting final : public Allocator {
 public:
  cpu::CPUAllocator in;
  bool ctrlByMemManager() override { return in.ctrlByMemManager(); }
  bool alloc(Storage* s) override {
    bool ok = in.alloc(s);
    sim::Quiet q;
    if (ok) direct_blocks[(char*)s->ptr_] = s->size_;
    else failing = true;
    return ok;
  }
  bool alloc(const Storage::ptr_t& s) override { return alloc(s.get()); }
  void gone(void* p) {
    sim::Quiet q;
    if (!direct_blocks.erase((char*)p)) sim::violation("mem-return", "memory is returned to the system that does not come from it");
  }
  void free(Storage* s) override { gone(s->ptr_); in.free(s); }
  void free(const Storage::ptr_t& s) override { free(s.get()); }
  bool generalAlloc(void** p, size_t n, size_t al) override {
    {
      sim::Quiet q;
      if (single && asking && room(asking)) sim::violation("mem-lost", "the pool asks the system for %zu bytes although %zu bytes fit into memory that was freed", n, asking);
      if (!segs.empty()) sim::probe("pool grown");
    }
    bool ok = in.generalAlloc(p, n, al);
    sim::Quiet q;
    if (*p) segs[(char*)*p] = Seg{n, false};
    else failing = true;
    return ok;
  }
  void generalFree(void* p) override {
    {
      sim::Quiet q;
      auto it = segs.find((char*)p);
      if (it == segs.end() || it->second.freed) sim::violation("mem-return", "a segment is returned to the system twice");
      else it->second.freed = true;
    }
    in.generalFree(p);
  }
  size_t allocSize(Storage* s) override { return in.allocSize(s); }
  size_t allocSize(const Storage::ptr_t& s) override { return in.allocSize(s); }
  size_t alignSize() const override { return in.alignSize(); }
};

std::shared_ptr<Counting> alloc_;
std::shared_ptr<BuddyMemPool> pool;
std::shared_ptr<MemoryManager> mm;

void get(Storage* s) { if (direct) pool->alloc(s); else mm->alloc(s); }
void put(Storage* s) { if (direct) pool->free(s); else mm->free(s); }

struct Held { std::shared_ptr<Storage> s; unsigned char pat; };
std::map<int, Held> shelf[48];
std::mutex shelf_m[48];
std::atomic<uint32_t> next_id{1};
const size_t EDGE = 96;

void fill(const Held& h) {
  char* p = (char*)h.s->ptr_;
  size_t n = h.s->size_;
  if (n <= 2 * EDGE) { memset(p, h.pat, n); return; }
  memset(p, h.pat, EDGE);
  memset(p + n - EDGE, h.pat, EDGE);
}
void verify(const Held& h, const char* when) {
  char* p = (char*)h.s->ptr_;
  size_t n = h.s->size_;
  auto bad = [&](size_t a, size_t b) {
    char buf[2 * EDGE];
    memcpy(buf, p + a, b - a);
    sim::Quiet q;
    for (size_t i = 0; i < b - a; i++)
      if ((unsigned char)buf[i] != h.pat) return true;
    return false;
  };
  if (n <= 2 * EDGE ? bad(0, n) : (bad(0, EDGE) || bad(n - EDGE, n)))
    sim::violation("mem-content", "a block of %zu bytes changed while it was in use (%s)", n, when);
}

void give(Held& h) {
  verify(h, "when freed");
  {
    sim::Quiet q;
    live.erase((char*)h.s->ptr_);
  }
  put(h.s.get());
}

void worker(int t) {
  for (auto& o : ops[t]) {
    if (o.kind == 0) {
      Held h;
      h.s = std::make_shared<Storage>();
      h.s->size_ = o.size;
      h.s->custom_32bit_uuid_ = next_id++;
      h.pat = (unsigned char)(h.s->custom_32bit_uuid_ * 37 + 1);
      {
        sim::Quiet q;
        asking = alloc_->in.allocSize(h.s.get());
        if (asking > ((size_t)1 << 29)) too_big = true;
      }
      get(h.s.get());
      char* p = (char*)h.s->ptr_;
      {
        sim::Quiet q;
        asking = 0;
        size_t n = o.size;
        sim::event("alloc %zu", n);
        sim::mix(n);
        if (!p) { sim::violation("mem-null", "an allocation of %zu bytes gave no memory and no error", n); sim::finish("null"); }
        if ((uintptr_t)p % alloc_->alignSize()) sim::violation("mem-overlap", "a block of %zu bytes is not aligned", n);
        bool in_seg = direct_blocks.count(p) && direct_blocks[p] >= n;
        for (auto& [b, s] : segs)
          if (!s.freed && p >= b && p + n <= b + s.n) in_seg = true;
        if (!in_seg) { sim::violation("mem-overlap", "a block of %zu bytes does not lie in the pool's memory", n); sim::finish("outside"); }
        if (n) {
          auto it = live.lower_bound(p);
          if (it != live.end() && it->first < p + n)
            sim::violation("mem-overlap", "a block of %zu bytes overlaps a live block of %zu bytes", n, it->second.n);
          if (it != live.begin()) {
            --it;
            if (it->first + it->second.n > p) sim::violation("mem-overlap", "a block of %zu bytes overlaps a live block of %zu bytes", n, it->second.n);
          }
        }
        if (live.count(p)) sim::violation("mem-overlap", "one address was handed out twice");
        live[p] = Live{n, h.s->custom_32bit_uuid_};
      }
      fill(h);
      verify(h, "right after the allocation");
      std::lock_guard<std::mutex> l(shelf_m[t]);
      shelf[t][o.slot] = h;
    } else if (o.kind == 1 || o.kind == 2 || o.kind == 3) {
      int from = o.kind == 3 ? o.cache % n_threads : t;   // 3: take a block another thread allocated
      Held h;
      bool found = false;
      {
        std::lock_guard<std::mutex> l(shelf_m[from]);
        auto it = shelf[from].lower_bound(o.slot);
        if (it == shelf[from].end()) it = shelf[from].begin();
        if (it != shelf[from].end()) {
          h = it->second;
          found = true;
          if (o.kind != 2) shelf[from].erase(it);
          else verify(h, "in use");
        }
      }
      if (found && o.kind != 2) {
        if (from != t) sim::probe("freed by another thread");
        give(h);
      }
    } else if (o.kind == 4 && direct) {
      std::unordered_set<size_t> l;
      {
        sim::Quiet q;
        for (auto x : cache_lists[o.cache % cache_lists.size()]) l.insert(x);
        sim::event("cache list %zu", l.size());
        sim::probe("cache sizes changed");
      }
      pool->updateCacheSizeList(l);
    }
  }
}

void run() {
  alloc_ = std::make_shared<Counting>();
  BuddyMemPoolOptions o;
  o.buddy_first_segment_cap = cap;
  o.buddy_min_order = min_order;
  o.buddy_max_order = max_order;
  o.cache_small_obj_enabled = small;
  for (auto x : cached) o.cache_size_set.insert(x);
  single = n_threads == 1 && !small;
  sim::event("pool cap %zu min %d", cap, min_order);
  if (direct) pool = std::make_shared<BuddyMemPool>(o, alloc_);
  else {
    MemoryManagerOptions m;
    m.really_large_tensor_threshold = threshold;
    m.buddy_mem_pool_options = o;
    mm = std::make_shared<MemoryManager>();
    mm->registerAllocator(kCPU, alloc_, m);
  }
  {
    std::vector<std::thread> ts;
    for (int i = 1; i < n_threads; i++) ts.emplace_back(worker, i);
    worker(0);
    for (auto& t : ts) t.join();
  }
  for (int t = 0; t < n_threads; t++) {
    for (auto& [k, h] : shelf[t]) give(h);
    shelf[t].clear();
  }
  sim::params.p_nomem = 0;
  if (direct && small) pool->updateCacheSizeList({});
  // everything is free again: each segment must be one whole block (or as many as its size needs)
  if (direct || (!small && threshold >= ((size_t)1 << 29))) {
    std::vector<size_t> want;
    size_t before;
    {
      sim::Quiet q;
      before = segs.size();
      for (auto& [p, s] : segs)
        for (int b = 40; b >= min_order; b--)
          if (s.n & ((size_t)1 << b)) want.push_back((size_t)1 << b);
      std::sort(want.rbegin(), want.rend());
    }
    std::vector<std::shared_ptr<Storage>> all;
    for (auto n : want) {
      auto s = std::make_shared<Storage>();
      s->size_ = n;
      s->custom_32bit_uuid_ = next_id++;
      get(s.get());
      all.push_back(s);
      sim::Quiet q;
      if (segs.size() > before) {
        sim::violation("mem-lost", "after everything was freed, %zu bytes can no longer be allocated from the pool's %zu segments", n, before);
        break;
      }
      sim::probe("segment whole again");
    }
    for (auto& s : all) put(s.get());
  }
  if (direct) pool.reset();
  else mm.reset();
  sim::Quiet q;
  for (auto& [p, s] : segs)
    if (!s.freed) sim::violation("mem-return", "a segment of %zu bytes is not returned to the system", s.n);
  if (!direct_blocks.empty()) sim::violation("mem-return", "%zu large blocks are not returned to the system", direct_blocks.size());
}

Register r("buddy", [](const json& p) {
  n_threads = p["threads"];
  direct = p["direct"];
  small = p["small"];
  cap = p["cap"];
  min_order = p["min_order"];
  max_order = p["max_order"];
  threshold = p.value("threshold", (size_t)1 << 40);
  for (auto& x : p["cached"]) cached.push_back(x);
  for (auto& l : p["lists"]) {
    cache_lists.emplace_back();
    for (auto& x : l) cache_lists.back().push_back(x);
  }
  if (cache_lists.empty()) cache_lists.emplace_back();
  ops.resize(n_threads);
  for (auto& o : p["ops"]) {
    Op x{o["t"], o["k"], o.value("slot", 0), o.value("size", (size_t)0), o.value("c", 0)};
    ops[x.t % n_threads].push_back(x);
  }
  sim::deadlock_class = "mem-hang";
  sim::hang_class = "mem-hang";
  sim::race_class = "mem-race";
  sim::memory_class = "mem-memory";
  sim::crash_class = "mem-crash";
  // a failing system allocator, or a request beyond the largest block, may end the process with an error report
  sim::on_exit = [](const char* how, int) { return (failing || too_big) && !strcmp(how, "abort"); };
}, run);
}  // namespace

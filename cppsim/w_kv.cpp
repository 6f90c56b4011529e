// N04: histories of the real native KV storage with restarts, crashes and failing storage operations.
#include <filesystem>
#include <map>
#include <set>
#include <thread>
#include "mllm/backends/cpu/CPUAllocator.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/engine/prefix_cache/Allocator.hpp"
#include "mllm/engine/prefix_cache/Cache.hpp"
#include "mllm/engine/prefix_cache/ZenFS.hpp"
#include "work.h"
using nlohmann::json;
using namespace mllm;
using namespace mllm::prefix_cache;
namespace {
struct Op { int kind; uint32_t pick; };
ZenFileSystemOptions opt;
int via;
std::vector<Op> ops;
size_t unit, lanes;

// --- what must hold
std::map<vp_addr_t, uint32_t> live;         // address -> generation of its content
std::map<vp_addr_t, uint32_t> committed;    // content that a completed finalize promised
std::set<vp_addr_t> touched;                // freed or rewritten since
std::set<uint32_t> blobs;                   // blobs seen
bool exact = true, any_commit = false, finalizing = false, recovering = false, gave_up = false;
uint32_t gen = 1;
int life = 0;
int crash_after = -1;                       // file operations until the process ends

unsigned char pat(vp_addr_t a, uint32_t g, size_t i) { return (unsigned char)(a * 131 + g * 29 + i * 7 + 1); }

struct Store {
  ZenFileSystem fs;
  std::unique_ptr<PrefixCacheAllocator> al;
  std::unique_ptr<Cache> cache;
  void start() {
    if (via == 0) fs.initialize(opt);
    else {
      PrefixCacheAllocatorOptions o;
      o.zen_fs_options = opt;
      if (via == 1) al = std::make_unique<PrefixCacheAllocator>(o);
      else cache = std::make_unique<Cache>(CacheOptions{.allocator_options = o});
    }
  }
  vp_addr_t alloc() { return via == 0 ? fs.malloc() : via == 1 ? al->alloc(kCPU) : cache->alloc(kCPU); }
  void free(vp_addr_t a) { via == 0 ? fs.free(a) : via == 1 ? al->free(kCPU, a) : cache->free(kCPU, a); }
  char* at(vp_addr_t a) { return via == 0 ? fs.access(a) : via == 1 ? al->physicalAddr(a) : cache->physicalAddr(a); }
  void prefetch(vp_addr_t a) { via == 0 ? fs.hintsPrefetch(a) : via == 1 ? al->prefetch(kCPU, a) : cache->prefetch(kCPU, a); }
  void purge(vp_addr_t a) { via == 0 ? fs.hintsPurge(a) : via == 1 ? al->purge(kCPU, a) : cache->purge(kCPU, a); }
};

void write(Store& s, vp_addr_t a) {
  uint32_t g;
  {
    sim::Quiet q;
    g = gen++;
    live[a] = g;
    touched.insert(a);
  }
  char* p = s.at(a);
  for (size_t i = 0; i < unit; i++) p[i] = (char)pat(a, g, i);
}

bool check(Store& s, vp_addr_t a, uint32_t g, const char* when) {
  char* p = s.at(a);
  {
    sim::Quiet q;
    if (!p) { sim::violation("kv-content", "the live address %x refers to no memory %s", a, when); return false; }
    if (!sim::live(p, unit)) { sim::violation("kv-alias", "the memory of live address %x lies outside its blob %s", a, when); return false; }
  }
  size_t bad = unit;
  for (size_t i = 0; i < unit; i++)
    if ((unsigned char)p[i] != pat(a, g, i)) { bad = i; break; }
  sim::Quiet q;
  if (bad < unit) { sim::violation("kv-content", "byte %zu of %zu at live address %x changed %s", bad, unit, a, when); return false; }
  return true;
}

void overlap(Store& s) {
  std::map<char*, vp_addr_t> m;
  for (auto& [a, g] : live) {
    char* p = s.at(a);
    sim::Quiet q;
    auto it = m.lower_bound(p);
    if (it != m.end() && it->first < p + unit) { sim::violation("kv-alias", "live addresses %x and %x share memory", a, it->second); return; }
    if (it != m.begin()) {
      --it;
      if (it->first + unit > p) { sim::violation("kv-alias", "live addresses %x and %x share memory", a, it->second); return; }
    }
    m[p] = a;
  }
}

void one_alloc(Store& s) {
  vp_addr_t a = s.alloc();
  char* p = s.at(a);
  {
    sim::Quiet q;
    sim::event("alloc %x", a);
    sim::mix(a);
    if (live.count(a)) { sim::violation("kv-alias", "the address %x was handed out while it is in use", a); sim::finish("alias"); }
    if (!p) { sim::violation("kv-content", "the address %x refers to no memory", a); sim::finish("null"); }
    if (!sim::live(p, unit)) { sim::violation("kv-alias", "the memory of address %x lies outside its blob", a); sim::finish("outside"); }
    for (auto& [b, g] : live) (void)b;
    uint32_t blob = a / lanes;
    if (blob >= (1u << 31) / lanes) sim::violation("kv-alias", "the address %x is out of range", a);
    if (!blobs.count(blob)) {
      if (exact && live.size() < blobs.size() * lanes)
        sim::violation("kv-lost", "a new blob is made although only %zu of %zu addresses are in use", live.size(), blobs.size() * lanes);
      if (!blobs.empty()) sim::probe("further blob");
      blobs.insert(blob);
    }
  }
  for (auto it = live.begin(); it != live.end(); ++it) {
    char* r = s.at(it->first);
    sim::Quiet q;
    if (r < p + unit && p < r + unit) { sim::violation("kv-alias", "the new address %x shares memory with live address %x", a, it->first); sim::finish("alias"); }
  }
  write(s, a);
  check(s, a, live[a], "right after writing");
}

vp_addr_t nth(uint32_t k) {
  auto it = live.begin();
  std::advance(it, k % live.size());
  return it->first;
}

std::string dir_of(int l) { return "z" + std::to_string(l); }

void die(const char* why) {
  // the process ends here: only what is on disk remains
  {
    sim::Quiet q;
    sim::fault(why);
    sim::event("life %d ends: %s", life, why);
    namespace f = std::filesystem;
    std::error_code ec;
    f::remove_all(dir_of(life + 1), ec);
    f::copy(dir_of(life), dir_of(life + 1), f::copy_options::recursive, ec);
    gave_up = true;
    sim::io.armed = false;
    sim::io_on_op = nullptr;
  }
  sim::hb_release(&gave_up);
  sim::wait_until([] { return false; });
}

int at_op = 0, maps0 = 0, fds0 = 0;
void run_life(bool recover) {
  Store* s = new Store();
  {
    sim::Quiet q;
    opt.working_dir = dir_of(life);
    maps0 = sim::io_open_maps();
    fds0 = sim::io_open_fds();
    if (crash_after >= 0) {
      at_op = 0;
      sim::io_on_op = [] {
        if (at_op++ == crash_after) { crash_after = -1; die("process ends at a file operation"); }
      };
    }
  }
  if (recover) {
    { sim::Quiet q; recovering = true; }
    s->fs.recover(dir_of(life));
    sim::Quiet q;
    recovering = false;
    sim::probe("recovered");
    sim::event("recovered");
    blobs.clear();
    blobs.insert(0);
  } else {
    s->start();
    blobs.insert(0);
  }
  for (auto it = live.begin(); it != live.end();) {   // promised by the life before
    auto cur = *it++;
    if (!check(*s, cur.first, cur.second, "by the restart")) sim::finish("content");
    sim::Quiet q;
    blobs.insert(cur.first / lanes);
  }
  { sim::Quiet q; sim::io.armed = true; }
  while (!ops.empty()) {
    Op o = ops.front();
    ops.erase(ops.begin());
    if (o.kind == 0) one_alloc(*s);
    else if (o.kind == 6) {           // finalize
      if (via != 0) continue;
      { sim::Quiet q; finalizing = true; sim::event("finalize"); }
      s->fs.finalize();
      sim::Quiet q;
      finalizing = false;
      if (opt.record) { committed = live; touched.clear(); any_commit = true; sim::probe("finalized"); }
    } else if (o.kind == 7) {         // orderly restart
      if (via != 0 || !opt.record) continue;
      { sim::Quiet q; finalizing = true; sim::event("finalize and restart"); }
      s->fs.finalize();
      {
        sim::Quiet q;
        finalizing = false;
        committed = live;
        touched.clear();
        any_commit = true;
      }
      delete s;
      s = new Store();
      { sim::Quiet q; recovering = true; sim::io.armed = false; }
      s->fs.recover(dir_of(life));
      { sim::Quiet q; recovering = false; sim::probe("restarted"); sim::io.armed = true; }
      for (auto& [a, g] : live)
        if (!check(*s, a, g, "by the restart")) sim::finish("content");
    } else if (o.kind == 8) {         // the process ends
      if (via != 0 || !opt.record) continue;
      die("process ends");
    } else if (live.empty()) continue;
    else {
      vp_addr_t a = nth(o.pick);
      if (o.kind == 1) {
        check(*s, a, live[a], "when freed");
        s->free(a);
        sim::Quiet q;
        live.erase(a);
        touched.insert(a);
        sim::event("free %x", a);
      } else if (o.kind == 2) check(*s, a, live[a], "in use");
      else if (o.kind == 3) s->prefetch(a);
      else if (o.kind == 4) { s->purge(a); sim::event("purge %x", a); sim::probe("purged"); }
      else if (o.kind == 5) { check(*s, a, live[a], "before rewriting"); write(*s, a); }
    }
  }
  overlap(*s);
  for (auto& [a, g] : live) check(*s, a, g, "at the end");
  // everything can be freed and handed out again
  std::vector<vp_addr_t> all;
  for (auto& [a, g] : live) all.push_back(a);
  for (auto a : all) {
    s->free(a);
    sim::Quiet q;
    live.erase(a);
  }
  if (exact && blobs.size() * lanes <= 600) {
    size_t n = blobs.size() * lanes;
    for (size_t i = 0; i < n; i++) one_alloc(*s);
    for (auto& [a, g] : live) check(*s, a, g, "when all are in use");
  }
  { sim::Quiet q; sim::io.armed = false; sim::io_on_op = nullptr; }
  delete s;
  sim::Quiet q;
  if (sim::io_open_maps() != maps0) sim::violation("kv-return", "%d maps are left over", sim::io_open_maps() - maps0);
  if (sim::io_open_fds() != fds0) sim::violation("kv-return", "%d open files are left over", sim::io_open_fds() - fds0);
  namespace f = std::filesystem;
  if (!opt.record && f::exists(dir_of(life)) && !f::is_empty(dir_of(life))) sim::violation("kv-return", "temporary files are left over");
}

void run() {
  auto& ctx = Context::instance();
  ctx.memory_manager_ = std::make_shared<MemoryManager>();
  MemoryManagerOptions m;
  m.really_large_tensor_threshold = 0;
  m.buddy_mem_pool_options.buddy_first_segment_cap = 4096;
  m.buddy_mem_pool_options.buddy_min_order = 10;
  m.buddy_mem_pool_options.buddy_max_order = 12;
  ctx.memory_manager_->registerAllocator(kCPU, std::make_shared<cpu::CPUAllocator>(), m);
  {
    sim::Quiet q;
    std::filesystem::create_directory(dir_of(0));
  }
  for (;;) {
    bool done = false;
    bool rec = life > 0 && any_commit;
    std::thread t([&done, rec] {
      run_life(rec);
      sim::hb_release(&gave_up);
      sim::Quiet q;
      done = true;
    });
    t.detach();
    sim::wait_until([&] { return done || gave_up; });
    sim::hb_acquire(&gave_up);
    sim::Quiet q;
    if (done) break;
    gave_up = false;
    life++;
    crash_after = -1;
    exact = false;
    if (!any_commit) {
      // nothing was promised: start afresh in a new directory
      std::filesystem::remove_all(dir_of(life));
      std::filesystem::create_directory(dir_of(life));
      live.clear();
      blobs.clear();
      exact = true;
    } else {
      for (auto a : touched) committed.erase(a);
      live = committed;
      touched.clear();
    }
  }
  sim::finish("done");
}

Register r("kv", [](const json& p) {
  opt.page_bits = p["page_bits"];
  opt.lane_bits = p["lane_bits"];
  opt.per_k_token_ele = opt.per_v_token_ele = p["ele"];
  opt.k_dtype = opt.v_dtype = (DataTypes)p["dtype"].get<int>();
  opt.mmap_type = (ZenFSBlobMMapType)p["mmap"].get<int>();
  opt.record = p["record"].get<int>();
  via = p["via"];
  crash_after = p.value("crash", -1);
  lanes = (size_t)1 << (opt.page_bits + opt.lane_bits);
  unit = bytesOfType(opt.k_dtype) * opt.per_k_token_ele / lanesOfType(opt.k_dtype);
  for (auto& o : p["ops"]) ops.push_back(Op{o["k"], o.value("n", 0u)});
  sim::deadlock_class = "kv-hang";
  sim::hang_class = "kv-hang";
  sim::race_class = "kv-race";
  sim::memory_class = "kv-memory";
  sim::crash_class = "kv-crash";
  sim::on_exit = [](const char* how, int) {
    if (strcmp(how, "abort")) return false;
    if (recovering) {
      sim::violation("kv-content", "storage that was recorded completely is refused after the restart");
      return true;
    }
    if (!sim::io_failed()) return false;
    if (opt.record && any_commit && life < 3) die("process gives up after a failing file operation");
    return true;
  };
}, run);
}  // namespace

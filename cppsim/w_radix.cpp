// N05: histories of the real native prefix tree and the prefix caches over it, with several users at a time.
#include <filesystem>
#include <map>
#include <set>
#include <thread>
#include "mllm/backends/cpu/CPUAllocator.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/engine/prefix_cache/Cache.hpp"
#include "mllm/engine/prefix_cache/RadixTree.hpp"
#include "mllm/nn/lmcache/PrefixCache.hpp"
#include "work.h"
using nlohmann::json;
using namespace mllm;
using namespace mllm::prefix_cache;
namespace {
typedef std::vector<int64_t> Ids;
struct Op { int kind, user; int64_t ns; Ids ids; };
int mode, layers, window = 0;
std::vector<bool> sliding;
std::vector<Op> ops;
size_t unit = 16;

std::unique_ptr<RadixTree> tree;
std::unique_ptr<Cache> cache;
std::unique_ptr<nn::CpuPrefixCache> pc;

// --- what must hold: every stored position (namespace, leading tokens) has fixed addresses
struct Slot { std::vector<vp_addr_t> k, v; };
std::map<std::pair<int64_t, Ids>, Slot> model;
struct Mem { uint32_t gen; };
std::map<std::pair<int, vp_addr_t>, uint32_t> held;     // (2*layer+isvalue, address) -> content generation; allocator modes only
uint32_t gen = 1;
vp_addr_t fresh = 1;

unsigned char pat(int w, vp_addr_t a, uint32_t g, size_t i) { return (unsigned char)(a * 131 + g * 29 + i * 7 + w * 17 + 1); }
bool owns() { return mode >= 1; }
int wof(int layer, bool v) { return mode == 1 ? 0 : 2 * layer + v; }    // one allocator for everything in mode 1

vp_addr_t alloc(int layer, bool v) {
  if (mode == 0) { sim::Quiet q; return fresh++; }
  vp_addr_t a = mode == 1 ? cache->alloc(kCPU) : v ? pc->allocValue(layer) : pc->allocKey(layer);
  char* p = mode == 1 ? cache->physicalAddr(a) : v ? pc->physicalAddrValue(layer, a) : pc->physicalAddrKey(layer, a);
  uint32_t g;
  {
    sim::Quiet q;
    if (a == INVALID_VP_ADDR) sim::violation("tree-storage", "an allocation gives the invalid address");
    if (held.count({wof(layer, v), a})) { sim::violation("tree-storage", "the address %x is handed out while it is in use", a); sim::finish("alias"); }
    if (!p || !sim::live(p, unit)) { sim::violation("tree-storage", "the address %x refers to no memory", a); sim::finish("null"); }
    g = gen++;
    held[{wof(layer, v), a}] = g;
    sim::mix(a);
  }
  for (size_t i = 0; i < unit; i++) p[i] = (char)pat(wof(layer, v), a, g, i);
  return a;
}
bool intact(int layer, bool v, vp_addr_t a, const char* when) {
  if (!owns() || a == INVALID_VP_ADDR) return true;
  uint32_t g;
  {
    sim::Quiet q;
    auto it = held.find({wof(layer, v), a});
    if (it == held.end()) { sim::violation("tree-storage", "the harness lost address %x", a); return false; }
    g = it->second;
  }
  char* p = mode == 1 ? cache->physicalAddr(a) : v ? pc->physicalAddrValue(layer, a) : pc->physicalAddrKey(layer, a);
  for (size_t i = 0; i < unit; i++)
    if ((unsigned char)p[i] != pat(wof(layer, v), a, g, i)) {
      sim::violation("tree-storage", "the data of layer %d at address %x changed %s", layer, a, when);
      return false;
    }
  return true;
}
void release(int layer, bool v, vp_addr_t a) {
  if (a == INVALID_VP_ADDR || !owns()) return;
  intact(layer, v, a, "when freed");
  if (mode == 1) cache->free(kCPU, a);
  else if (v) pc->freeValue(layer, a);
  else pc->freeKey(layer, a);
  sim::Quiet q;
  held.erase({wof(layer, v), a});
}

RadixSearchResult lookup(const Ids& ids, int64_t ns) {
  if (mode == 0) return tree->search(RadixTreeNodeKey(VectorView<int64_t>(ids), ns));
  if (mode == 1) return cache->find(ids, ns);
  return pc->find(ids, ns);
}

std::string show(const Ids& ids, int64_t ns) {
  std::string s = "[";
  for (auto t : ids) s += (s.size() > 1 ? " " : "") + std::to_string(t);
  return s + "]" + (ns ? " of namespace " + std::to_string(ns) : "");
}

// compare one search with the model
RadixSearchResult find(const Ids& ids, int64_t ns, const char* when) {
  auto r = lookup(ids, ns);
  sim::Quiet q;
  size_t want = 0;
  Ids pre;
  std::vector<const Slot*> slots;
  for (auto t : ids) {
    pre.push_back(t);
    auto it = model.find({ns, pre});
    if (it == model.end()) break;
    slots.push_back(&it->second);
    want++;
  }
  auto s = show(ids, ns);
  if ((size_t)r.matched_length < want)
    sim::violation("tree-lost", "a search for %s %s finds %d leading tokens of the %zu stored", s.c_str(), when, r.matched_length, want);
  if ((size_t)r.matched_length > want)
    sim::violation("tree-wrong", "a search for %s %s finds %d leading tokens although only %zu are stored", s.c_str(), when, r.matched_length, want);
  if (r.success != (r.matched_length > 0)) sim::violation("tree-wrong", "a search for %s reports success=%d with %d tokens", s.c_str(), r.success, r.matched_length);
  if ((int)r.k_cache_addresses.size() != layers || (int)r.v_cache_addresses.size() != layers) {
    sim::violation("tree-wrong", "a search for %s gives addresses of %zu and %zu layers instead of %d", s.c_str(), r.k_cache_addresses.size(), r.v_cache_addresses.size(), layers);
    return r;
  }
  for (int l = 0; l < layers; l++)
    for (int v = 0; v < 2; v++) {
      auto& got = v ? r.v_cache_addresses[l] : r.k_cache_addresses[l];
      if (got.size() != (size_t)r.matched_length) {
        sim::violation("tree-wrong", "a search for %s matches %d tokens and gives %zu addresses", s.c_str(), r.matched_length, got.size());
        continue;
      }
      for (size_t i = 0; i < got.size() && i < slots.size(); i++) {
        vp_addr_t w = v ? slots[i]->v[l] : slots[i]->k[l];
        if (got[i] != w) {
          sim::violation("tree-wrong", "a search for %s %s gives %s address %x at position %zu of layer %d, stored was %x", s.c_str(), when, v ? "value" : "key", got[i], i, l, w);
          break;
        }
      }
    }
  if (want && want < ids.size()) sim::probe("partial match");
  if (want == ids.size() && want) sim::probe("full match");
  return r;
}

// --- users: search, take addresses for the rest, later store or drop them
struct User { bool busy = false; Ids ids; int64_t ns = 0; size_t have = 0; std::vector<Slot> mine; std::vector<Slot> all; };
std::map<int, User> users;

void drop(User& u) {
  for (auto& s : u.mine)
    for (int l = 0; l < layers; l++) { release(l, false, s.k[l]); release(l, true, s.v[l]); }
  u = User{};
}
void extend(User& u, const Ids& more) {
  for (auto t : more) {
    Slot s;
    for (int l = 0; l < layers; l++) { s.k.push_back(alloc(l, false)); s.v.push_back(alloc(l, true)); }
    u.ids.push_back(t);
    u.mine.push_back(s);
    u.all.push_back(s);
  }
}
void begin(User& u, const Ids& ids, int64_t ns) {
  if (u.busy) drop(u);
  auto r = find(ids, ns, "by a user");
  u.busy = true;
  u.ns = ns;
  for (int i = 0; i < r.matched_length; i++) {
    Slot s;
    for (int l = 0; l < layers; l++) { s.k.push_back(r.k_cache_addresses[l][i]); s.v.push_back(r.v_cache_addresses[l][i]); }
    u.all.push_back(s);
  }
  u.ids.assign(ids.begin(), ids.begin() + r.matched_length);
  u.have = r.matched_length;
  extend(u, Ids(ids.begin() + r.matched_length, ids.end()));
}
void store(User& u) {
  std::vector<std::vector<vp_addr_t>> k(layers), v(layers);
  for (auto& s : u.all)
    for (int l = 0; l < layers; l++) { k[l].push_back(s.k[l]); v[l].push_back(s.v[l]); }
  {
    // the caller's containers do not outlive the call
    Ids ids = u.ids;
    if (mode == 0) {
      RadixTreeNodeValue val;
      for (int l = 0; l < layers; l++) { val.k_cache_addresses.emplace_back(k[l]); val.v_cache_addresses.emplace_back(v[l]); }
      if (!tree->insert(RadixTreeNodeKey(VectorView<int64_t>(ids), u.ns), val)) sim::violation("tree-lost", "an insert is refused");
    } else if (mode == 1) cache->promote(ids, k, v, u.ns);
    else pc->promote(ids, k, v, u.ns);
    sim::Quiet q;
    for (auto& x : ids) x = -77;
    for (auto& x : k) for (auto& y : x) y = 0xdead;
    for (auto& x : v) for (auto& y : x) y = 0xdead;
  }
  size_t n = u.ids.size(), had = 0;
  Ids pre;
  std::vector<std::pair<Slot, bool>> back;
  {
    sim::Quiet q;
    for (size_t i = 0; i < n; i++) {
      pre.push_back(u.ids[i]);
      bool in = model.count({u.ns, pre});
      if (!in) model[{u.ns, pre}] = u.all[i];
      else if (i >= u.have) { back.push_back({u.all[i], true}); had++; }
    }
    if (had) sim::probe("stored twice");
    sim::event("store %s", show(u.ids, u.ns).c_str());
  }
  for (auto& [s, b] : back)   // another user stored these first: its addresses count, ours go back
    for (int l = 0; l < layers; l++) { release(l, false, s.k[l]); release(l, true, s.v[l]); }
  u = User{};
}

void evict(const Ids& ids, int64_t ns) {
  sim::event("evict on %s", show(ids, ns).c_str());
  pc->evictSlidingWindowLayerOn(ids, ns);
  sim::Quiet q;
  size_t m = 0;
  Ids pre;
  for (auto t : ids) {
    pre.push_back(t);
    if (!model.count({ns, pre})) break;
    m++;
  }
  if ((int)ids.size() <= window || (int)m <= window) return;
  pre.clear();
  for (size_t i = 0; i + window < m; i++) {
    pre.push_back(ids[i]);
    auto& s = model[{ns, pre}];
    for (int l = 0; l < layers; l++)
      if (sliding[l]) {
        if (s.k[l] != INVALID_VP_ADDR) { held.erase({wof(l, false), s.k[l]}); sim::probe("slid out"); }
        if (s.v[l] != INVALID_VP_ADDR) held.erase({wof(l, true), s.v[l]});
        s.k[l] = s.v[l] = INVALID_VP_ADDR;
      }
  }
}

void all(const char* when) {
  std::vector<std::pair<int64_t, Ids>> keys;
  {
    sim::Quiet q;
    for (auto& [k, s] : model) keys.push_back(k);
  }
  for (auto& k : keys) find(k.second, k.first, when);
  for (auto& [k, s] : model)
    for (int l = 0; l < layers; l++)
      if (!intact(l, false, s.k[l], when) || !intact(l, true, s.v[l], when)) sim::finish("content");
}

void run() {
  auto& ctx = Context::instance();
  ctx.memory_manager_ = std::make_shared<MemoryManager>();
  MemoryManagerOptions m;
  m.really_large_tensor_threshold = 0;
  m.buddy_mem_pool_options.buddy_first_segment_cap = 4096;
  m.buddy_mem_pool_options.buddy_min_order = 10;
  m.buddy_mem_pool_options.buddy_max_order = 12;
  ctx.memory_manager_->registerAllocator(kCPU, std::make_shared<cpu::CPUAllocator>(), m);
  RadixTreeOptions ro;
  ro.transformer_blocks_num = layers;
  if (mode == 0) tree = std::make_unique<RadixTree>(ro);
  else if (mode == 1) {
    CacheOptions o;
    o.radix_tree_options.transformer_blocks_num = layers;
    o.allocator_options.zen_fs_options.page_bits = 1;
    o.allocator_options.zen_fs_options.lane_bits = 2;
    o.allocator_options.zen_fs_options.per_k_token_ele = o.allocator_options.zen_fs_options.per_v_token_ele = unit / 4;
    o.allocator_options.zen_fs_options.k_dtype = o.allocator_options.zen_fs_options.v_dtype = kFloat32;
    o.allocator_options.zen_fs_options.mmap_type = ZenFSBlobMMapType::kAnonymous;
    cache = std::make_unique<Cache>(o);
  } else {
    nn::PrefixCacheOptions o;
    o.total_layers = layers;
    o.per_k_token_ele_num = o.per_v_token_ele_num = unit / 4;
    o.zen_fs_page_bits = 1;
    o.zen_fs_lane_bits = 2;
    o.zen_fs_blob_bits_size = 29;
    if (mode == 3) {
      o.hybrid_sliding_window_cache = true;
      o.sliding_window_size = window;
      o.sliding_window_layers = sliding;
    }
    pc = std::make_unique<nn::CpuPrefixCache>(o);
  }
  std::vector<std::unique_ptr<std::thread>> par;
  auto join = [&] {
    for (auto& t : par) t->join();
    par.clear();
  };
  for (auto& o : ops) {
    if (o.kind != 2) join();
    sim::event("op %d user %d %s", o.kind, o.user, show(o.ids, o.ns).c_str());
    auto& u = users[o.user];
    switch (o.kind) {
      case 0: begin(u, o.ids, o.ns); break;
      case 1: if (u.busy) store(u); break;
      case 2: {                               // a concurrent search
        const Op* p = &o;
        par.push_back(std::make_unique<std::thread>([p] { find(p->ids, p->ns, "while others search"); }));
        break;
      }
      case 3: find(o.ids, o.ns, "alone"); break;
      case 4: if (u.busy) drop(u); break;
      case 5: if (u.busy && u.ids.size() < 40) extend(u, o.ids); break;
      case 6:
        if (mode == 3) {
          // a user that still refers to what it found may not be evicted from under it
          for (auto& [i, x] : users) if (x.busy) drop(x);
          evict(o.ids, o.ns);
        }
        break;
      case 7:
        if (mode == 0) {
          for (auto& [i, x] : users) if (x.busy) drop(x);
          tree->clear();
          sim::Quiet q;
          model.clear();
          sim::probe("cleared");
        }
        break;
      case 8: all("in between"); break;
      case 9: if (u.busy) { begin(u, o.ids, o.ns); store(u); } break;
    }
  }
  join();
  for (auto& [i, x] : users) if (x.busy) drop(x);
  all("at the end");
  tree.reset();
  cache.reset();
  pc.reset();
  sim::finish("done");
}

Register r("radix", [](const json& p) {
  mode = p["mode"];
  layers = p["layers"];
  window = p.value("window", 0);
  for (auto& x : p.value("sliding", json::array())) sliding.push_back(x.get<int>() != 0);
  sliding.resize(layers);
  for (auto& o : p["ops"]) {
    Op x{o["k"], o.value("u", 0), o.value("ns", (int64_t)0), {}};
    for (auto& t : o.value("ids", json::array())) x.ids.push_back(t.get<int64_t>());
    ops.push_back(x);
  }
  sim::deadlock_class = "tree-hang";
  sim::hang_class = "tree-hang";
  sim::race_class = "tree-race";
  sim::memory_class = "tree-memory";
  sim::crash_class = "tree-crash";
}, run);
}  // namespace

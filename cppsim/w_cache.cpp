// N10: the native key/value caches of one sequence - appended to, rolled back, viewed, shared with a sub-cache and filled to their capacity.
#include <thread>
#include "mllm/mllm.hpp"
#include "mllm/backends/cpu/CPUAllocator.hpp"
#include "mllm/backends/cpu/ops/ConcatOp.hpp"
#include "mllm/backends/cpu/ops/GraphOps.hpp"
#include "mllm/backends/cpu/ops/KVCacheOp.hpp"
#include "mllm/backends/cpu/ops/RepeatOp.hpp"
#include "mllm/backends/cpu/ops/SliceOp.hpp"
#include "mllm/core/aops/FillOp.hpp"
#include "mllm/nn/layers/KVCache.hpp"
#include "mllm/nn/lmcache/DynamicCache.hpp"
#include "mllm/nn/lmcache/StaticCache.hpp"
#include "work.h"

extern "C" unsigned sim_pool_pick(unsigned n) { return n < 2 ? 0 : sim::choose(n); }

using nlohmann::json;
using namespace mllm;

namespace {
struct FillStub final : BaseOp {
  explicit FillStub(const aops::FillOpOptions&) : BaseOp(OpTypes::kFill) {}
  void trace(void*, const std::vector<Tensor>&, std::vector<Tensor>&) override {}
  void load(const ParameterFile::ptr_t&) override {}
  void setup(const std::vector<Tensor>&, std::vector<Tensor>&) override {}
  void reshape(const std::vector<Tensor>& in, std::vector<Tensor>& out) override { out.emplace_back(in[0]); }
  void forward(const std::vector<Tensor>& in, std::vector<Tensor>&) override {
    sim::Quiet q;
    memset(in[0].ptr<void>(), 0, in[0].bytes());
  }
};
class FillF final : public TypedOpFactory<OpTypes::kFill, aops::FillOpOptions> {
  std::shared_ptr<BaseOp> createOpImpl(const aops::FillOpOptions& o) override { return std::make_shared<FillStub>(o); }
};
class Host final : public Backend {
 public:
  Host() : Backend(kCPU, cpu::createCPUAllocator()) {
    regOpFactory<FillF, cpu::CPUSliceOpFactory, cpu::CPUConcatOpFactory, cpu::CPURepeatOpFactory, cpu::CPUKVCacheOpFactory, cpu::CPUGraphBeginOpFactory,
                 cpu::CPUGraphEndOpFactory>();
  }
};
void boot() {
  auto& ctx = Context::instance();
  auto b = std::make_shared<Host>();
  ctx.registerBackend(b);
  ctx.memoryManager()->registerAllocator(kCPU, b->allocator(), MemoryManagerOptions());
  ctx.dispatcherManager()->registerDispatcher(cpu::createCPUDispatcher(ctx.dispatcherManager()->getExecutor(), cpu::CPUDispatcherOptions()));
}

struct Layer1 final : nn::Module {
  nn::KVCache kv;
  Layer1(const std::string& n, int layer, int qh, int kvh, int d) : nn::Module(n), kv(reg<nn::KVCache>("kv", layer, qh, kvh, d, false)) {}
  std::vector<Tensor> forward(const std::vector<Tensor>& in, const std::vector<AnyValue>&) override {
    auto r = kv(in[0], in[1]);
    return {r[0], r[1]};
  }
};

struct Conf {
  std::string kind;
  int t, cap, layers, qh, kvh, d, bind;
  DataTypes kd, vd;
};
struct Op {
  int c, layer, n, start, view, hold;
  std::string act;
};
std::vector<Conf> confs;
std::vector<std::vector<Op>> owners;

DataTypes dtype(const std::string& s) { return s == "f16" ? kFloat16 : s == "i8" ? kInt8 : kFloat32; }

// Bytes of one element of the key (value) tensor written with a tag; nothing written yet is zero.
void element(int tag, int which, int head, int x, int es, uint8_t* b) {
  uint64_t h = 0;
  if (tag) {
    h = ((uint64_t)tag * 64 + which * 32 + head) * 64 + x + 1;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 31;
    h = h << 1 | 1;
  }
  memcpy(b, &h, es);
  if (tag && es == 4) b[3] &= 0x3f;     // no NaN
}

struct Held {
  std::array<Tensor, 2> kv;
  std::vector<int> tags;
  int layer, cnt;
};
struct Cache {
  const Conf* c;
  int id;
  std::unique_ptr<nn::StaticCache> st;
  std::unique_ptr<nn::DynamicCache> dy;
  std::vector<std::unique_ptr<Layer1>> layers;
  std::unique_ptr<nn::SubStaticCache> sub;
  int sub_start = 0, sub_len = 0;
  std::vector<int> sub_cnt;
  std::vector<std::vector<int>> buf;      // tag at every position of every layer
  std::vector<int> cnt;
  std::vector<Held> held;
};

void look(Cache& x, const char* what, Tensor& t, int which, const std::vector<int>& tags, bool seq_first, int heads) {
  sim::Quiet q;
  const Conf& c = *x.c;
  int es = which ? bytesOfType(c.vd) : bytesOfType(c.kd), n = (int)tags.size();
  std::vector<int> want = seq_first ? std::vector<int>{1, n, heads, c.d} : std::vector<int>{1, heads, n, c.d}, is;
  for (auto s : t.shape()) is.push_back(s);
  if (is != want) {
    std::string s;
    for (int v : is) s += std::to_string(v) + " ";
    sim::violation("cache-length", "cache %d (%s) %s: shape %s, %d positions of %d heads expected", x.id, c.kind.c_str(), what, s.c_str(), n, heads);
    return;
  }
  int rep = heads / c.kvh;
  for (int h = 0; h < heads; h++)
    for (int i = 0; i < n; i++)
      for (int d = 0; d < c.d; d++) {
        uint8_t w[8];
        element(tags[i], which, h / rep, d, es, w);
        auto* p = seq_first ? t.offsettedPtr<mllm_byte_t>({0, i, h, d}) : t.offsettedPtr<mllm_byte_t>({0, h, i, d});
        if (memcmp(p, w, es)) {
          sim::violation("cache-content", "cache %d (%s) %s: %s of head %d at position %d of %d is not what was stored there", x.id, c.kind.c_str(), what,
                         which ? "value" : "key", h, i, n);
          return;
        }
      }
}

std::vector<int> first(const std::vector<int>& v, int n, int from = 0) { return {v.begin() + from, v.begin() + from + n}; }

void view(Cache& x, const char* what, std::array<Tensor, 2>& kv, const std::vector<int>& tags) {
  bool sf = x.c->kind == "fa2";
  int heads = sf || x.c->kind == "dynfa2" ? x.c->kvh : x.c->qh;
  for (int w = 0; w < 2; w++) look(x, what, kv[w], w, tags, sf, heads);
}

void counts(Cache& x) {
  for (int l = 0; l < x.c->layers; l++) {
    int n = x.st ? x.st->getCurrentSeqCnt(l) : !x.layers.empty() ? x.layers[l]->kv.getCurrentSeqCnt() : l == 0 ? x.dy->getCurrentSeqCnt() : x.cnt[l];
    if (n != x.cnt[l]) sim::violation("cache-length", "cache %d (%s) layer %d says it holds %d positions, it holds %d", x.id, x.c->kind.c_str(), l, n, x.cnt[l]);
    if (x.sub && x.sub->getCurrentSeqCnt(l) != x.sub_cnt[l])
      sim::violation("cache-length", "the sub-cache of cache %d layer %d says it holds %d positions, it holds %d", x.id, l, x.sub->getCurrentSeqCnt(l), x.sub_cnt[l]);
  }
}

void whole(Cache& x) {
  for (auto& h : x.held) {
    bool dyn = (bool)x.dy;
    view(x, "a view taken earlier", h.kv, dyn ? h.tags : first(x.buf[h.layer], h.cnt));
  }
  if (!x.st) return;
  for (int l = 0; l < x.c->layers; l++) {
    std::array<Tensor, 2> b = {x.st->getKCacheBuffer(l), x.st->getVCacheBuffer(l)};
    view(x, "its whole store", b, x.buf[l]);
  }
}

Tensor tensor(const Conf& c, int which, int n, int tag, bool part) {
  int pre = part ? 1 + tag % 2 : 0, post = part ? tag % 3 : 0;
  DataTypes dt = which ? c.vd : c.kd;
  Tensor t = Tensor::empty({1, c.kvh, pre + n + post, c.d}, dt, kCPU).alloc();
  {
    sim::Quiet q;
    memset(t.ptr<void>(), 0x33, t.bytes());
    for (int h = 0; h < c.kvh; h++)
      for (int i = 0; i < n; i++)
        for (int d = 0; d < c.d; d++) element(tag + i, which, h, d, bytesOfType(dt), (uint8_t*)t.offsettedPtr<mllm_byte_t>({0, h, pre + i, d}));
  }
  if (!part) return t;
  sim::probe("stored from part of a tensor");
  return t[{kAll, kAll, {pre, pre + n}, kAll}];
}

void build(Cache& x) {
  auto& c = *x.c;
  bool dyn = c.kind == "dyn" || c.kind == "dynfa2";
  if (c.kind == "eager" || c.kind == "fa2" || (c.kind == "op" && c.bind))
    x.st = std::make_unique<nn::StaticCache>(c.cap, c.layers, c.qh, c.kvh, c.d, c.kd, c.vd, kCPU, c.kind == "fa2");
  if (dyn) x.dy = std::make_unique<nn::DynamicCache>(c.layers, c.qh, c.kvh, c.d, c.kind == "dynfa2");
  if (c.kind == "op")
    for (int l = 0; l < c.layers; l++) {
      x.layers.push_back(std::make_unique<Layer1>("c" + std::to_string(x.id) + "_" + std::to_string(l), l, c.qh, c.kvh, c.d));
      if (c.bind) x.layers.back()->kv.setStaticCache(x.st.get());
    }
  x.buf.assign(c.layers, std::vector<int>(dyn ? 0 : c.cap));
  x.cnt.assign(c.layers, 0);
}

int next_tag;

void step(Cache& x, const Op& o) {
  auto& c = *x.c;
  int l = o.layer % c.layers;
  int tag;
  { sim::Quiet q; tag = next_tag + 1; next_tag += o.n; }
  sim::event("cache %d %s layer %d n %d", x.id, o.act.c_str(), l, o.n);
  if (o.act == "append" || o.act == "sub") {
    bool sub = o.act == "sub";
    if (sub && !x.sub) return;
    int at = sub ? x.sub_start + x.sub_cnt[l] : x.cnt[l];
    bool room = x.dy || at + o.n <= c.cap;
    std::array<Tensor, 2> kv;
    bool refused = false;
    try {
      if (c.kind == "fa2") {
        kv = x.st->preGetKVWriteLocation(l, o.n);
        sim::yield();
        sim::Quiet q;
        if (room)
          for (int w = 0; w < 2; w++) {
            auto s = kv[w].shape();
            if (s.size() != 3 || s[1] != o.n || s[2] != c.kvh * c.d) sim::violation("cache-length", "cache %d: the place to write %d positions has another shape", x.id, o.n);
            else
              for (int i = 0; i < o.n; i++)
                for (int h = 0; h < c.kvh; h++)
                  for (int d = 0; d < c.d; d++) element(tag + i, w, h, d, bytesOfType(w ? c.vd : c.kd), (uint8_t*)kv[w].offsettedPtr<mllm_byte_t>({0, i, h * c.d + d}));
          }
      } else {
        Tensor k = tensor(c, 0, o.n, tag, o.view && !x.dy), v = tensor(c, 1, o.n, tag, o.view && !x.dy);
        if (sub) kv = x.sub->updateKVCache(l, k, v);
        else if (c.kind == "op") {
          auto r = (*x.layers[l])(k, v);
          if (r.size() != 2) { sim::violation("cache-length", "cache %d: the operator returned %zu tensors", x.id, r.size()); return; }
          kv[0] = r[0];
          kv[1] = r[1];
        } else if (x.st) kv = x.st->updateKVCache(l, k, v);
        else kv = x.dy->updateKVCache(l, k, v);
      }
    } catch (std::exception& e) { refused = true; }
    if (refused == room) {
      if (room) sim::violation("cache-refused", "cache %d (%s): %d positions behind %d were refused, its capacity is %d", x.id, c.kind.c_str(), o.n, at, c.cap);
      else sim::violation("cache-overrun", "cache %d (%s%s): %d positions were stored behind %d, its capacity is %d", x.id, c.kind.c_str(), sub ? ", sub" : "", o.n, at, c.cap);
      sim::finish("refused");
    }
    if (refused) {
      sim::probe("over capacity refused");
      whole(x);
      counts(x);
      return;
    }
    if (at + o.n == c.cap) sim::probe("filled to capacity");
    {
      sim::Quiet q;
      if (x.dy) x.buf[l].resize(at + o.n);
      for (int i = 0; i < o.n; i++) x.buf[l][at + i] = tag + i;
      (sub ? x.sub_cnt : x.cnt)[l] += o.n;
    }
    if (c.kind != "fa2") {
      if (sub) {
        sim::probe("stored through a sub-cache");
        view(x, "returned by the sub-cache", kv, first(x.buf[l], x.sub_cnt[l], x.sub_start));
      } else {
        view(x, "returned", kv, first(x.buf[l], x.cnt[l]));
        if (o.hold && (c.kind == "eager" || x.dy)) {
          sim::Quiet q;
          x.held.push_back({kv, first(x.buf[l], x.cnt[l]), l, x.cnt[l]});
          if (x.held.size() > 3) x.held.erase(x.held.begin());
        }
      }
    }
  } else if (o.act == "get" && x.st) {
    auto kv = x.st->getKVCache(l);
    view(x, "read", kv, first(x.buf[l], x.cnt[l]));
  } else if (o.act == "set" && !x.dy) {
    int n = std::min(o.n, c.cap);
    if (x.layers.empty()) x.st->setCurrentSeqCnt(n);
    else if (c.bind) x.layers[l]->kv.setCurrentSeqCnt(n);
    else
      for (auto& y : x.layers) y->kv.setCurrentSeqCnt(n);
    sim::probe("rolled back");
    for (auto& k : x.cnt) k = n;
  } else if (o.act == "clear" && !x.dy) {
    if (x.layers.empty()) x.st->clearCache();
    else if (c.bind) x.layers[l]->kv.clearCache();
    else
      for (auto& y : x.layers) y->kv.clearCache();
    for (auto& k : x.cnt) k = 0;
  } else if (o.act == "open" && c.kind == "eager") {
    x.sub_start = o.start % c.cap;
    x.sub_len = std::min(o.n, c.cap - x.sub_start);
    x.sub = std::make_unique<nn::SubStaticCache>(*x.st, x.sub_start, x.sub_len);
    x.sub_cnt.assign(c.layers, x.sub_len);
  } else if (o.act == "subclear" && x.sub) {
    x.sub->clearCache();
    x.sub_cnt.assign(c.layers, x.sub_len);
  }
  counts(x);
}

void owner(int t) {
  std::vector<std::unique_ptr<Cache>> cs;
  for (size_t i = 0; i < confs.size(); i++) {
    cs.push_back(std::make_unique<Cache>());
    cs[i]->c = &confs[i];
    cs[i]->id = (int)i;
    if (confs[i].t == t) build(*cs[i]);
  }
  for (auto& o : owners[t])
    if (o.c < (int)confs.size() && confs[o.c].t == t) step(*cs[o.c], o);
  for (auto& c : cs)
    if (c->c->t == t) {
      whole(*c);
      counts(*c);
    }
}

void run() {
  boot();
  std::vector<std::thread> ts;
  for (size_t i = 0; i < owners.size(); i++) ts.emplace_back(owner, (int)i);
  for (auto& t : ts) t.join();
}

Register r("cache", [](const json& p) {
  int nt = 1;
  for (auto& o : p["caches"]) {
    Conf c;
    c.kind = o["kind"];
    c.t = o["t"];
    c.cap = o["cap"];
    c.layers = o["layers"];
    c.qh = o["qh"];
    c.kvh = o["kvh"];
    c.d = o["d"];
    c.bind = o.value("bind", 0);
    c.kd = dtype(o["kd"]);
    c.vd = dtype(o["vd"]);
    nt = std::max(nt, c.t + 1);
    confs.push_back(c);
  }
  owners.resize(nt);
  for (auto& o : p["ops"]) {
    Op x;
    x.c = o["c"];
    x.act = o["act"];
    x.layer = o.value("layer", 0);
    x.n = o.value("n", 1);
    x.start = o.value("start", 0);
    x.view = o.value("view", 0);
    x.hold = o.value("hold", 0);
    if (x.c < (int)confs.size()) owners[confs[x.c].t].push_back(x);
  }
  sim::deadlock_class = sim::hang_class = "cache-hang";
  sim::race_class = "cache-race";
  sim::memory_class = "cache-memory";
  sim::crash_class = "cache-crash";
}, run);
}  // namespace

// N09: token generation by the native engine - streams of several models and conversations, their random draws decided by the simulator.
// N10: the native key/value caches of one sequence - appended, rolled back, viewed, shared and filled to their capacity.
#include <cmath>
#include <optional>
#include <random>
#include <thread>
#include "mllm/mllm.hpp"
#include "mllm/backends/cpu/CPUAllocator.hpp"
#include "mllm/backends/cpu/ops/ConcatOp.hpp"
#include "mllm/backends/cpu/ops/RepeatOp.hpp"
#include "mllm/backends/cpu/ops/SliceOp.hpp"
#include "mllm/core/aops/ElewiseOps.hpp"
#include "mllm/core/aops/FillOp.hpp"
#include "mllm/core/aops/SoftmaxOp.hpp"
#include "mllm/models/ARGeneration.hpp"
#include "mllm/nn/lmcache/DynamicCache.hpp"
#include "mllm/nn/lmcache/StaticCache.hpp"
#include "work.h"

extern "C" unsigned sim_pool_pick(unsigned n) { return n < 2 ? 0 : sim::choose(n); }

using nlohmann::json;
using namespace mllm;
using namespace mllm::models;

namespace {
double adverse;
// seeds of the standard generator whose first draw is as close to one (zero) as it gets
const uint32_t kHigh[] = {467081101u, 272838000u, 2533497802u, 20675268u, 2018340605u, 23330562u, 784391234u, 310537330u, 1555482224u, 1792903164u, 1669190779u, 3565058634u, 740192497u, 3216529998u, 3544906133u, 368639432u, 2180022u, 3879629135u, 579343809u, 4073414128u, 3043098718u, 3115774623u, 3801727556u, 458944427u};
const uint32_t kLow[] = {1000686894u, 3123099464u, 3146854750u, 3812611234u, 4282666646u, 1996789888u, 3810236547u, 336374145u};
uint32_t draw() {
  if (adverse > 0 && sim::flip(adverse)) {
    sim::fault("extreme draw");
    if (sim::flip(0.6)) return kHigh[sim::choose(sizeof kHigh / 4)];
    return kLow[sim::choose(sizeof kLow / 4)];
  }
  uint32_t a = sim::choose(65536), b = sim::choose(65536);
  return a << 16 | b;
}
}  // namespace

std::random_device::result_type std::random_device::_M_getval() { return draw(); }

namespace {
// ---------------------------------------------------------------- stand-ins for the vectorised kernels
struct FillStub final : BaseOp {
  aops::FillOpOptions o;
  explicit FillStub(const aops::FillOpOptions& x) : BaseOp(OpTypes::kFill), o(x) {}
  void trace(void*, const std::vector<Tensor>&, std::vector<Tensor>&) override {}
  void load(const ParameterFile::ptr_t&) override {}
  void setup(const std::vector<Tensor>&, std::vector<Tensor>&) override {}
  void reshape(const std::vector<Tensor>& in, std::vector<Tensor>& out) override { out.emplace_back(in[0]); }
  void forward(const std::vector<Tensor>& in, std::vector<Tensor>& out) override {
    sim::Quiet q;
    memset(in[0].ptr<void>(), 0, in[0].bytes());
  }
};
struct MulStub final : BaseOp {
  explicit MulStub(const aops::MulOpOptions&) : BaseOp(OpTypes::kMul) {}
  void trace(void*, const std::vector<Tensor>&, std::vector<Tensor>&) override {}
  void load(const ParameterFile::ptr_t&) override {}
  void reshape(const std::vector<Tensor>& in, std::vector<Tensor>& out) override {
    out.emplace_back(Tensor::empty(in[0].shape(), in[0].dtype(), in[0].device()));
  }
  void forward(const std::vector<Tensor>& in, std::vector<Tensor>& out) override {
    float k = in[1].ptr<float>()[0];
    float* b = out[0].ptr<float>();
    auto s = in[0].shape();
    for (int i = 0; i < s[1]; i++)
      for (int j = 0; j < s[2]; j++) b[i * s[2] + j] = *const_cast<Tensor&>(in[0]).offsettedPtr<float>({0, i, j}) * k;
  }
};
struct SoftmaxStub final : BaseOp {
  explicit SoftmaxStub(const aops::SoftmaxOpOptions&) : BaseOp(OpTypes::kSoftmax) {}
  void trace(void*, const std::vector<Tensor>&, std::vector<Tensor>&) override {}
  void load(const ParameterFile::ptr_t&) override {}
  void reshape(const std::vector<Tensor>& in, std::vector<Tensor>& out) override {
    out.emplace_back(Tensor::empty(in[0].shape(), in[0].dtype(), in[0].device()));
  }
  void forward(const std::vector<Tensor>& in, std::vector<Tensor>& out) override {
    float* b = out[0].ptr<float>();
    auto s = in[0].shape();
    for (int i = 0; i < s[1]; i++) {
      float m = -INFINITY, sum = 0;
      for (int j = 0; j < s[2]; j++) m = std::max(m, *const_cast<Tensor&>(in[0]).offsettedPtr<float>({0, i, j}));
      for (int j = 0; j < s[2]; j++) sum += b[i * s[2] + j] = std::exp(*const_cast<Tensor&>(in[0]).offsettedPtr<float>({0, i, j}) - m);
      for (int j = 0; j < s[2]; j++) b[i * s[2] + j] /= sum;
    }
  }
};
class FillF final : public TypedOpFactory<OpTypes::kFill, aops::FillOpOptions> {
  std::shared_ptr<BaseOp> createOpImpl(const aops::FillOpOptions& o) override { return std::make_shared<FillStub>(o); }
};
class MulF final : public TypedOpFactory<OpTypes::kMul, aops::MulOpOptions> {
  std::shared_ptr<BaseOp> createOpImpl(const aops::MulOpOptions& o) override { return std::make_shared<MulStub>(o); }
};
class SoftmaxF final : public TypedOpFactory<OpTypes::kSoftmax, aops::SoftmaxOpOptions> {
  std::shared_ptr<BaseOp> createOpImpl(const aops::SoftmaxOpOptions& o) override { return std::make_shared<SoftmaxStub>(o); }
};
class Host final : public Backend {
 public:
  Host() : Backend(kCPU, cpu::createCPUAllocator()) {
    regOpFactory<FillF, MulF, SoftmaxF, cpu::CPUSliceOpFactory, cpu::CPUConcatOpFactory, cpu::CPURepeatOpFactory>();
  }
};
void boot() {
  auto& ctx = Context::instance();
  auto b = std::make_shared<Host>();
  ctx.registerBackend(b);
  ctx.memoryManager()->registerAllocator(kCPU, b->allocator(), MemoryManagerOptions());
  ctx.dispatcherManager()->registerDispatcher(cpu::createCPUDispatcher(ctx.dispatcherManager()->getExecutor(), cpu::CPUDispatcherOptions()));
}

// ---------------------------------------------------------------- N09
uint64_t mixin(uint64_t h, uint64_t v) {
  h = (h ^ v) * 0x9E3779B97F4A7C15ull;
  return h ^ h >> 29;
}
struct Conv {
  int vocab, eos, max_len, top_k, api, pause, mask, ties, peak;
  int plain;       // takes its limits from the model
  float temp, top_p;
  bool sample;
  uint64_t seed;
  std::vector<int64_t> prompt;
  std::vector<int> fails;   // which calls of forward fail
};
std::vector<std::vector<Conv>> owners;

uint64_t digest(const Conv& c, const std::vector<int64_t>& hist) {
  uint64_t h = c.seed;
  for (auto t : hist) h = mixin(h, (uint64_t)t + 1);
  return h;
}
float logit(const Conv& c, uint64_t h, int j) {
  uint64_t v = mixin(mixin(h, j + 1), 7);
  if (c.mask && v % 4 == 0 && j != (int)(h % c.vocab)) return -1e30f;    // never allowed
  if (c.ties && v % 3 == 0) return 1.5f;
  return ((v >> 12) % 4096) / 4096.0f * c.peak;
}

struct Bettor {
  double cap[4] = {1, 1, 1, 1}, seen[16], total = 8;
  int n = 0;
  Bettor() { for (auto& x : seen) x = 0.5; }
};
std::map<int, Bettor> bets;     // by way of generation and of sampling

struct Model;
struct Talk {            // what one conversation has seen and what it must see
  const Conv* c;
  int id;
  std::vector<int64_t> hist;   // the prompt and the tokens so far
  size_t forwards = 0;
  std::vector<int64_t> out;
};

std::map<uint64_t, Talk*> talks;

struct Model : ARGeneration {
  void defaults(const Conv& c) {
    do_sample_ = c.sample;
    eos_token_id_ = c.eos;
    max_length_ = c.max_len;
  }
  ARGenerationOutputPast forward(const ARGenerationOutputPast& input, const ARGenerationArgs& args) override {
    auto& seq = const_cast<ARGenerationOutputPast&>(input)["sequence"];
    auto& st = const_cast<ARGenerationOutputPast&>(input)["state"];
    if (!args.count("tag")) { sim::violation("gen-input", "the caller's arguments did not reach the model"); throw std::runtime_error("no tag"); }
    int tag = args.at("tag").get<int>();
    Talk* t;
    { sim::Quiet q; t = talks[tag]; }
    const Conv& c = *t->c;
    int n = (int)t->forwards++;
    if (c.pause) sim::sleep_ns(c.pause);
    for (int f : c.fails)
      if (f == n) { sim::fault("model fails"); throw std::runtime_error("model broke"); }
    std::optional<sim::Quiet> fast;
    if (c.max_len > 20) fast.emplace();      // long streams would be spent in here
    std::vector<int64_t> h;
    int len = st.shape()[1];
    for (int i = 1; i < len; i++) h.push_back(*st.offsettedPtr<int64_t>({0, i}));
    int s = seq.shape()[1];
    for (int i = 0; i < s; i++) h.push_back(*seq.offsettedPtr<int64_t>({0, i}));
    fast.reset();
    {
      sim::Quiet q;
      if (h != t->hist)
        sim::violation("gen-input", "conversation %d: the model was given %zu tokens that are not its prompt and answer so far (%zu tokens)", t->id, h.size(), t->hist.size());
    }
    ARGenerationOutputPast out;
    Tensor l = Tensor::empty({1, s, c.vocab}, kFloat32, kCPU).alloc();
    Tensor ns = Tensor::empty({1, (int)h.size() + 1}, kInt64, kCPU).alloc();
    if (c.max_len > 20) fast.emplace();
    uint64_t dg = digest(c, h);
    for (int i = 0; i < s; i++)
      for (int j = 0; j < c.vocab; j++) *l.offsettedPtr<float>({0, i, j}) = i == s - 1 ? logit(c, dg, j) : (j == (i * 5 + 1) % c.vocab ? 50.f : -50.f);
    *ns.offsettedPtr<int64_t>({0, 0}) = 0;
    for (size_t i = 0; i < h.size(); i++) *ns.offsettedPtr<int64_t>({0, (int)i + 1}) = h[i];
    fast.reset();
    out["sequence"] = l;
    out["state"] = ns;
    return out;
  }
};

ARGenerationArgs args_of(const Conv& c, int tag) {
  ARGenerationArgs a;
  a["tag"] = AnyValue(any_copy_tag, tag);
  if (!c.plain) {
    a["max_length"] = AnyValue(any_copy_tag, c.max_len);
    a["eos_token_id"] = AnyValue(any_copy_tag, c.eos);
    a["do_sample"] = AnyValue(any_copy_tag, c.sample);
  } else sim::probe("the model's own limits");
  if (c.temp != 1.0f || c.seed % 2) a["temperature"] = AnyValue(any_copy_tag, c.temp);
  if (c.top_k) a["top_k"] = AnyValue(any_copy_tag, c.top_k);
  if (c.top_p != 0) a["top_p"] = AnyValue(any_copy_tag, c.top_p);
  return a;
}

bool greedy(const Conv& c) { return c.temp == 0 || (!c.sample && c.temp == 1.0f && c.top_k == 0 && c.top_p == 0); }

// The token drawn after t->hist.
void got(Talk* t, int64_t tok, bool counted = true) {
  sim::Quiet q;
  const Conv& c = *t->c;
  sim::event("conversation %d token %d", t->id, (int)tok);
  if ((int)t->out.size() >= c.max_len) sim::violation("gen-stop", "conversation %d: more than max_length = %d tokens", t->id, c.max_len);
  if (!t->out.empty() && t->out.back() == c.eos) sim::violation("gen-stop", "conversation %d goes on behind the end-of-sequence token", t->id);
  if (tok < 0 || tok >= c.vocab) {
    sim::violation("gen-token", "conversation %d: token %lld of a vocabulary of %d", t->id, (long long)tok, c.vocab);
    t->out.push_back(tok);
    t->hist.push_back(tok);
    return;
  }
  std::vector<double> l(c.vocab), p(c.vocab);
  uint64_t dg = digest(c, t->hist);
  double m = -1e40, sum = 0;
  for (int j = 0; j < c.vocab; j++) m = std::max(m, l[j] = logit(c, dg, j));
  double T = c.temp == 0 ? 1 : c.temp;
  for (int j = 0; j < c.vocab; j++) sum += p[j] = std::exp((l[j] - m) / T);
  for (auto& x : p) x /= sum;
  std::vector<double> sorted = p;
  std::sort(sorted.rbegin(), sorted.rend());
  double floor_ = 0;
  const char* what = "probability above zero";
  if (greedy(c)) {
    sim::probe("greedy token");
    what = "the highest score";
    floor_ = sorted[0] * (1 - 1e-6);
  } else if (c.top_k > 0) {
    sim::probe("top-k token");
    what = "a place among the top k";
    floor_ = sorted[std::min(c.top_k, c.vocab) - 1] * (1 - 1e-4);
  } else if (c.top_p > 0) {
    sim::probe("top-p token");
    what = "a place within top_p";
    double cum = 0;
    for (double x : sorted) {
      floor_ = x * (1 - 1e-4);
      cum += x;
      if (cum >= c.top_p + 1e-5) break;
    }
  } else {
    sim::probe("sampled token");
    if (c.mask) sim::probe("sampled with masked tokens");
  }
  if (p[tok] < floor_ || p[tok] < 1e-300)
    sim::violation("gen-token", "conversation %d token %zu: %lld (probability %.3g) has not %s (top_k %d top_p %g temperature %g, best %.3g)", t->id,
                   t->out.size(), (long long)tok, p[tok], what, c.top_k, c.top_p, c.temp, sorted[0]);
  else if (!greedy(c) && adverse == 0) {
    // bets that the token is drawn from another distribution; fair ones never become rich
    if (!c.ties) {      // rounding at the edge of the set makes the set itself uncertain
      Bettor& w = bets[c.api * 4 + (c.top_k > 0 ? 1 : c.top_p > 0 ? 2 : 0)];
      double z = 0, zu = 0, zs = 0, zz = 0;
      for (int j = 0; j < c.vocab; j++)
        if (p[j] >= floor_ && p[j] > 1e-300) { z += p[j]; zu += 1; zs += std::exp(l[j] - m); zz += p[j] * p[j]; }
      double mine = p[tok] / z;
      double alt[4] = {1 / zu, std::exp(l[tok] - m) / zs, p[tok] * p[tok] / zz, 0};
      // where in the unit interval the draw must have been, tokens in the order of the sampler
      double lo = 0;
      for (int j = 0; j < c.vocab; j++)
        if (j != tok && p[j] >= floor_ && p[j] > 1e-300 && (c.top_k > 0 || c.top_p > 0 ? p[j] > p[tok] || (p[j] == p[tok] && j < tok) : j < tok)) lo += p[j] / z;
      double part[16];
      for (int i = 0; i < 16; i++) {
        part[i] = std::max(0.0, std::min((i + 1) / 16.0, lo + mine) - std::max(i / 16.0, lo)) / mine;
        alt[3] += mine * part[i] * w.seen[i] / w.total * 16;
      }
      for (int i = 0; i < 16; i++) w.seen[i] += part[i];
      w.total += 1;
      w.n++;
      for (int i = 0; i < 4; i++) w.cap[i] *= 0.2 + 0.8 * alt[i] / mine;
    }
  }
  t->out.push_back(tok);
  t->hist.push_back(tok);
}

void ended(Talk* t, bool eos_shown, const char* api) {
  sim::Quiet q;
  const Conv& c = *t->c;
  bool eos = !t->out.empty() && t->out.back() == c.eos;
  sim::probe(eos ? "ended by the end-of-sequence token" : "ended by max_length");
  if (!eos && (int)t->out.size() != c.max_len)
    sim::violation("gen-stop", "conversation %d (%s) ended after %zu tokens without the end-of-sequence token, max_length is %d", t->id, api, t->out.size(), c.max_len);
}

struct Chat {
  Talk* t;
  ARGenerationArgs a;
  ARGenerationOutputPast in;
  std::unique_ptr<ARGenerationChatContext> ctx;
  std::unique_ptr<ARGenerationChatIterator> it, end;
  bool done = false, opened = false;
  int shown = 0, tries = 0;
};

// The chat iterator shows a token when it is drawn, the end-of-sequence token excepted.
void chat_step(Model& m, Chat& x) {
  Talk* t = x.t;
  const Conv& c = *t->c;
  x.tries++;
  try {
    if (!x.opened) {
      x.ctx = std::make_unique<ARGenerationChatContext>(m.chat(x.in, x.a));
      x.it = std::make_unique<ARGenerationChatIterator>(x.ctx->begin());
      x.end = std::make_unique<ARGenerationChatIterator>(x.ctx->end());
      x.opened = true;
    } else ++*x.it;
  } catch (std::runtime_error& e) {
    if (std::string(e.what()) != "model broke") throw;
    sim::probe("failed step repeated");
    return;      // tried again
  }
  if (!(*x.it != *x.end)) {
    x.done = true;
    sim::Quiet q;
    // the last forward drew the end-of-sequence token, or none was made
    if (t->forwards > 0 && (int)t->out.size() < c.max_len) {
      if ((**x.it).cur_token_id != c.eos) sim::violation("gen-stop", "conversation %d (chat) ended with token %lld", t->id, (long long)(**x.it).cur_token_id);
      got(t, c.eos);
    }
    ended(t, false, "chat");
    return;
  }
  if ((**x.it).current_step != x.shown) sim::violation("gen-stop", "conversation %d: step %lld is shown as number %d", t->id, (long long)(**x.it).current_step, x.shown);
  x.shown++;
  got(t, (*x.it)->cur_token_id);
  if (t->out.back() == c.eos) sim::violation("gen-stop", "conversation %d (chat): the end-of-sequence token is shown", t->id);
}

ARGenerationOutputPast prompt_of(const Conv& c) {
  ARGenerationOutputPast in;
  Tensor s = Tensor::empty({1, (int)c.prompt.size()}, kInt64, kCPU).alloc();
  for (size_t i = 0; i < c.prompt.size(); i++) *s.offsettedPtr<int64_t>({0, (int)i}) = c.prompt[i];
  Tensor st = Tensor::empty({1, 1}, kInt64, kCPU).alloc();
  *st.offsettedPtr<int64_t>({0, 0}) = 0;
  in["sequence"] = s;
  in["state"] = st;
  return in;
}

void owner(int k) {
  Model m;
  for (auto& c : owners[k])
    if (c.plain) { m.defaults(c); break; }
  std::vector<Chat> chats;
  std::vector<std::unique_ptr<Talk>> mine;
  for (size_t i = 0; i < owners[k].size(); i++) {
    auto& c = owners[k][i];
    int tag = k * 100 + (int)i;
    auto t = std::make_unique<Talk>();
    t->c = &c;
    t->id = tag;
    t->hist = c.prompt;
    { sim::Quiet q; talks[tag] = t.get(); }
    auto in = prompt_of(c);
    auto a = args_of(c, tag);
    auto expect_fail = [&](bool threw) {
      sim::Quiet q;
      bool want = false;
      for (int f : c.fails) want |= f < (int)t->forwards;
      if (threw != want) sim::violation("gen-error", "conversation %d: a failure of the model %s", t->id, threw ? "was made up" : "did not reach the caller");
    };
    if (c.api == 0) {
      bool threw = false;
      try {
        m.streamGenerate(in, a, [&](int64_t tok) { got(t.get(), tok); });
      } catch (std::runtime_error& e) { threw = true; }
      expect_fail(threw);
      if (!threw) ended(t.get(), true, "streamGenerate");
    } else if (c.api == 1) {
      // generate() shows its tokens at the end only: fail-free here
      ARGenerationOutputPast o;
      bool threw = false;
      struct Spy : Model {
        Talk* t;
        ARGenerationOutputPast forward(const ARGenerationOutputPast& input, const ARGenerationArgs& args) override {
          // the token drawn last is in the input
          auto& seq = const_cast<ARGenerationOutputPast&>(input)["sequence"];
          if (t->forwards > 0 && seq.shape()[1] == 1) got(t, *seq.offsettedPtr<int64_t>({0, 0}));
          return Model::forward(input, args);
        }
      } spy;
      spy.t = t.get();
      spy.defaults(c);
      try {
        o = spy.generate(in, a);
      } catch (std::runtime_error& e) { threw = true; }
      expect_fail(threw);
      if (!threw) {
        Tensor g = o["generated_sequence"];
        std::vector<int64_t> all;
        for (int i = 0; i < (int)g.shape()[0]; i++) all.push_back(*g.offsettedPtr<int64_t>({i}));
        sim::Quiet q;
        if (all.size() != t->out.size() + (c.max_len > 0 ? 1 : 0) || !std::equal(t->out.begin(), t->out.end(), all.begin()))
          sim::violation("gen-stop", "conversation %d: %zu tokens returned, the model was given %zu of them", t->id, all.size(), t->out.size());
        else {
          if (!all.empty()) got(t.get(), all.back());
          ended(t.get(), true, "generate");
        }
      }
    } else {
      Chat x;
      x.t = t.get();
      x.a = a;
      x.in = in;
      chats.push_back(std::move(x));
    }
    mine.push_back(std::move(t));
  }
  // the chats of one thread advance in any order
  while (true) {
    std::vector<Chat*> live;
    for (auto& x : chats)
      if (!x.done && x.tries < 400) live.push_back(&x);
    if (live.empty()) break;
    if (live.size() > 1) sim::probe("chats interleaved");
    chat_step(m, *live[sim::choose((int)live.size())]);
  }
}

void run() {
  boot();
  std::vector<std::thread> ts;
  for (size_t i = 0; i < owners.size(); i++) ts.emplace_back(owner, (int)i);
  for (auto& t : ts) t.join();
  sim::Quiet q;
  static const char* against[] = {"equal ones", "those of temperature 1", "those of half the temperature", "a draw that prefers some parts of the unit interval"};
  static const char* api[] = {"streamGenerate", "generate", "chat"};
  static const char* mode[] = {"temperature", "top k", "top p"};
  for (auto& [k, w] : bets)
    for (int i = 0; i < 4; i++)
      if (w.cap[i] > 1e10)
        sim::violation("gen-distribution", "%s by %s: %d tokens are not drawn with their own probabilities (odds %.0e for %s)", api[k / 4], mode[k % 4], w.n, w.cap[i], against[i]);
}

Register r("gen", [](const json& p) {
  adverse = p.value("adverse", 0.0);
  for (auto& o : p["ops"]) {
    Conv c{};
    c.vocab = o["vocab"];
    c.eos = o["eos"];
    c.max_len = o["max"];
    c.top_k = o["top_k"];
    c.top_p = o["top_p"];
    c.temp = o["temp"];
    c.sample = o["sample"];
    c.api = o["api"];
    c.pause = o.value("pause", 0);
    c.mask = o.value("mask", 0);
    c.ties = o.value("ties", 0);
    c.peak = o.value("peak", 6);
    c.plain = o.value("plain", 0);
    c.seed = o["seed"];
    for (auto& x : o["prompt"]) c.prompt.push_back(x);
    for (auto& x : o["fails"]) c.fails.push_back(x);
    int t = o["t"];
    while ((int)owners.size() <= t) owners.emplace_back();
    for (auto& d : owners[t])      // one model has one set of limits
      if (c.plain && d.plain) { c.max_len = d.max_len; c.eos = d.eos; c.sample = d.sample; break; }
    owners[t].push_back(c);
  }
  sim::deadlock_class = sim::hang_class = "gen-hang";
  sim::race_class = "gen-race";
  sim::memory_class = "gen-memory";
  sim::crash_class = "gen-crash";
}, run);
}  // namespace

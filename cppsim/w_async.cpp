// N08: control threads that use one engine at the same time - session blocks, ids, random states, operators, traced and untraced,
// modules run by the dispatcher's pool, and tensors copied or loaded in the background.
#include <set>
#include <thread>
#include "mllm/mllm.hpp"
#include "mllm/backends/cpu/CPUAllocator.hpp"
#include "mllm/backends/cpu/ops/GraphOps.hpp"
#include "mllm/compile/ir/IRTraceDispatcher.hpp"
#include "mllm/compile/ir/Trace.hpp"
#include "mllm/compile/ir/graph/Op.hpp"
#include "mllm/compile/ir/linalg/Op.hpp"
#include "mllm/engine/io/CpuMemoryDiskDispatcher.hpp"
#include "mllm/engine/io/Primitives.hpp"
#include "work.h"

extern "C" unsigned sim_pool_pick(unsigned n) { return n < 2 ? 0 : sim::choose(n); }

using nlohmann::json;
using namespace mllm;
namespace {
struct Step {
  std::string kind;
  int tag, n, len, fail, how, version, pause;
};
std::vector<std::vector<Step>> threads;
bool pre_trace;
uint64_t seed0;
std::vector<int> ran;                       // by tag: how often an operator, module or traced operator ran
std::vector<void*> traced_in;               // by tag: the trace context it was given
std::vector<int> where;                     // by tag: the thread that submitted it
std::map<int, SessionTCB*> tcb_of;
std::map<SessionTCB*, int> owner;
std::map<uint32_t, std::string> ids;
std::vector<uint64_t> states;
std::map<int, SessionTCB::ptr_t> kept;

struct AffOptions : public BaseOpOptions<AffOptions> {
  int tag = -1;
  float k = 1, c = 0;
  int pause = 0;
};

void note_ran(int tag) {
  sim::Quiet q;
  if (tag < 0) return;
  ran[tag]++;
  sim::event("run %d", tag);
}

class AffOp final : public BaseOp {
 public:
  AffOptions o;
  explicit AffOp(const AffOptions& x) : BaseOp(OpTypes::kSiLU), o(x) {}
  void trace(void* ctx, const std::vector<Tensor>& in, std::vector<Tensor>& out) override {
    note_ran(o.tag);
    if (o.tag < 0) {
      auto* c = (ir::IRContext*)ctx;
      auto i = ir::tensor::wrapTensors2TensorIR(c, in);
      auto u = ir::tensor::wrapTensors2TensorIR(c, out);
      c->create<ir::linalg::SiLUOp>(shared_from_this(), i, u);
      return;
    }
    sim::Quiet q;
    traced_in[o.tag] = ctx ? ctx : (void*)1;
  }
  void forward(const std::vector<Tensor>& in, std::vector<Tensor>& out) override {
    note_ran(o.tag);
    const float* a = in[0].ptr<float>();
    float* b = out[0].ptr<float>();
    for (size_t i = 0; i < in[0].numel(); i++) {
      if (o.pause && i == 1) sim::sleep_ns(o.pause);
      b[i] = a[i] * o.k + o.c;
    }
  }
  void reshape(const std::vector<Tensor>& in, std::vector<Tensor>& out) override {
    out.emplace_back(Tensor::empty(in[0].shape(), in[0].dtype(), in[0].device()));
  }
};
class AffFactory final : public TypedOpFactory<OpTypes::kSiLU, AffOptions> {
  std::shared_ptr<BaseOp> createOpImpl(const AffOptions& o) override { return std::make_shared<AffOp>(o); }
};
class Aff final : public nn::Layer {
 public:
  explicit Aff(const AffOptions& o) : Layer(OpTypes::kSiLU, o) {}
  Tensor operator()(const Tensor& x) { return __main({x})[0]; }
};
AffOptions aff(float k, float c, int pause = 0) {
  AffOptions o;
  o.k = k;
  o.c = c;
  o.pause = pause;
  return o;
}
class Host final : public Backend {
 public:
  Host() : Backend(kCPU, cpu::createCPUAllocator()) { regOpFactory<AffFactory, cpu::CPUGraphBeginOpFactory, cpu::CPUGraphEndOpFactory>(); }
};

void see_tcb(const char* at) {
  auto t = Context::instance().thisThread();
  sim::Quiet q;
  int me = sim::self();
  auto i = tcb_of.find(me);
  if (i != tcb_of.end() && i->second != t.get())
    sim::violation("async-thread", "%s: thread %d was given a different session block than before", at, me);
  auto j = owner.find(t.get());
  if (j != owner.end() && j->second != me) sim::violation("async-thread", "%s: threads %d and %d share one session block", at, j->second, me);
  tcb_of[me] = t.get();
  owner[t.get()] = me;
  kept[me] = t;
}

void see_id(uint32_t id, const char* what) {
  sim::Quiet q;
  auto [i, fresh] = ids.insert({id, what});
  if (!fresh) sim::violation("async-id", "the id %u was given to %s and to %s", id, i->second.c_str(), what);
}

class Inner final : public nn::Module {
 public:
  Aff l;
  Inner(const std::string& n, int pause) : nn::Module(n), l(reg<Aff>("l", aff(3, 1, pause))) {}
  std::vector<Tensor> forward(const std::vector<Tensor>& in, const std::vector<AnyValue>& args) override {
    std::vector<Tensor> o;
    for (auto& x : in) o.push_back(l(x));
    return o;
  }
};
// y = (2 (3 x + 1) + tag) for every input; args: tag, fail
class Outer final : public nn::Module {
 public:
  Inner inner;
  Aff twice;
  Outer(const std::string& n, int pause) : nn::Module(n), inner(reg<Inner>("inner", pause)), twice(reg<Aff>("twice", aff(2, 0))) {}
  std::vector<Tensor> forward(const std::vector<Tensor>& in, const std::vector<AnyValue>& args) override {
    int tag = args[0].get<int>(), fail = args[1].get<int>();
    note_ran(tag);
    see_tcb("module");
    if (fail == 1) { sim::fault("module fails"); throw std::runtime_error("module broke " + std::to_string(tag)); }
    auto a = inner(in);
    std::vector<Tensor> o;
    for (auto& x : a) {
      Tensor y = twice(x);
      if (Context::instance().thisThread()->trace_mode) { o.push_back(y); continue; }
      float* p = y.ptr<float>();
      for (size_t i = 0; i < y.numel(); i++) p[i] += tag;
      o.push_back(y);
    }
    if (fail == 2) { sim::fault("module fails"); throw std::runtime_error("module broke " + std::to_string(tag)); }
    return o;
  }
};

Tensor input(int tag, int len) {
  Tensor t = Tensor::empty({len}, kFloat32, kCPU).alloc();
  see_id(t.uuid(), "a tensor");
  float* p = t.ptr<float>();
  for (int i = 0; i < len; i++) p[i] = tag * 16 + i;
  return t;
}
void check(const Tensor& t, const Step& s, float k, float c, const char* what, int tag) {
  if (t.isNil() || t.numel() != (size_t)s.len) {
    sim::violation("async-result", "%s %d has an output of the wrong size", what, tag);
    return;
  }
  const float* p = t.ptr<float>();
  for (int i = 0; i < s.len; i++) {
    float w = (tag * 16 + i) * k + c;
    if (p[i] != w) {
      sim::violation("async-result", "output %d of %s %d is %g instead of %g", i, what, tag, p[i], w);
      return;
    }
  }
}
void once(int tag, const char* what) {
  sim::Quiet q;
  if (ran[tag] != 1) sim::violation("async-once", "%s %d ran %d times by the time it was waited for", what, tag, ran[tag]);
}

const char* kFile[3] = {"", "v1.mllm", "v2.mllm"};
std::string par(int i) { return "p" + std::to_string(i); }
int par_len(int i) { return 8 * (1 + i * 3); }
float par_at(int i, int j) { return i * 1000 + j; }

void fill(Tensor& t, float v) {
  float* p = t.ptr<float>();
  for (size_t i = 0; i < t.numel(); i++) p[i] = v;
}

Outer* shared_module;

using Future = std::pair<TaskResult::sender_t, Task::ptr_t>;
Future spawn(Outer& m, const Step& s, int k, std::vector<Tensor>& keep) {
  Tensor x = input(s.tag + k, s.len);
  { sim::Quiet q; keep.push_back(x); }
  int tag = s.tag + k, fail = k == s.n - 1 ? s.fail : 0;
  // the values are copied: the work starts after this function has returned
  return async::fork(m, x, AnyValue(any_copy_tag, tag), AnyValue(any_copy_tag, fail));
}

void do_fork(const Step& s) {
  Outer own("own" + std::to_string(s.tag), s.pause);
  Outer& m = s.how & 1 ? *shared_module : own;
  std::vector<Tensor> keep;
  std::vector<Future> f;
  for (int k = 0; k < s.n; k++) f.push_back(spawn(m, s, k, keep));
  bool threw = false;
  std::vector<std::vector<Tensor>> out(s.n);
  if (s.how & 2 || s.n == 1) {
    for (int k = 0; k < s.n; k++) {
      try {
        out[k] = async::wait(f[k]);
      } catch (std::runtime_error& e) {
        threw = true;
        sim::Quiet q;
        if (std::string(e.what()) != "module broke " + std::to_string(s.tag + s.n - 1))
          sim::violation("async-error", "the caller of module %d got another error: %s", s.tag + k, e.what());
        if (k != s.n - 1) sim::violation("async-error", "the caller of module %d was told of the failure of another", s.tag + k);
      }
    }
  } else {
    try {
      if (s.n == 2) {
        auto r = async::wait(f[0], f[1]);
        for (int k = 0; k < 2; k++) out[k] = r[k];
      } else {
        auto r = async::wait(f[0], f[1], f[2]);
        for (int k = 0; k < 3; k++) out[k] = r[k];
      }
      sim::probe("several modules awaited together");
    } catch (std::runtime_error& e) { threw = true; }
  }
  if (threw != (s.fail != 0))
    sim::violation("async-error", threw ? "the caller of module %d was told of an error that did not happen" : "the failure of module %d did not reach its caller", s.tag + s.n - 1);
  bool all = threw && !(s.how & 2) && s.n > 1;
  for (int k = 0; k < s.n; k++) {
    if (all) continue;
    once(s.tag + k, "module");
    if (k == s.n - 1 && s.fail) continue;
    if (out[k].size() != 1) {
      sim::violation("async-result", "module %d returned %zu outputs", s.tag + k, out[k].size());
      continue;
    }
    check(out[k][0], s, 6, 2 + s.tag + k, "module", s.tag + k);
    check(keep[k], s, 1, 0, "the input of module", s.tag + k);
    see_id(out[k][0].uuid(), "an output");
  }
  sim::probe("modules run in the background");
}

void do_io(const Step& s) {
  std::vector<TaskResult::sender_t> w;
  std::vector<Tensor> dst, src;
  std::vector<int> what;
  ParameterFile::ptr_t pf;
  for (int k = 0; k < s.n; k++) {
    int kind = (s.how >> (2 * k)) & 3, i = (s.tag + k) % 4;
    int len = kind ? par_len(i) : s.len;
    Tensor d = Tensor::empty({len}, kFloat32, kCPU).alloc();
    see_id(d.uuid(), "a tensor");
    fill(d, -7);
    Tensor x = Tensor::nil();
    if (kind == 0) {
      x = input(s.tag + k, len);
      w.push_back(async::io::copy(d, x));
    } else if (kind == 1) {
      if (!pf) pf = load(kFile[s.version], s.version == 1 ? ModelFileVersion::kV1 : ModelFileVersion::kV2);
      x = pf->pull(par(i));
      w.push_back(async::io::promoteMMAPTensor2AnonymousMemoryTensor(d, x));
    } else {
      w.push_back(async::io::loadAnonymousMemoryTensorFromDisk(d, par(i), kFile[s.version],
                                                               s.version == 1 ? ModelFileVersion::kV1 : ModelFileVersion::kV2));
    }
    sim::Quiet q;
    dst.push_back(d);
    src.push_back(x);
    what.push_back(kind);
  }
  for (int k = 0; k < s.n; k++) {
    int i = (s.tag + k) % 4;
    async::wait(w[k]);
    sim::probe(what[k] == 0 ? "copied in the background" : what[k] == 1 ? "promoted in the background" : "loaded in the background");
    const float* p = dst[k].ptr<float>();
    for (size_t j = 0; j < dst[k].numel(); j++) {
      float v = what[k] ? par_at(i, j) : (s.tag + k) * 16 + (int)j;
      if (p[j] != v) {
        sim::violation("async-io", "element %zu of a tensor %s in the background is %g instead of %g after the wait", j,
                       what[k] == 0 ? "copied" : what[k] == 1 ? "promoted" : "loaded", p[j], v);
        break;
      }
    }
  }
}

void count(const ir::Region::ptr_t& r, int& graphs, int& ops, std::set<std::string>& names) {
  for (auto& o : r->ops()) {
    if (o->isa_<ir::graph::SubGraphOp>()) {
      graphs++;
      names.insert(o->cast_<ir::graph::SubGraphOp>()->getSymbolAttr()->str());
      if (o->getTopRegion()) count(o->getTopRegion(), graphs, ops, names);
    } else if (o->isa_<ir::linalg::SiLUOp>()) ops++;
  }
}

void do_trace(const Step& s, bool& tracing, ir::IRContext::ptr_t& mine) {
  Outer own("own" + std::to_string(s.tag), 0);
  Tensor x = input(s.tag, s.len);
  int tag = s.tag, fail = s.fail;
  bool threw = false;
  ir::IRContext::ptr_t c;
  try {
    c = ir::trace(own, x, AnyValue(any_copy_tag, tag), AnyValue(any_copy_tag, fail));
  } catch (std::runtime_error& e) { threw = true; }
  tracing = false;
  mine = nullptr;
  if (threw != (fail != 0)) sim::violation("async-error", "the failure of the traced module %d %s", tag, threw ? "was made up" : "did not reach its caller");
  once(tag, "traced module");
  if (!c) return;
  sim::Quiet q;
  sim::probe("module traced");
  int graphs = 0, ops = 0;
  std::set<std::string> names;
  count(c->topLevelOp()->cast_<ir::Op>()->getTopRegion(), graphs, ops, names);
  std::string n = "own" + std::to_string(s.tag);
  std::set<std::string> want = {"init", "deinit", n, n + ".inner"};
  if (ops != 2 || graphs != 4 || names != want)
    sim::violation("async-thread", "the trace of module %d has %d graphs and %d operators instead of its own 4 and 2", tag, graphs, ops);
}

void control(int k) {
  auto& ctx = Context::instance();
  bool tracing = false;
  ir::IRContext::ptr_t mine;
  std::set<std::string> attached;
  for (auto& s : threads[k]) {
    if (s.pause) sim::sleep_ns(s.pause);
    if (s.kind == "tcb") {
      for (int i = 0; i < s.n; i++) see_tcb("thisThread");
      auto t = ctx.thisThread();
      sim::Quiet q;
      if (t->trace_mode != tracing) sim::violation("async-thread", "the trace mode of thread %d changed without its doing", k);
      if (t->ir_context != mine) sim::violation("async-thread", "the trace context of thread %d changed without its doing", k);
      std::set<std::string> have;
      for (auto& [n, v] : t->attached_contexts._ref_raw_data()) have.insert(n);
      if (have != attached) sim::violation("async-thread", "what thread %d attached to its session is not what it finds there", k);
    } else if (s.kind == "attach") {
      std::string n = "c" + std::to_string(s.tag);
      ctx.thisThread()->attached_contexts.reg(n, std::make_shared<SessionContext>());
      sim::Quiet q;
      attached.insert(n);
    } else if (s.kind == "trace") {
      auto t = ctx.thisThread();
      mine = s.how ? std::make_shared<ir::IRContext>() : nullptr;
      tracing = s.how;
      t->ir_context = mine;
      t->trace_mode = tracing;
    } else if (s.kind == "clean") {
      cleanThisThread();
      tracing = false;
      mine = nullptr;
      attached.clear();
    } else if (s.kind == "uuid") {
      for (int i = 0; i < s.n; i++) see_id(ctx.getUUID(), "a caller");
    } else if (s.kind == "random") {
      for (int i = 0; i < s.n; i++) {
        uint64_t v = ctx.getRandomState();
        sim::Quiet q;
        states.push_back(v);
      }
    } else if (s.kind == "op") {
      Tensor x = input(s.tag, s.len);
      AffOptions o = aff(s.how + 1, s.tag, s.fail);
      o.tag = s.tag;
      std::vector<Tensor> out;
      if (s.version == 1) {     // through a layer of its own
        Aff l(o);
        l.impl()->setInstancedOp(ctx.getBackend(kCPU)->createOp(l.opType(), l.refOptions()));
        out.push_back(l(x));
      } else out = ctx.buildOpAndSubmitTask(OpTypes::kSiLU, o, {x});
      once(s.tag, "operator");
      if (tracing) {
        sim::probe("operator traced");
        sim::Quiet q;
        if (!traced_in[s.tag]) sim::violation("async-thread", "operator %d of a tracing thread was executed instead of traced", s.tag);
        else if (traced_in[s.tag] != (void*)mine.get()) sim::violation("async-thread", "operator %d was traced into another thread's context", s.tag);
      } else {
        sim::probe("operator executed");
        { sim::Quiet q; if (traced_in[s.tag]) sim::violation("async-thread", "operator %d of a thread that does not trace was traced", s.tag); }
        if (out.size() != 1) sim::violation("async-result", "operator %d returned %zu outputs", s.tag, out.size());
        else if (!traced_in[s.tag]) {
          check(out[0], s, s.how + 1, s.tag, "operator", s.tag);
          see_id(out[0].uuid(), "an output");
        }
      }
    } else if (s.kind == "module") {   // called on this thread
      if (tracing) continue;
      Outer& m = *shared_module;
      Tensor x = input(s.tag, s.len);
      int tag = s.tag, fail = 0;
      auto o = m(x, AnyValue(any_copy_tag, tag), AnyValue(any_copy_tag, fail));
      once(s.tag, "module");
      if (o.size() != 1) sim::violation("async-result", "module %d returned %zu outputs", s.tag, o.size());
      else check(o[0], s, 6, 2 + s.tag, "module", s.tag);
    } else if (s.kind == "mtrace") {
      do_trace(s, tracing, mine);
      auto t = ctx.thisThread();
      if (t->trace_mode || t->ir_context) {
        sim::violation("async-thread", "thread %d is left tracing after tracing module %d%s", k, s.tag, s.fail ? ", which failed" : "");
        t->trace_mode = false;
        t->ir_context = nullptr;
      }
    } else if (s.kind == "fork") {
      do_fork(s);
    } else if (s.kind == "io") {
      do_io(s);
    }
  }
}

void boot() {
  auto& ctx = Context::instance();
  auto b = std::make_shared<Host>();
  ctx.registerBackend(b);
  ctx.memoryManager()->registerAllocator(kCPU, b->allocator(), MemoryManagerOptions());
  ctx.dispatcherManager()->registerDispatcher(cpu::createCPUDispatcher(ctx.dispatcherManager()->getExecutor(), cpu::CPUDispatcherOptions()));
  if (pre_trace) ctx.dispatcherManager()->registerDispatcher(ir::createIRTraceDispatcher(ctx.dispatcherManager()->getExecutor(), {}));
  enableCpuMemDiskAsyncIOFeature();
  bool files = false;
  for (auto& t : threads)
    for (auto& s : t) files |= s.kind == "io";
  for (int v = 1; files && v < 3; v++) {
    auto ver = v == 1 ? ModelFileVersion::kV1 : ModelFileVersion::kV2;
    auto p = ParameterFile::create(ver);
    for (int i = 0; i < 4; i++) {
      Tensor t = Tensor::empty({par_len(i)}, kFloat32, kCPU).alloc();
      for (int j = 0; j < par_len(i); j++) t.ptr<float>()[j] = par_at(i, j);
      p->push(par(i), t);
    }
    save(kFile[v], p, ver);
  }
}

void run() {
  boot();
  auto& ctx = Context::instance();
  see_tcb("main");
  size_t want = 0;
  for (auto& t : threads)
    for (auto& s : t)
      if (s.kind == "random") want += s.n;
  std::vector<uint64_t> ref;
  ctx.setRandomSeed(seed0);
  for (size_t i = 0; i < want; i++) ref.push_back(ctx.getRandomState());
  ctx.setRandomSeed(seed0);
  shared_module = new Outer("shared", 0);
  std::vector<std::thread> ts;
  for (size_t i = 0; i < threads.size(); i++) ts.emplace_back(control, (int)i);
  for (auto& t : ts) t.join();
  sim::Quiet q;
  std::multiset<uint64_t> a(ref.begin(), ref.end()), b(states.begin(), states.end());
  if (a != b) sim::violation("async-id", "the random states handed out are not those of the seed, each once (%zu drawn)", states.size());
  for (size_t i = 0; i < ran.size(); i++)
    if (ran[i] > 1) sim::violation("async-once", "task %zu ran %d times", i, ran[i]);
}

Register r("async", [](const json& p) {
  seed0 = p["seed0"];
  pre_trace = p.value("trace_dispatcher", 1);
  int top = 0;
  for (auto& o : p["ops"]) {
    Step x{};
    x.kind = o["kind"];
    x.tag = o.value("tag", 0);
    x.n = o.value("n", 1);
    x.len = o.value("len", 4);
    x.fail = o.value("fail", 0);
    x.how = o.value("how", 0);
    x.version = o.value("version", 2);
    x.pause = o.value("pause", 0);
    int t = o["t"];
    while ((int)threads.size() <= t) threads.emplace_back();
    threads[t].push_back(x);
    top = std::max(top, x.tag + x.n);
  }
  ran.assign(top + 1, 0);
  traced_in.assign(top + 1, nullptr);
  sim::deadlock_class = "async-hang";
  sim::hang_class = "async-hang";
  sim::race_class = "async-race";
  sim::memory_class = "async-memory";
  sim::crash_class = "async-crash";
}, run);
}  // namespace

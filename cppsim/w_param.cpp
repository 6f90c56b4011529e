// N06, N07: model files written, damaged and loaded by the real reader and writer, with failing file operations.
#include <cstdio>
#include <filesystem>
#include <map>
#include <set>
#include <thread>
#include "mllm/backends/cpu/CPUAllocator.hpp"
#include "mllm/core/ParameterFile.hpp"
#include "mllm/engine/Context.hpp"
#include "work.h"
using nlohmann::json;
using namespace mllm;
namespace {
typedef std::vector<unsigned char> Bytes;
struct Par { std::string name; int dtype; std::vector<int32_t> shape; Bytes data; };
struct Found { std::string name; int dtype; std::vector<int32_t> shape; uint64_t off, size; bool sized; };
struct Rd { bool map; bool par; };

int version, how_written;      // how: 0 the native writer, 1 the harness, 2 bytes given
std::vector<Par> pars;
std::vector<Rd> readers;
json layout, damage;
Bytes file;
bool must = true;              // the file is whole: it must be loaded
bool subset = false;           // (bytes given) whatever is loaded must be among the tensors
bool saving = false, damaged = false;
int crash_after = -1;
std::map<int, bool> refused;   // thread -> the reader gave up
std::map<int, int> who;
bool gave_up = false;

// bytes and elements per block of the types used here; others are unknown to this harness
bool type_size(int t, size_t& by, size_t& lanes) {
  static const std::map<int, std::pair<int, int>> m = {
      {0, {4, 1}}, {1, {2, 1}}, {2, {18, 32}}, {8, {34, 32}}, {12, {144, 256}}, {14, {210, 256}}, {16, {1, 1}}, {17, {2, 1}}, {18, {4, 1}}, {128, {2, 1}},
      {129, {1, 1}}, {130, {2, 1}}, {131, {4, 1}}, {132, {8, 1}}, {133, {8, 1}}, {134, {1, 1}}, {136, {1, 1}}, {141, {1, 1}}, {147, {2, 1}}, {156, {1, 1}}, {201, {8, 1}}, {202, {16, 1}}};
  auto it = m.find(t);
  if (it == m.end()) return false;
  by = it->second.first;
  lanes = it->second.second;
  return true;
}
bool bogus(int64_t t) { return t < 0 || t > 202 || (t > 30 && t < 128) || (t > 156 && t < 201) || t == 3 || t == 9 || t == 21 || t == 138 || t == 139; }

template <class T> void put(Bytes& b, T v) { auto p = (unsigned char*)&v; b.insert(b.end(), p, p + sizeof v); }
template <class T> bool get(const Bytes& b, size_t at, T& v) {
  if (at > b.size() || b.size() - at < sizeof v) return false;
  memcpy(&v, &b[at], sizeof v);
  return true;
}

Bytes build() {
  Bytes b, data;
  bool rev = layout.value("reverse", 0);
  size_t gap = layout.value("gap", 0), extra = layout.value("extra", 0);
  std::vector<size_t> off(pars.size());
  size_t head = 0;
  if (version == 1) {
    head = 12;
    for (auto& p : pars) head += 24 + p.name.size();
  } else head = 532 + extra + 352 * pars.size();
  for (size_t j = 0; j < pars.size(); j++) {
    size_t i = rev ? pars.size() - 1 - j : j;
    off[i] = head + data.size();
    data.insert(data.end(), pars[i].data.begin(), pars[i].data.end());
    data.insert(data.end(), gap, 0xEE);
  }
  if (version == 1) {
    put<int32_t>(b, 20012);
    put<uint64_t>(b, head - 12);
    for (size_t i = 0; i < pars.size(); i++) {
      put<uint32_t>(b, pars[i].name.size());
      b.insert(b.end(), pars[i].name.begin(), pars[i].name.end());
      put<uint64_t>(b, pars[i].data.size());
      put<uint64_t>(b, off[i]);
      put<int32_t>(b, pars[i].dtype);
    }
  } else {
    put<int32_t>(b, 0x519A);
    put<int32_t>(b, 2);
    Bytes name(512, 0);
    memcpy(name.data(), "model", 5);
    b.insert(b.end(), name.begin(), name.end());
    put<uint32_t>(b, pars.size());
    put<uint64_t>(b, 532 + extra);
    b.insert(b.end(), extra, 0xDD);
    for (size_t i = 0; i < pars.size(); i++) {
      put<uint32_t>(b, i);
      put<uint32_t>(b, pars[i].dtype);
      put<uint64_t>(b, pars[i].data.size());
      put<uint64_t>(b, off[i]);
      put<uint64_t>(b, pars[i].shape.size());
      for (size_t k = 0; k < 16; k++) put<int32_t>(b, k < pars[i].shape.size() ? pars[i].shape[k] : 0);
      Bytes n(256, 0);
      memcpy(n.data(), pars[i].name.data(), std::min<size_t>(256, pars[i].name.size()));
      b.insert(b.end(), n.begin(), n.end());
    }
  }
  b.insert(b.end(), data.begin(), data.end());
  return b;
}

// What the bytes on disk say; false if they say something no reader may accept.
bool parse(const Bytes& b, std::vector<Found>& out, std::string& why) {
  auto bad = [&](const char* w) { why = w; return false; };
  std::set<std::string> seen;
  auto finish = [&](Found& f) -> const char* {
    if (f.off > b.size() || f.size > b.size() - f.off) return "data outside the file";
    if (bogus(f.dtype)) return "an unknown type";
    size_t by, lanes;
    unsigned __int128 n = 1;
    for (auto d : f.shape) {
      if (d < 0) return "a negative dimension";
      n *= (uint64_t)d;
      if (n >> 80) n = (unsigned __int128)1 << 80;
    }
    f.sized = type_size(f.dtype, by, lanes);
    if (f.sized) {
      if (n % lanes) return "a broken block";
      if (n / lanes * by > f.size) return "more elements than bytes";
      f.size = (uint64_t)(n / lanes * by);
    }
    if (!seen.insert(f.name).second) return "a name twice";
    return nullptr;
  };
  if (version == 1) {
    int32_t magic;
    uint64_t len;
    if (!get(b, 0, magic) || magic != 20012 || !get(b, 4, len)) return bad("no header");
    if (len > b.size() - 12) return bad("descriptors outside the file");
    size_t at = 12, end = 12 + len;
    while (at < end) {
      uint32_t nl;
      Found f;
      if (end - at < 4 || !get(b, at, nl) || end - at - 4 < nl || end - at - 4 - nl < 20) return bad("a torn descriptor");
      f.name.assign((const char*)&b[at + 4], nl);
      at += 4 + nl;
      int32_t t;
      get(b, at, f.size);
      get(b, at + 8, f.off);
      get(b, at + 16, t);
      at += 20;
      f.dtype = t;
      size_t by, lanes;
      if (!bogus(t) && type_size(t, by, lanes)) {
        if (f.size % by) return bad("a broken block");
        if (f.size / by > (uint64_t)INT32_MAX / lanes) return bad("too many elements");
        f.shape = {(int32_t)(f.size / by * lanes)};
      }
      if (auto* w = finish(f)) return bad(w);
      out.push_back(f);
    }
    return true;
  }
  int32_t magic, ver;
  uint32_t num;
  uint64_t at;
  if (!get(b, 0, magic) || magic != 0x519A || !get(b, 4, ver) || ver != 2 || !get(b, 520, num) || !get(b, 524, at)) return bad("no header");
  if (num && at < 532) return bad("descriptors inside the header");
  if (at > b.size() || (uint64_t)num * 352 > b.size() - at) return bad("descriptors outside the file");
  for (uint32_t i = 0; i < num; i++, at += 352) {
    Found f;
    uint32_t t;
    uint64_t sl;
    get(b, at + 4, t);
    get(b, at + 8, f.size);
    get(b, at + 16, f.off);
    get(b, at + 24, sl);
    f.dtype = (int)t;
    if (t > 202) return bad("an unknown type");
    if (sl > 16) return bad("too many dimensions");
    for (uint64_t k = 0; k < sl; k++) {
      int32_t d;
      get(b, at + 32 + 4 * k, d);
      f.shape.push_back(d);
    }
    auto* n = (const char*)&b[at + 96];
    f.name.assign(n, strnlen(n, 256));
    if (auto* w = finish(f)) return bad(w);
    out.push_back(f);
  }
  return true;
}

const char* kPath = "model.mllm";

void die(const char* why) {
  {
    sim::Quiet q;
    sim::event("the process ends: %s", why);
    sim::probe(why);
    namespace f = std::filesystem;
    std::error_code ec;
    f::copy_file(kPath, "after", f::copy_options::overwrite_existing, ec);
    gave_up = true;
    sim::io.armed = false;
    sim::io_on_op = nullptr;
    saving = false;
  }
  sim::hb_release(&gave_up);
  sim::wait_until([] { return false; });
}

void slurp(const char* path) {
  file.clear();
  FILE* f = ::fopen(path, "rb");
  if (!f) return;
  unsigned char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) file.insert(file.end(), buf, buf + n);
  ::fclose(f);
}
void spit(const char* path) {
  FILE* f = ::fopen(path, "wb");
  if (!f) { sim::violation("file-harness", "cannot write"); sim::finish("harness"); }
  if (!file.empty()) fwrite(file.data(), 1, file.size(), f);
  ::fclose(f);
}

void save() {
  auto p = ParameterFile::create(version == 1 ? ModelFileVersion::kV1 : ModelFileVersion::kV2);
  for (auto& x : pars) {
    Tensor t = Tensor::empty(x.shape, (DataTypes)x.dtype, kCPU).alloc();
    if (layout.value("named", 0)) t.impl()->storage()->name_ = layout["named"].get<int>() == 1 ? x.name : "a longer name than before: " + x.name;
    auto* d = t.ptr<unsigned char>();
    for (size_t i = 0; i < x.data.size(); i++) d[i] = x.data[i];
    p->push(x.name, t);
  }
  {
    sim::Quiet q;
    saving = true;
    sim::io.armed = true;
    if (crash_after >= 0)
      sim::io_on_op = [] {
        if (crash_after-- == 0) die("process ends while saving");
      };
  }
  if (version == 1) ParameterFileIOImpl<kCPU, ModelFileVersion::kV1>::write(p, kPath);
  else ParameterFileIOImpl<kCPU, ModelFileVersion::kV2>::write(p, kPath);
  sim::Quiet q;
  saving = false;
  sim::io.armed = false;
  sim::io_on_op = nullptr;
  sim::event("saved");
  sim::probe("saved");
}

std::string show(const std::vector<int32_t>& s) {
  std::string o = "[";
  for (auto d : s) o += (o.size() > 1 ? "," : "") + std::to_string(d);
  return o + "]";
}

void load(int k, bool map) {
  { sim::Quiet q; who[sim::self()] = k; sim::io.armed = true; sim::event("reader %d: %s", k, map ? "mapped" : "buffered"); }
  auto p = version == 1 ? ParameterFileIOImpl<kCPU, ModelFileVersion::kV1>::read(kPath, map) : ParameterFileIOImpl<kCPU, ModelFileVersion::kV2>::read(kPath, map);
  std::vector<Found> want;
  std::string why;
  bool ok;
  {
    sim::Quiet q;
    sim::event("reader %d: loaded", k);
    ok = parse(file, want, why);
    if (!ok) { sim::violation("file-garbage", "a file with %s is loaded %s", why.c_str(), map ? "by mapping it" : "into memory"); return; }
    sim::probe(must ? "whole file loaded" : "damaged file loaded");
    if (p->dict().size() != want.size()) { sim::violation("file-garbage", "%zu parameters are loaded from a file that lists %zu", p->dict().size(), want.size()); return; }
  }
  for (auto& f : want) {
    Tensor t;
    {
      sim::Quiet q;
      if (!p->has(f.name)) { sim::violation("file-garbage", "parameter '%s' of the file is missing", f.name.c_str()); return; }
      t = p->pull(f.name);
      if ((int)t.dtype() != f.dtype) { sim::violation("file-garbage", "parameter '%s' has type %d instead of %d", f.name.c_str(), (int)t.dtype(), f.dtype); return; }
      if ((version == 2 || f.sized) && t.shape() != f.shape) {
        sim::violation("file-garbage", "parameter '%s' has shape %s instead of %s", f.name.c_str(), show(t.shape()).c_str(), show(f.shape).c_str());
        return;
      }
      if (!f.sized) f.size = t.bytes();
      if (t.bytes() != f.size) { sim::violation("file-garbage", "parameter '%s' of %llu bytes has %zu bytes", f.name.c_str(), (unsigned long long)f.size, t.bytes()); return; }
      if (f.size > file.size() || f.off > file.size() - f.size) { sim::violation("file-garbage", "parameter '%s' lies outside the file", f.name.c_str()); return; }
      if (f.size && !sim::live(t.ptr<char>(), f.size)) { sim::violation("file-garbage", "parameter '%s' refers to memory outside the loaded file", f.name.c_str()); return; }
    }
    auto* d = t.ptr<unsigned char>();
    size_t bad = f.size;
    for (size_t i = 0; i < f.size; i++)
      if (d[i] != file[f.off + i]) { bad = i; break; }
    sim::Quiet q;
    if (bad < f.size) { sim::violation("file-garbage", "byte %zu of parameter '%s' is not the one in the file", bad, f.name.c_str()); return; }
    t = Tensor();
  }
  // ... and what the writer was given
  sim::Quiet q;
  if (must || (how_written == 0 && !damaged) || subset) {
    std::map<std::string, const Par*> given;
    for (auto& x : pars) given[x.name] = &x;
    for (auto& f : want) {
      auto it = given.find(f.name);
      if (it == given.end()) { sim::violation("file-lost", "a parameter '%s' is loaded that was never written", f.name.c_str()); return; }
      auto& x = *it->second;
      std::vector<int32_t> sh = version == 2 ? x.shape : f.shape;
      if (x.dtype != f.dtype || sh != f.shape || x.data.size() != f.size || (f.size && memcmp(x.data.data(), &file[f.off], f.size))) {
        sim::violation("file-lost", "parameter '%s' is loaded with type %d, shape %s and %llu bytes; written were type %d, shape %s and %zu%s bytes", f.name.c_str(), f.dtype,
                       show(f.shape).c_str(), (unsigned long long)f.size, x.dtype, show(x.shape).c_str(), x.data.size(), x.data.size() == f.size ? " other" : "");
        return;
      }
    }
    if (!subset && want.size() != pars.size()) sim::violation("file-lost", "%zu parameters are loaded of %zu that were written", want.size(), pars.size());
  }
}

void run() {
  auto& ctx = Context::instance();
  ctx.memory_manager_ = std::make_shared<MemoryManager>();
  MemoryManagerOptions m;
  m.really_large_tensor_threshold = 1 << 13;
  m.buddy_mem_pool_options.buddy_first_segment_cap = 1 << 13;
  m.buddy_mem_pool_options.buddy_min_order = 6;
  m.buddy_mem_pool_options.buddy_max_order = 13;
  ctx.memory_manager_->registerAllocator(kCPU, std::make_shared<cpu::CPUAllocator>(), m);
  bool clean = true;
  if (how_written == 0) {
    bool done = false;
    std::thread t([&done] {
      save();
      sim::hb_release(&gave_up);
      sim::Quiet q;
      done = true;
    });
    t.detach();
    sim::wait_until([&] { return done || gave_up; });
    sim::hb_acquire(&gave_up);
    sim::Quiet q;
    slurp(done ? kPath : "after");
    clean = done;
    must = done;
    gave_up = false;
  } else {
    sim::Quiet q;
    if (how_written == 1) file = build();
  }
  {
    sim::Quiet q;
    for (auto& d : damage) {
      std::string k = d["k"];
      size_t at = d.value("at", (size_t)0);
      if (k == "cut") { if (at < file.size()) { file.resize(at); must = false; damaged = true; } }
      else if (k == "cut%") { file.resize(file.size() * at / 1000); must = false; damaged = true; }
      else if (k == "grow") file.insert(file.end(), at, 0x5A);
      else if (k == "zero") { if (at < file.size()) { std::fill(file.begin() + at, file.end(), 0); must = false; damaged = true; } }
      else if (k == "set") {       // bytes at a place
        std::vector<int> v = d["v"];
        for (size_t i = 0; i < v.size(); i++)
          if (at + i < file.size()) file[at + i] = v[i];
        must = false;
        damaged = true;
      } else if (k == "flip") {
        if (!file.empty()) { file[at % file.size()] ^= d["v"].get<int>(); must = false; damaged = true; }
      }
    }
    spit(kPath);
  }
  int maps0 = sim::io_open_maps(), fds0 = sim::io_open_fds();
  if (!clean) { maps0 = fds0 = -1; }
  std::map<int, bool> done;
  auto start = [&](int k) {
    bool mp = readers[k].map;
    std::thread t([k, mp, &done] {
      load(k, mp);
      sim::hb_release(&done);
      sim::Quiet q;
      done[k] = true;
    });
    t.detach();
  };
  bool lost = false;
  for (size_t k = 0; k < readers.size();) {
    size_t e = k;
    do { start(e); e++; } while (e < readers.size() && readers[e].par);
    sim::wait_until([&] {
      for (size_t i = k; i < e; i++)
        if (!done.count(i) && !refused.count(i)) return false;
      return true;
    });
    sim::hb_acquire(&done);
    for (size_t i = k; i < e; i++) lost = lost || refused.count(i);
    k = e;
  }
  sim::Quiet q;
  if (!lost && maps0 >= 0) {
    if (sim::io_open_maps() != maps0) sim::violation("file-left", "%d maps are left over after loading", sim::io_open_maps() - maps0);
    if (sim::io_open_fds() != fds0) sim::violation("file-left", "%d open files are left over after loading", sim::io_open_fds() - fds0);
  }
  sim::finish(lost ? "refused" : "loaded");
}

Bytes unhex(const std::string& s) {
  Bytes b(s.size() / 2);
  auto h = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i < b.size(); i++) b[i] = h(s[2 * i]) * 16 + h(s[2 * i + 1]);
  return b;
}

Register r("param", [](const json& p) {
  version = p["version"];
  how_written = p["how"];
  layout = p.value("layout", json::object());
  damage = p.value("damage", json::array());
  crash_after = p.value("crash", -1);
  for (auto& t : p["tensors"]) {
    Par x{t["name"], t["dtype"], t["shape"].get<std::vector<int32_t>>(), {}};
    if (t.contains("hex")) x.data = unhex(t["hex"]);
    else {
      size_t by = 1, lanes = 1, n = 1;
      type_size(x.dtype, by, lanes);
      for (auto d : x.shape) n *= d;
      uint32_t s = t["seed"];
      x.data.resize(n / lanes * by);
      for (auto& c : x.data) { s = s * 1664525u + 1013904223u; c = s >> 24; }
    }
    pars.push_back(x);
  }
  if (how_written == 2) {
    file = unhex(p["file"]);
    must = p["must"].get<int>();
    subset = !must;
  }
  for (auto& x : p["readers"]) readers.push_back(Rd{x["map"].get<int>() != 0, x.value("par", 0) != 0});
  sim::deadlock_class = "file-hang";
  sim::hang_class = "file-hang";
  sim::race_class = "file-race";
  sim::memory_class = "file-memory";
  sim::crash_class = "file-crash";
  sim::on_exit = [](const char* how, int) {
    if (strcmp(how, "abort")) return false;
    if (saving) {
      bool odd = false;
      for (auto& x : pars) odd = odd || x.name.size() > 256 || x.shape.size() > 16;
      if (!sim::io_failed() && !odd) return false;
      die("saving reports the failure");
    }
    auto it = who.find(sim::self());
    if (it == who.end()) return false;
    if (must && !sim::io_failed()) {
      sim::violation("file-refused", "a whole model file is refused");
      return true;
    }
    {
      sim::Quiet q;
      refused[it->second] = true;
      sim::event("reader %d: refused", it->second);
      sim::probe(must ? "refused after a failing operation" : "damaged file refused");
    }
    sim::wait_until([] { return false; });
    return true;
  };
}, run);
}  // namespace

// N03: concurrent clients of the real native service, failing sessions, malformed requests, stop and restart.
#include <functional>
#include <thread>
#include "mllm/engine/service/Service.hpp"
#include "work.h"
using nlohmann::json;
namespace svc = mllm::service;
namespace {
// what a session does with a request: decided by the request's own fields
struct Op {
  std::string kind;      // ask, bad, session
  int client;
  std::string model, id, raw;
  int chunks, fail, mode, pause, rsplit, empty = -1;
  bool nomodel;
};
std::vector<std::vector<Op>> clients;
std::vector<Op> control;
int workers;
bool stop_begun = false, stopped = false;
int stop_epoch = 0;

// fail: 0 none, 1 throws std::exception, 2 throws something else, 3 returns without finishing, 4 hands out a number, 5 invalid UTF-8
class FakeSession final : public svc::Session {
 public:
  std::string name;
  explicit FakeSession(std::string n) : name(std::move(n)) {}
  void streamGenerate(const json& r, const std::function<void(const json&, bool)>& cb) override {
    int n, fail, pause;
    std::string id;
    {
      sim::Quiet q;
      n = r["x"]["chunks"];
      fail = r["x"]["fail"];
      pause = r["x"]["pause"];
      id = r["id"];
      sim::event("serve %s", id.c_str());
    }
    for (int i = 0; i < n; i++) {
      if (pause) sim::sleep_ns(pause * 1000 + 1);
      std::string t;
      {
        sim::Quiet q;
        t = name + "/" + id + "/" + std::to_string(i);
        if (fail == 5 && i == n / 2) t += "\xff\xfe";
        if (r["x"].value("empty", -1) == i) t = "";      // nothing to show for this token
      }
      if (fail && i == n / 2) {
        sim::fault("session fails");
        if (fail == 1) throw std::runtime_error("session broke");
        if (fail == 2) throw 7;
        if (fail == 3) return;
        if (fail == 4) cb(json(5), false);
      }
      cb(json(t), false);
    }
    if (fail == 3 && !n) return;
    cb(json(""), true);
  }
};

struct Reply { bool finished, error, has_content, bad; std::string content, id, model, finish_reason; };
Reply parse(const std::string& s) {
  sim::Quiet q;
  Reply r{};
  json j = json::parse(s, nullptr, false);
  if (!j.is_object()) { r.bad = true; r.finished = true; return r; }
  r.finished = j.value("finished", false);
  r.error = j.contains("error");
  r.id = j.value("id", "");
  r.model = j.value("model", "");
  if (j.contains("choices") && j["choices"].is_array() && !j["choices"].empty()) {
    auto& c = j["choices"][0];
    if (c.contains("delta") && c["delta"].contains("content") && c["delta"]["content"].is_string()) {
      r.has_content = true;
      r.content = c["delta"]["content"];
    }
    if (c.contains("finish_reason") && c["finish_reason"].is_string()) r.finish_reason = c["finish_reason"];
  }
  return r;
}

std::string request(const Op& o) {
  sim::Quiet q;
  json j;
  j["id"] = o.id;
  if (!o.nomodel) j["model"] = o.model;
  j["x"] = {{"chunks", o.chunks}, {"fail", o.fail}, {"pause", o.pause}, {"empty", o.empty}};
  return j.dump();
}

// expected pieces of content, and whether the answer ends in an error
void expect(const Op& o, std::vector<std::string>& v, bool& err) {
  err = false;
  if (o.nomodel) {
    for (int i = 0; i < 10; i++) v.push_back(std::to_string(i));
    return;
  }
  if (o.model == "gone") { err = true; return; }
  int n = o.chunks;
  if (o.fail && o.fail != 5 && n) { n = n / 2; err = true; }
  if (o.fail == 3 && !o.chunks) err = true;
  for (int i = 0; i < n; i++) {
    std::string t = o.model + "/" + o.id + "/" + std::to_string(i);
    if (o.fail == 5 && i == o.chunks / 2) t += "\xef\xbf\xbd\xef\xbf\xbd";
    if (i != o.empty) v.push_back(t);
  }
}

struct Seen { std::vector<std::string> chunks; std::vector<std::string> raw; bool finished, error; int after; };

// Read until finished (or one chunk only).
bool read_one(const Op& o, Seen& s) {
  std::string resp = svc::getResponse(o.id);
  Reply r = parse(resp);
  sim::Quiet q;
  sim::event("got %s: %s%s%s", o.id.c_str(), r.content.substr(0, 40).c_str(), r.finished ? " finished" : "", r.error ? " error" : "");
  if (r.bad) sim::violation("svc-answer", "the answer for %s is not an object", o.id.c_str());
  if (r.has_content && r.id != o.id) sim::violation("svc-answer", "the reader of %s got a response of %s", o.id.c_str(), r.id.c_str());
  if (r.has_content && !r.content.empty()) s.chunks.push_back(r.content);
  if (r.has_content && !r.finished && !r.finish_reason.empty()) sim::violation("svc-answer", "an unfinished response of %s has a finish reason", o.id.c_str());
  if (r.has_content && !o.nomodel && r.model != o.model) sim::violation("svc-answer", "a response of %s names the model %s instead of %s", o.id.c_str(), r.model.c_str(), o.model.c_str());
  if (r.finished) {
    s.finished = true;
    s.error = r.error;
    if (r.has_content && r.finish_reason.empty()) sim::violation("svc-answer", "the last response of %s has no finish reason", o.id.c_str());
  }
  return r.finished;
}

void judge(const Op& o, const Seen& s) {
  sim::Quiet q;
  std::vector<std::string> want;
  bool err;
  expect(o, want, err);
  auto list = [](const std::vector<std::string>& v) {
    std::string r = "[";
    for (auto& x : v) r += x + " ";
    return r + "]";
  };
  if (s.chunks != want)
    sim::violation("svc-answer", "the caller of %s received %s instead of %s", o.id.c_str(), list(s.chunks).c_str(), list(want).c_str());
  else if (s.error && !err)
    sim::violation("svc-answer", "the caller of %s was told of an error although its session finished", o.id.c_str());
  else if (!s.error && err)
    sim::violation("svc-answer", "the caller of %s was not told that its request failed", o.id.c_str());
}

void client(int k) {
  std::vector<std::pair<const Op*, Seen>> open_;
  auto drain = [&](size_t i) {
    auto& [o, s] = open_[i];
    if (o->rsplit && !s.finished) {
      // two readers share the answer; each response must reach exactly one of them
      Seen other{};
      const Op* op = o;
      bool fin = false;
      Seen* ps = &s;
      std::thread t([op, &other, ps] {
        while (!ps->finished && !other.finished) {
          if (read_one(*op, other)) break;
          if (other.chunks.size() >= 2) break;
        }
      });
      t.join();
      (void)fin;
      {
        sim::Quiet q;
        s.chunks.insert(s.chunks.end(), other.chunks.begin(), other.chunks.end());
        s.finished = other.finished;
        s.error = other.error;
        sim::probe("answer read by two threads");
      }
    }
    while (!s.finished)
      if (read_one(*o, s)) break;
    judge(*o, s);
  };
  for (auto& o : clients[k]) {
    if (o.kind == "session") {
      svc::insertSession(o.model, std::make_shared<FakeSession>(o.model));
      continue;
    }
    if (o.kind == "bad") {
      bool begun = stop_begun;
      int rc = svc::sendRequest(o.raw);
      (void)begun;
      sim::Quiet q;
      sim::fault("malformed request");
      if (rc == 0) sim::violation("svc-malformed", "a request nobody can be answered for was accepted: %s", o.raw.c_str());
      continue;
    }
    if (o.mode == 2) {   // ask for an id nobody uses: only the stop wakes this reader
      continue;
    }
    std::string r = request(o);
    int before = stopped ? stop_epoch : 0;
    int rc = svc::sendRequest(r);
    {
      sim::Quiet q;
      sim::event("sent %s: %d", o.id.c_str(), rc);
    }
    if (rc != 0) {
      sim::Quiet q;
      if (!stop_begun) sim::violation("svc-refused", "the well-formed request %s was refused by a running service", o.id.c_str());
      else sim::probe("refused by a stopping service");
      continue;
    }
    {
      sim::Quiet q;
      if (before && stopped && stop_epoch == before) sim::violation("svc-refused", "the request %s was accepted by a stopped service", o.id.c_str());
      open_.emplace_back(&o, Seen{});
    }
    if (o.mode == 0) {
      drain(open_.size() - 1);
      sim::Quiet q;
      open_.pop_back();
    }
  }
  if (k & 1) {
    sim::Quiet q;
    std::reverse(open_.begin(), open_.end());
  }
  for (size_t i = 0; i < open_.size(); i++) drain(i);
}

void begin_stop() { sim::Quiet q; stop_begun = true; }

void run() {
  for (auto& c : clients)
    for (auto& o : c)
      if (o.kind == "ask" && !o.nomodel && o.model != "gone") svc::insertSession(o.model, std::make_shared<FakeSession>(o.model));
  svc::startService(workers);
  std::vector<std::thread> ts;
  for (size_t i = 0; i < clients.size(); i++) ts.emplace_back(client, (int)i);
  std::thread lonely([] {
    Reply r = parse(svc::getResponse("nobody"));
    sim::Quiet q;
    if (!stop_begun) sim::violation("svc-answer", "a reader of an unused id got an answer");
    if (!r.finished) sim::violation("svc-stop", "a reader woken by the stop is told to go on waiting");
  });
  int rounds = 0;
  for (auto& o : control) {
    if (o.pause) sim::sleep_ns((uint64_t)o.pause * 1000);
    begin_stop();
    sim::fault("service stopped");
    sim::event("stop");
    svc::stopService();
    sim::event("stopped");
    if (o.mode) {
      // while it is stopped, nothing is accepted and nobody blocks
      { sim::Quiet q; stopped = true; stop_epoch++; }
      int rc = svc::sendRequest("{\"id\":\"late\",\"x\":{\"chunks\":1,\"fail\":0,\"pause\":0},\"model\":\"m0\"}");
      if (rc == 0) sim::violation("svc-refused", "a stopped service accepted a request");
      Reply r = parse(svc::getResponse("late"));
      if (!r.finished || r.has_content) sim::violation("svc-stop", "a stopped service lets the reader of an unknown id wait");
      { sim::Quiet q; stopped = false; }
    }
    if (o.fail) {   // restart
      sim::event("start");
      sim::probe("restarted");
      svc::startService(workers);
      rounds++;
    } else break;
  }
  for (auto& t : ts) t.join();
  begin_stop();
  svc::stopService();
  lonely.join();
  {
    sim::Quiet q;
    stopped = true;
  }
  // restart after everything: a fresh request is served as ever, and no id has anything left over
  if (rounds == 0 && control.empty()) return;
  svc::startService(workers);
  { sim::Quiet q; stopped = false; }
  Op o{};
  o.kind = "ask";
  o.id = "again";
  o.model = "zz";
  o.chunks = 2;
  svc::insertSession("zz", std::make_shared<FakeSession>("zz"));
  std::string r = request(o);
  if (svc::sendRequest(r) != 0) sim::violation("svc-refused", "a restarted service refuses requests");
  else {
    Seen s{};
    while (!read_one(o, s)) {}
    judge(o, s);
    sim::probe("served after a restart");
  }
  svc::stopService();
  for (auto& c : clients)
    for (auto& x : c)
      if (x.kind == "ask") {
        Reply q = parse(svc::getResponse(x.id));
        if (q.has_content && !q.content.empty()) sim::violation("svc-answer", "a response of %s was left over: %s", x.id.c_str(), q.content.c_str());
      }
}

Register r("service", [](const json& p) {
  workers = p["workers"];
  for (auto& o : p["ops"]) {
    Op x{};
    x.kind = o["kind"];
    x.pause = o.value("pause", 0);
    x.empty = o.value("empty", -1);
    x.mode = o.value("mode", 0);
    x.fail = o.value("fail", 0);
    if (x.kind == "stop") { control.push_back(x); continue; }
    x.client = o["c"];
    x.model = o.value("model", "m0");
    x.id = o.value("id", "");
    x.raw = o.value("raw", "");
    x.chunks = o.value("chunks", 0);
    x.rsplit = o.value("split", 0);
    x.nomodel = o.value("nomodel", 0);
    while ((int)clients.size() <= x.client) clients.emplace_back();
    clients[x.client].push_back(x);
  }
  sim::deadlock_class = "svc-hang";
  sim::hang_class = "svc-hang";
  sim::race_class = "svc-race";
  sim::memory_class = "svc-memory";
  sim::crash_class = "svc-crash";
}, run);
}  // namespace

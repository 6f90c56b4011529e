// csim: reads {"plan": {...}, "seed": N} or {"plan": {...}, "trace": [...]} and prints one JSON line.
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "rt.h"
#include "work.h"
using nlohmann::json;
std::map<std::string, Work>& works() {
  static std::map<std::string, Work> w;
  return w;
}
int main() {
  std::string in;
  char b[65536];
  for (;;) {
    ssize_t n = ::read(0, b, sizeof b);
    if (n <= 0) break;
    in.append(b, n);
  }
  json j = json::parse(in);
  const json& plan = j["plan"];
  int fd = dup(1);
  int nul = ::open("/dev/null", O_RDWR);
  dup2(nul, 1);
  if (!getenv("CSIM_ERR")) dup2(nul, 2);
  dup2(nul, 0);
  std::vector<int>* tr = nullptr;
  if (j.contains("trace") && !j["trace"].is_null()) tr = new std::vector<int>(j["trace"].get<std::vector<int>>());
  rt::seed(j.value("seed", (uint64_t)0), tr);
  if (plan.contains("params")) {
    const json& p = plan["params"];
    auto& q = sim::params;
    q.gap = p.value("gap", q.gap);
    q.sync_gap = p.value("sync_gap", q.sync_gap);
    q.p_spurious = p.value("p_spurious", 0.0);
    q.p_cas = p.value("p_cas", 0.0);
    q.p_stall = p.value("p_stall", 0.0);
    q.p_nomem = p.value("p_nomem", 0.0);
    q.nomem_min = p.value("nomem_min", (uint64_t)0);
    q.fair_after = p.value("fair_after", q.fair_after);
    q.limit = p.value("limit", q.limit);
  }
  if (plan.contains("io")) {
    const json& p = plan["io"];
    auto& q = sim::io;
    q.p_short = p.value("p_short", 0.0);
    q.p_eintr = p.value("p_eintr", 0.0);
    q.p_eio = p.value("p_eio", 0.0);
    q.p_enospc = p.value("p_enospc", 0.0);
    q.p_open = p.value("p_open", 0.0);
    q.p_mmap = p.value("p_mmap", 0.0);
    q.p_stat = p.value("p_stat", 0.0);
    q.p_trunc = p.value("p_trunc", 0.0);
  }
  auto it = works().find(plan["work"].get<std::string>());
  if (it == works().end()) {
    fprintf(stderr, "no such workload\n");
    return 3;
  }
  it->second.setup(plan);
  rt::start(it->second.run, fd);
  return 3;
}

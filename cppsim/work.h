// A workload: set up from the plan outside the simulation, then run as the first simulated thread.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <nlohmann/json.hpp>
#include "sim.h"
struct Work {
  std::function<void(const nlohmann::json&)> setup;
  void (*run)();
};
std::map<std::string, Work>& works();
struct Register {
  Register(const char* n, std::function<void(const nlohmann::json&)> s, void (*r)()) { works()[n] = Work{s, r}; }
};

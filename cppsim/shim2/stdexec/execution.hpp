// A small stand-in for the parts of NVIDIA stdexec that mllm uses (schedule | then, sync_wait, when_all, any sender); the library
// itself is not installed.  It keeps the documented behaviour: work starts when it is waited for, runs once on a thread of the pool,
// an exception travels to the waiter, and jobs of a pool are taken in no particular order.
#pragma once
#include <condition_variable>
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <thread>
#include <tuple>
#include <vector>

extern "C" unsigned sim_pool_pick(unsigned n);

namespace stdexec {

using done_t = std::function<void(std::exception_ptr)>;

struct work {
  std::function<void(done_t)> start;
};

struct set_value_t {};
struct set_error_t {};
struct set_stopped_t {};
template<class...>
struct completion_signatures {};

template<class S>
work schedule(S s) {
  return {[s](done_t d) { s.post(std::move(d)); }};
}

template<class F>
struct then_t {
  F f;
};
template<class F>
then_t<F> then(F f) {
  return {std::move(f)};
}
template<class F>
work operator|(work s, then_t<F> t) {
  return {[s = std::move(s), f = std::move(t.f)](done_t d) {
    s.start([f, d = std::move(d)](std::exception_ptr e) {
      if (!e) {
        try {
          f();
        } catch (...) { e = std::current_exception(); }
      }
      d(e);
    });
  }};
}

template<class F>
work then(work s, F f) {
  return std::move(s) | then_t<F>{std::move(f)};
}
template<class T>
concept sender = std::is_same_v<std::remove_cvref_t<T>, work>;

template<class... S>
work when_all(S... s) {
  auto all = std::make_shared<std::vector<work>>();
  (all->push_back(std::move(s)), ...);
  return {[all](done_t d) {
    struct st {
      std::mutex m;
      size_t left;
      std::exception_ptr e;
    };
    if (all->empty()) { d(nullptr); return; }
    auto x = std::make_shared<st>();
    x->left = all->size();
    for (auto& i : *all) {
      i.start([x, d](std::exception_ptr e) {
        bool last;
        std::exception_ptr out;
        {
          std::lock_guard<std::mutex> g(x->m);
          if (e && !x->e) x->e = e;
          last = --x->left == 0;
          out = x->e;
        }
        if (last) d(out);
      });
    }
  }};
}

inline std::optional<std::tuple<>> sync_wait(work s) {
  struct st {
    std::mutex m;
    std::condition_variable c;
    bool done = false;
    std::exception_ptr e;
  };
  auto x = std::make_shared<st>();
  s.start([x](std::exception_ptr e) {
    std::lock_guard<std::mutex> g(x->m);
    x->e = e;
    x->done = true;
    x->c.notify_all();
  });
  std::unique_lock<std::mutex> g(x->m);
  x->c.wait(g, [&] { return x->done; });
  if (x->e) std::rethrow_exception(x->e);
  return std::tuple<>{};
}

}  // namespace stdexec

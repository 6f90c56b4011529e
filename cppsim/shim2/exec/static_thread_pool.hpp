#pragma once
#include <stdexec/execution.hpp>
namespace exec {
struct no_numa_policy {};
struct numa_policy {
  numa_policy(no_numa_policy) {}
};
class static_thread_pool {
  std::mutex m_;
  std::condition_variable c_;
  std::vector<stdexec::done_t> q_;
  bool stop_ = false;
  std::vector<std::thread> t_;

  void loop() {
    for (;;) {
      stdexec::done_t j;
      {
        std::unique_lock<std::mutex> g(m_);
        c_.wait(g, [&] { return stop_ || !q_.empty(); });
        if (q_.empty()) return;
        size_t i = sim_pool_pick(q_.size());
        j = std::move(q_[i]);
        q_.erase(q_.begin() + i);
      }
      j(nullptr);
    }
  }

 public:
  explicit static_thread_pool(unsigned n) {
    for (unsigned i = 0; i < n; i++) t_.emplace_back([this] { loop(); });
  }
  static_thread_pool(const static_thread_pool&) = delete;
  ~static_thread_pool() {
    {
      std::lock_guard<std::mutex> g(m_);
      stop_ = true;
    }
    c_.notify_all();
    for (auto& i : t_) i.join();
  }
  struct scheduler {
    static_thread_pool* p;
    void post(stdexec::done_t d) const {
      {
        std::lock_guard<std::mutex> g(p->m_);
        p->q_.push_back(std::move(d));
      }
      p->c_.notify_one();
    }
  };
  scheduler get_scheduler() { return {this}; }
};
}  // namespace exec

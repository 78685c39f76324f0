#pragma once
#include <deque>
#include <thread>
#include "stdexec/execution.hpp"
namespace exec {
struct no_numa_policy {};
struct numa_policy { numa_policy() = default; explicit numa_policy(no_numa_policy) {} };
class static_thread_pool {
 public:
  explicit static_thread_pool(uint32_t n = std::thread::hardware_concurrency()) {
    if (n == 0) n = 1;
    for (uint32_t i = 0; i < n; ++i) th_.emplace_back([this] { loop(); });
  }
  ~static_thread_pool() {
    { std::lock_guard<std::mutex> l(m_); stop_ = true; cv_.notify_all(); }
    for (auto& t : th_) t.join();
  }
  struct scheduler {
    static_thread_pool* p;
    void enqueue(std::function<void()> f) {
      std::lock_guard<std::mutex> l(p->m_);
      p->q_.push_back(std::move(f));
      p->cv_.notify_one();
    }
  };
  scheduler get_scheduler() { return {this}; }
 private:
  void loop() {
    for (;;) {
      std::function<void()> f;
      {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [this] { return stop_ || !q_.empty(); });
        if (q_.empty()) return;
        f = std::move(q_.front());
        q_.pop_front();
      }
      f();
    }
  }
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<std::function<void()>> q_;
  bool stop_ = false;
  std::vector<std::thread> th_;
};
}  // namespace exec

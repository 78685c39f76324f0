// Minimal stand-in for NVIDIA's stdexec: the few things mllm's headers use
// (schedule | then, when_all, sync_wait, a type-erased sender). Lazy senders:
// nothing runs before sync_wait / when_all starts it, as in stdexec.
#pragma once
#include <condition_variable>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <atomic>

namespace stdexec {
struct set_value_t {};
struct set_error_t_tag {};
struct set_stopped_t {};
struct set_error_t { set_error_t() = default; };
template<class...> struct completion_signatures {};

using __done_t = std::function<void(std::exception_ptr)>;

struct __sender {
  std::function<void(__done_t)> start;
};
template<class T> concept sender = std::is_convertible_v<std::decay_t<T>, __sender>;

template<class F> struct __then { F f; };
template<class F> auto then(F f) { return __then<F>{std::move(f)}; }
template<class F> __sender operator|(__sender s, __then<F> t) {
  return __sender{[s = std::move(s), f = std::move(t.f)](__done_t done) {
    s.start([f, done](std::exception_ptr e) {
      if (!e) {
        try { f(); } catch (...) { e = std::current_exception(); }
      }
      done(e);
    });
  }};
}
template<class F> __sender then(__sender s, F f) { return std::move(s) | then(std::move(f)); }
template<class Sch> __sender schedule(Sch sch) {
  return __sender{[sch](__done_t done) mutable { sch.enqueue([done] { done(nullptr); }); }};
}
inline std::optional<std::tuple<>> sync_wait(__sender s) {
  struct st_t { std::mutex m; std::condition_variable cv; bool done = false; std::exception_ptr e; };
  auto st = std::make_shared<st_t>();
  s.start([st](std::exception_ptr e) {
    std::lock_guard<std::mutex> l(st->m);
    st->e = e;
    st->done = true;
    st->cv.notify_all();
  });
  std::unique_lock<std::mutex> l(st->m);
  st->cv.wait(l, [&] { return st->done; });
  if (st->e) std::rethrow_exception(st->e);
  return std::tuple<>{};
}
template<class... S> __sender when_all(S... s) {
  std::vector<__sender> v{std::move(s)...};
  return __sender{[v](__done_t done) {
    struct st_t { std::atomic<size_t> left; std::mutex m; std::exception_ptr e; };
    auto st = std::make_shared<st_t>();
    st->left = v.size();
    if (v.empty()) { done(nullptr); return; }
    for (auto& x : v) {
      x.start([st, done](std::exception_ptr e) {
        if (e) { std::lock_guard<std::mutex> l(st->m); if (!st->e) st->e = e; }
        if (st->left.fetch_sub(1) == 1) done(st->e);
      });
    }
  }};
}
}  // namespace stdexec

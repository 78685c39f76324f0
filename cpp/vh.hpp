// Harness side of lib/cpp.py: reporting, random numbers, small helpers.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>

namespace vh {
inline uint64_t seed() { const char* s = getenv("VH_SEED"); return s ? strtoull(s, nullptr, 10) : 1; }
inline bool thorough() { const char* s = getenv("VH_THOROUGH"); return s && *s == '1'; }
inline int scale(int q, int t) { return thorough() ? t : q; }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int64_t in(int64_t lo, int64_t hi) { return lo + int64_t(next() >> 11) % (hi - lo + 1); }
  bool p(double x) { return double(next() >> 11) / 9007199254740992.0 < x; }
  double f(double lo, double hi) { return lo + (hi - lo) * (double(next() >> 11) / 9007199254740992.0); }
  template<class V> auto& pick(V& v) { return v[in(0, int64_t(v.size()) - 1)]; }
};

struct Out {
  FILE* f = nullptr;
  std::mutex m;
  std::map<std::string, long> cnt;
  std::map<std::string, std::unordered_set<std::string>> seen;
  std::map<std::string, int> viol;
  std::unordered_set<std::string> keys;
  long n = 0;
  int samples = 0;
};
inline Out& out() {
  static Out* o = [] {
    auto* x = new Out;
    const char* p = getenv("VH_OUT");
    x->f = p ? fopen(p, "a") : stderr;
    return x;
  }();
  return *o;
}
inline std::string clean(std::string s) { for (auto& c : s) if (c == '\t' || c == '\n' || c == '\r') c = ' '; return s; }
inline void raw(const std::string& l) { auto& o = out(); fputs((l + "\n").c_str(), o.f); fflush(o.f); }
inline void violation(const std::string& sig, const std::string& msg, const std::string& detail = "") {
  std::lock_guard<std::mutex> l(out().m);
  if (out().viol[sig]++ < 3) raw("V\t" + clean(sig) + "\t" + clean(msg).substr(0, 900) + "\t" + clean(detail).substr(0, 4000));
}
inline void observe(const std::string& k, long n = 1) { std::lock_guard<std::mutex> l(out().m); out().cnt[k] += n; }
inline void seen(const std::string& k, const std::string& v) { std::lock_guard<std::mutex> l(out().m); auto& s = out().seen[k]; if (s.size() < 5000) s.insert(v); }
inline void cases(const std::string& key) { std::lock_guard<std::mutex> l(out().m); out().n++; if (out().keys.size() < 20000) out().keys.insert(key); }
inline void sample(const std::string& s) { std::lock_guard<std::mutex> l(out().m); if (out().samples++ < 5) raw("X\t" + clean(s).substr(0, 300)); }
inline void begin(const std::string& what) { std::lock_guard<std::mutex> l(out().m); raw("B\t" + clean(what)); }
inline void harness_error(const std::string& what) { raw("H\t" + clean(what)); _exit(5); }
inline void flush_counts() {
  auto& o = out();
  std::lock_guard<std::mutex> l(o.m);
  raw("N\t" + std::to_string(o.n));
  for (auto& k : o.keys) raw("K\t" + clean(k));
  for (auto& [k, v] : o.cnt) raw("O\t" + k + "\t" + std::to_string(v));
  for (auto& [k, s] : o.seen) for (auto& v : s) raw("S\t" + k + "\t" + clean(v));
  o.n = 0; o.keys.clear(); o.cnt.clear(); o.seen.clear();
}
inline int finish() { flush_counts(); raw("E"); return 0; }

// Run f in a child process: exit status class "ok", "refused" (the code under
// test aborted or exited by itself, or threw), or "crash:<signal>"/"hang".
inline std::string in_child(const std::function<void()>& f, int seconds = 20) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(seconds);
    { auto& o = out(); o.n = 0; o.keys.clear(); o.cnt.clear(); o.seen.clear(); }
    try { f(); } catch (...) { flush_counts(); _exit(41); }
    flush_counts();
    _exit(40);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) {
    int c = WEXITSTATUS(st);
    if (c == 40) return "ok";
    if (c == 41) return "threw";
    if (c == 77 || c == 78 || c == 66) return "sanitizer";
    return "refused";
  }
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGABRT) return "refused";
    if (WTERMSIG(st) == SIGALRM) return "hang";
    return "crash:" + std::to_string(WTERMSIG(st));
  }
  return "?";
}
template<class... A> std::string S(const A&... a) { std::ostringstream o; (o << ... << a); return o.str(); }
template<class V> std::string L(const V& v, size_t max = 60) { std::ostringstream o; o << "["; size_t n = 0; for (auto& x : v) { if (n++) o << ","; if (n > max) { o << "..."; break; } o << +x; } o << "]"; return o.str(); }
}  // namespace vh

// C02: paged KV storage. Every live token address has its own bytes, kept
// until it is freed; lanes are reused; purge/prefetch are hints; a recorded
// store comes back from disk as it was.
#include "vh.hpp"
#include <filesystem>
#include "mllm/mllm.hpp"
#include "mllm/engine/prefix_cache/Cache.hpp"
#include "mllm/engine/prefix_cache/ZenFS.hpp"
using namespace mllm;
using namespace mllm::prefix_cache;
namespace fs = std::filesystem;

struct Live { uint64_t tag; char* p; };
static void fill(char* p, size_t n, uint64_t tag) { vh::Rng r(tag); for (size_t i = 0; i < n; ++i) p[i] = (char)r.next(); }
static bool same(const char* p, size_t n, uint64_t tag) { vh::Rng r(tag); for (size_t i = 0; i < n; ++i) if (p[i] != (char)r.next()) return false; return true; }

static void history(uint64_t sd, const std::string& scratch) {
  vh::Rng r(sd);
  ZenFileSystemOptions o;
  o.lane_bits = r.in(0, 6); o.page_bits = r.in(0, 4);
  static const DataTypes dts[] = {kFloat32, kFloat16, kInt32, kInt8};
  static const int bytes[] = {4, 2, 4, 1};
  int d = r.in(0, 3);
  o.k_dtype = o.v_dtype = dts[d];
  int big = r.p(0.25);
  o.per_k_token_ele = o.per_v_token_ele = big ? 1024 * r.in(1, 2) : r.in(1, 40);
  bool file = r.p(0.5);
  o.mmap_type = file ? ZenFSBlobMMapType::kFile : ZenFSBlobMMapType::kAnonymous;
  o.record = file && r.p(0.7);
  std::string dir = scratch + "/" + std::to_string(sd);
  o.working_dir = dir;
  if (file && !o.record) fs::create_directories(dir);
  size_t tok = bytes[d] * o.per_k_token_ele, cap = (size_t)1 << (o.lane_bits + o.page_bits);
  size_t peak_aim = std::min<size_t>(cap * 3 + 5, 400);
  std::string cfg = vh::S("lanes=2^", o.lane_bits, " pages=2^", o.page_bits, " token=", tok, "B ", file ? "file" : "anonymous", o.record ? " recorded" : "");
  auto z = std::make_unique<ZenFileSystem>();
  z->initialize(o);
  std::map<vp_addr_t, Live> live;
  std::map<uintptr_t, vp_addr_t> span;  // start -> address
  size_t peak = 0;
  uint64_t tag = sd * 1000;
  auto verify = [&](const char* when) {
    for (auto& [a, l] : live) {
      char* p = z->access(a);
      if (!p) { vh::violation(vh::S("access:", when), vh::S(cfg, ": address ", a, " in use has no memory (", when, ")")); return false; }
      if (!same(p, tok, l.tag)) { vh::violation(vh::S("data:", when), vh::S(cfg, ": the data of address ", a, " changed (", when, ", ", live.size(), " live)")); return false; }
    }
    return true;
  };
  int steps = r.in(30, 260), recoveries = 0;
  double grow = 0.75;
  for (int s = 0; s < steps; ++s) {
    if (live.size() >= peak_aim) grow = 0.25;
    if (live.size() < 3) grow = 0.75;
    double x = r.f(0, 1);
    if (x < 0.86) {
      if (r.p(grow) || live.empty()) {
        vp_addr_t a = z->malloc();
        vh::observe("allocations");
        if (live.count(a)) { vh::violation("double", vh::S(cfg, ": address ", a, " was handed out while in use (", live.size(), " live)")); break; }
        char* p = z->access(a);
        if (!p) { vh::violation("access:new", vh::S(cfg, ": new address ", a, " has no memory")); break; }
        auto it = span.upper_bound((uintptr_t)p);
        if (it != span.end() && it->first < (uintptr_t)p + tok) { vh::violation("overlap", vh::S(cfg, ": addresses ", a, " and ", it->second, " share bytes")); break; }
        if (it != span.begin() && std::prev(it)->first + tok > (uintptr_t)p) { vh::violation("overlap", vh::S(cfg, ": addresses ", a, " and ", std::prev(it)->second, " share bytes")); break; }
        live[a] = {++tag, p};
        span[(uintptr_t)p] = a;
        peak = std::max(peak, live.size());
        size_t blob = a >> (o.lane_bits + o.page_bits);
        if (blob >= (peak + cap - 1) / cap) { vh::violation("growth", vh::S(cfg, ": address in blob ", blob, " although at most ", peak, " tokens were ever in use")); break; }
        fill(p, tok, tag);
      } else {
        auto it = std::next(live.begin(), r.in(0, live.size() - 1));
        z->free(it->first);
        span.erase((uintptr_t)it->second.p);
        live.erase(it);
        vh::observe("frees");
      }
    } else if (x < 0.96 && !live.empty()) {
      auto it = std::next(live.begin(), r.in(0, live.size() - 1));
      if (r.p(0.6)) { z->hintsPurge(it->first); vh::observe("purges"); if (!verify("purge")) break; }
      else { z->hintsPrefetch(it->first); vh::observe("prefetches"); }
    } else if (o.record && r.p(0.5)) {
      z->finalize();
      z.reset();
      z = std::make_unique<ZenFileSystem>();
      z->recover(dir);
      ++recoveries;
      vh::observe("recoveries");
      span.clear();
      if (!verify("recover")) break;
      for (auto& [a, l] : live) { l.p = z->access(a); span[(uintptr_t)l.p] = a; }
    }
    if (s % 20 == 0 && !verify("history")) break;
  }
  verify("end");
  // everything back: the same lanes serve the same number of tokens again
  for (auto& [a, l] : live) z->free(a);
  std::set<vp_addr_t> again;
  for (size_t i = 0; i < peak; ++i) {
    auto a = z->malloc();
    if (!again.insert(a).second) { vh::violation("double", vh::S(cfg, ": after everything was freed, address ", a, " was handed out twice")); break; }
    if ((a >> (o.lane_bits + o.page_bits)) >= (peak + cap - 1) / cap) { vh::violation("reuse", vh::S(cfg, ": freed lanes are not reused: address ", a, " for token ", i, " of ", peak)); break; }
  }
  vh::cases(vh::S(cfg, ":", peak, ":", recoveries));
  vh::seen("store", vh::S(cap, file, o.record));
  vh::sample(vh::S(cfg, ": ", steps, " steps, peak ", peak, " live, ", recoveries, " recoveries"));
  z.reset();
  fs::remove_all(dir);
}

// The allocator in front of it (Cache::alloc/free/physicalAddr with its TLB).
static void front(uint64_t sd) {
  vh::Rng r(sd);
  CacheOptions co;
  co.allocator_options.zen_fs_options = {.record = false, .working_dir = ".", .blob_bits_size = 20, .page_bits = (size_t)r.in(0, 3), .lane_bits = (size_t)r.in(0, 5), .per_k_token_ele = 8, .per_v_token_ele = 8, .k_dtype = kFloat32, .v_dtype = kFloat32};
  Cache c(co);
  std::map<vp_addr_t, uint64_t> live;
  uint64_t tag = sd * 77;
  for (int s = 0; s < 300; ++s) {
    if (r.p(0.6) || live.empty()) {
      auto a = c.alloc(kCPU);
      if (live.count(a)) { vh::violation("double", vh::S("Cache::alloc handed out ", a, " while in use")); return; }
      char* p = c.physicalAddr(a);
      if (!p) { vh::violation("access:new", vh::S("Cache::alloc: ", a, " has no memory")); return; }
      live[a] = ++tag;
      fill(p, 32, tag);
    } else {
      auto it = std::next(live.begin(), r.in(0, live.size() - 1));
      auto a = it->first;
      if (r.p(0.3)) { c.prefetch(kCPU, a); c.purge(kCPU, a); }
      if (!same(c.physicalAddr(a), 32, it->second)) { vh::violation("data:cache", vh::S("Cache: the data of address ", a, " changed")); return; }
      c.free(kCPU, a);
      if (c.physicalAddr(a)) { vh::violation("stale", vh::S("Cache: freed address ", a, " still resolves")); return; }
      live.erase(it);
    }
    vh::observe("cache_steps");
  }
  for (auto& [a, t] : live) if (!c.physicalAddr(a) || !same(c.physicalAddr(a), 32, t)) { vh::violation("data:cache", vh::S("Cache: the data of address ", a, " changed")); return; }
  vh::cases(vh::S("front:", co.allocator_options.zen_fs_options.page_bits, ":", co.allocator_options.zen_fs_options.lane_bits, ":", live.size()));
}

int main() {
  char t[] = "/tmp/verif-zenfs-XXXXXX";
  std::string scratch = mkdtemp(t);
  initializeContext();
  for (int i = 0; i < vh::scale(250, 5000); ++i) { vh::begin(vh::S("zenfs history ", i)); history(vh::seed() * 100003 + i, scratch); }
  for (int i = 0; i < vh::scale(60, 1000); ++i) { vh::begin(vh::S("cache history ", i)); front(vh::seed() * 200003 + i); }
  fs::remove_all(scratch);
  vh::finish();
  shutdownContext();
  return 0;
}

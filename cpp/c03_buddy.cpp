// C03: the memory pool behind every tensor. Live storages never share bytes,
// keep their contents, are aligned and lie in memory taken from the allocator;
// freed memory is reused: a new segment is requested only when no free block
// of the size exists. Built twice: alone with TSan (VH_POOL_ONLY) for the
// concurrent part, with the runtime and ASan for the rest.
#include "vh.hpp"
#include <algorithm>
#include <atomic>
#include <list>
#include <thread>
#include "mllm/engine/BuddyMemPool.hpp"
#ifndef VH_POOL_ONLY
#include "mllm/mllm.hpp"
#include "mllm/engine/MemoryManager.hpp"
#endif
using namespace mllm;

struct RecAllocator final : public Allocator {
  size_t align;
  std::mutex m;
  std::map<char*, size_t> segs;          // memory handed to the pool
  std::map<char*, size_t> direct;        // memory handed to storages directly
  std::function<void(size_t)> on_grow;
  size_t total = 0;
  bool fake = false;   // addresses only: the pool itself never touches a segment
  explicit RecAllocator(size_t a) : align(a) {}
  bool ctrlByMemManager() override { return true; }
  bool alloc(Storage* s) override { std::lock_guard<std::mutex> l(m); if (posix_memalign(&s->ptr_, align, allocSize(s))) return false; direct[(char*)s->ptr_] = s->size_; return true; }
  bool alloc(const Storage::ptr_t& s) override { return alloc(s.get()); }
  void free(Storage* s) override {
    std::lock_guard<std::mutex> l(m);
    if (!direct.erase((char*)s->ptr_)) { vh::violation("foreign-free", "memory the allocator did not hand out directly was given back to it"); return; }
    ::free(s->ptr_);
  }
  void free(const Storage::ptr_t& s) override { free(s.get()); }
  bool generalAlloc(void** p, size_t cap, size_t al) override {
    std::lock_guard<std::mutex> l(m);
    if (on_grow) on_grow(cap);
    total += cap;
    if (fake) *p = (void*)(total * 4096);
    else if (posix_memalign(p, al, cap)) return false;
    segs[(char*)*p] = cap;
    return true;
  }
  void generalFree(void* p) override {
    std::lock_guard<std::mutex> l(m);
    if (!segs.erase((char*)p)) vh::violation("segment-free", "the pool gave back a segment it does not own");
    ::free(p);
  }
  size_t allocSize(Storage* s) override { return (s->size_ + align - 1) / align * align; }
  size_t allocSize(const Storage::ptr_t& s) override { return allocSize(s.get()); }
  size_t alignSize() const override { return align; }
};

static size_t pow2ceil(size_t x) { size_t p = 1; while (p < x) p <<= 1; return p; }
static void paint(char* p, size_t n, uint64_t tag) {
  vh::Rng r(tag);
  size_t st = n > 4096 ? n / 61 | 1 : 1;
  for (size_t i = 0; i < n; i += st) p[i] = (char)r.next();
  if (n) p[n - 1] = (char)tag;
}
static bool painted(const char* p, size_t n, uint64_t tag) {
  vh::Rng r(tag);
  size_t st = n > 4096 ? n / 61 | 1 : 1;
  for (size_t i = 0; i < n; i += st) { char want = (char)r.next(); if (i != n - 1 && p[i] != want) return false; }
  return !n || p[n - 1] == (char)tag;
}

struct Live { Storage* s; uint64_t tag; size_t block; };

static void history(uint64_t sd) {
  vh::Rng r(sd);
  BuddyMemPoolOptions o;
  o.buddy_min_order = r.in(6, 14);
  o.buddy_max_order = o.buddy_min_order + r.in(0, 8);
  o.buddy_first_segment_cap = (size_t)1 << o.buddy_max_order;
  o.cache_small_obj_enabled = r.p(0.4);
  static const size_t aligns[] = {16, 32, 64};
  auto al = std::make_shared<RecAllocator>(aligns[r.in(0, 2)]);
  size_t mn = (size_t)1 << o.buddy_min_order, cap0 = o.buddy_first_segment_cap;
  std::vector<size_t> sizes;
  for (int i = 0; i < 4; ++i) sizes.push_back((r.in(1, std::max<int64_t>(2, cap0 / 4)) + al->align - 1) / al->align * al->align);
  if (o.cache_small_obj_enabled) for (auto s : sizes) if (r.p(0.7)) o.cache_size_set.insert(s);
  std::string cfg = vh::S("orders ", o.buddy_min_order, "-", o.buddy_max_order, o.cache_small_obj_enabled ? " with object cache" : "");
  std::map<char*, size_t> busy;                       // blocks not free: in use or cached
  std::map<size_t, std::set<char*>> cached;           // per size
  std::unordered_set<size_t> cache_set = o.cache_size_set;
  size_t want = 0;
  bool armed = false;
  auto fits = [&](size_t need) {
    for (auto& [seg, cap] : al->segs) {
      for (size_t off = 0; off + need <= cap; off += need) {
        char* lo = seg + off;
        auto it = busy.lower_bound(lo);
        bool clash = it != busy.end() && it->first < lo + need;
        if (it != busy.begin()) { auto q = std::prev(it); clash |= q->first + q->second > lo; }
        if (!clash) return true;
      }
    }
    return false;
  };
  al->on_grow = [&](size_t cap) {
    if (!armed) return;
    vh::observe("grown");
    if (fits(want)) vh::violation("growth", vh::S(cfg, ": a new segment of ", cap, "B was requested for a block of ", want, "B although a free one existed"));
    if (cap < want && cap < ((size_t)1 << 29)) vh::observe("grown_small");
  };
  auto pool = std::make_unique<BuddyMemPool>(o, al);
  armed = true;
  std::vector<Live> live;
  uint32_t uuid = 1;
  uint64_t tag = sd * 7919;
  int steps = r.in(20, 200);
  double grow = 0.7;
  size_t in_use = 0, max_use = cap0 * 6;
  auto verify = [&](const char* when) {
    for (auto& l : live) if (!painted((char*)l.s->ptr_, l.s->size_, l.tag)) {
      vh::violation(vh::S("data:", when), vh::S(cfg, ": the bytes of a live storage of ", l.s->size_, "B changed (", when, ")"));
      return false;
    }
    return true;
  };
  auto release = [&](size_t i) {
    Live l = live[i];
    if (!painted((char*)l.s->ptr_, l.s->size_, l.tag)) { vh::violation("data:free", vh::S(cfg, ": the bytes of a live storage of ", l.s->size_, "B changed before it was freed")); return false; }
    size_t as = al->allocSize(l.s);
    char* p = (char*)l.s->ptr_;
    pool->free(l.s);
    if (o.cache_small_obj_enabled && cache_set.count(as)) cached[as].insert(p); else busy.erase(p);
    in_use -= l.block;
    delete l.s;
    live[i] = live.back();
    live.pop_back();
    vh::observe("frees");
    return true;
  };
  bool ok = true;
  for (int s = 0; s < steps && ok; ++s) {
    if (in_use > max_use) grow = 0.3;
    if (live.empty()) grow = 0.75;
    if (live.empty() || r.p(grow)) {
      auto* st = new Storage;
      st->custom_32bit_uuid_ = uuid++;
      double x = r.f(0, 1);
      if (x < 0.35) st->size_ = sizes[r.in(0, 3)];
      else if (x < 0.6) st->size_ = r.in(1, mn);
      else if (x < 0.75) st->size_ = ((size_t)1 << r.in(o.buddy_min_order, o.buddy_max_order)) - r.in(0, 1);
      else if (x < 0.97) st->size_ = r.in(1, cap0);
      else st->size_ = r.in(1, std::min<size_t>(cap0 * 3, 1u << 24));   // more than the first segment holds
      if (r.p(0.02)) st->size_ = 0;
      size_t as = al->allocSize(st);
      bool from_cache = o.cache_small_obj_enabled && cache_set.count(as) && !cached[as].empty();
      want = std::max(mn, pow2ceil(as));
      size_t before = al->segs.size();
      vh::begin(vh::S("seed ", sd, " alloc ", st->size_));
      pool->alloc(st);
      char* p = (char*)st->ptr_;
      vh::observe("allocations");
      if (!p) { vh::violation("null", vh::S(cfg, ": alloc(", st->size_, ") left a null pointer")); break; }
      if ((uintptr_t)p % al->align) { vh::violation("align", vh::S(cfg, ": alloc(", st->size_, ") is not aligned to ", al->align)); break; }
      if (from_cache) {
        vh::observe("cache_hits");
        if (al->segs.size() != before) { vh::violation("cache-unused", vh::S(cfg, ": the pool grew for a size it had cached a block for")); break; }
        if (cached[as].erase(p)) busy.erase(p);
        else vh::observe("cache_bypassed");
      }
      auto sg = al->segs.upper_bound(p);
      if (sg == al->segs.begin() || std::prev(sg)->first + std::prev(sg)->second < p + st->size_) { vh::violation("outside", vh::S(cfg, ": alloc(", st->size_, ") lies outside the pool's segments")); break; }
      auto it = busy.lower_bound(p);
      size_t span = std::max<size_t>(st->size_, 1);
      if ((it != busy.end() && it->first < p + span) || (it != busy.begin() && std::prev(it)->first + std::prev(it)->second > p)) {
        vh::violation("overlap", vh::S(cfg, ": alloc(", st->size_, ") shares bytes with memory in use"));
        break;
      }
      busy[p] = want;
      in_use += want;
      live.push_back({st, ++tag, want});
      paint(p, st->size_, tag);
    } else {
      ok = release(r.in(0, live.size() - 1));
    }
    if (o.cache_small_obj_enabled && r.p(0.04)) {
      std::unordered_set<size_t> ns;
      for (auto z : sizes) if (r.p(0.5)) ns.insert(z);
      pool->updateCacheSizeList(ns);
      for (auto& [sz, ps] : cached) if (!ns.count(sz)) { for (auto p : ps) busy.erase(p); ps.clear(); }
      cache_set = ns;
      vh::observe("cache_updates");
    }
    if (s % 16 == 0) ok = ok && verify("step");
  }
  ok = ok && verify("end");
  while (ok && !live.empty()) ok = release(r.in(0, live.size() - 1));
  if (ok) {
    pool->updateCacheSizeList({});
    for (auto& [sz, ps] : cached) for (auto p : ps) busy.erase(p);
    cached.clear();
    cache_set.clear();
    // Everything is free again: one block of each segment's size, without growing.
    if (!busy.empty()) vh::harness_error("blocks left in the model");
    size_t n = al->segs.size();
    auto segs = al->segs;
    std::vector<Storage*> all;
    for (auto& [p, cap] : segs) {
      auto* st = new Storage;
      st->custom_32bit_uuid_ = uuid++;
      st->size_ = cap;
      want = cap;
      pool->alloc(st);
      busy[(char*)st->ptr_] = cap;
      all.push_back(st);
    }
    vh::observe("drained");
    if (al->segs.size() != n) vh::violation("lost", vh::S(cfg, ": after everything was freed, blocks of the segments' sizes needed ", al->segs.size() - n, " new segments"));
    for (auto* st : all) { pool->free(st); delete st; }
  }
  armed = false;
  al->on_grow = nullptr;
  pool.reset();
  if (!al->segs.empty()) vh::violation("segment-leak", vh::S(cfg, ": ", al->segs.size(), " segments were not given back when the pool ended"));
  for (auto& l : live) delete l.s;
  vh::seen("segments", vh::S(o.buddy_max_order - o.buddy_min_order, "/", al->total / cap0));
  vh::cases(vh::S(cfg, al->total / cap0, " ", uuid));
}

static void concurrent(uint64_t sd) {
  vh::Rng r0(sd);
  BuddyMemPoolOptions o;
  o.buddy_min_order = r0.in(6, 12);
  o.buddy_max_order = o.buddy_min_order + r0.in(1, 6);
  o.buddy_first_segment_cap = (size_t)1 << o.buddy_max_order;
  o.cache_small_obj_enabled = r0.p(0.5);
  auto al = std::make_shared<RecAllocator>(32);
  std::vector<size_t> sizes{64, 96, 512, 1024};
  if (o.cache_small_obj_enabled) for (auto s : sizes) o.cache_size_set.insert(s);
  BuddyMemPool pool(o, al);
  std::atomic<uint32_t> uuid{1};
  int nt = r0.in(2, 6);
  std::vector<std::thread> ts;
  std::mutex hand_m;
  std::list<Live> handed;   // freed by another thread than the one that allocated
  for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
    vh::Rng r(sd * 131 + t);
    std::vector<Live> mine;
    for (int s = 0; s < vh::scale(120, 400); ++s) {
      if (mine.size() < 2 || (mine.size() < 24 && r.p(0.6))) {
        auto* st = new Storage;
        st->custom_32bit_uuid_ = uuid++;
        st->size_ = r.p(0.5) ? sizes[r.in(0, 3)] : r.in(1, o.buddy_first_segment_cap / 2);
        pool.alloc(st);
        uint64_t tag = sd * 100000 + st->custom_32bit_uuid_;
        paint((char*)st->ptr_, st->size_, tag);
        mine.push_back({st, tag, 0});
        vh::observe("mt_allocations");
      } else {
        size_t i = r.in(0, mine.size() - 1);
        Live l = mine[i];
        mine[i] = mine.back();
        mine.pop_back();
        if (r.p(0.2)) { std::lock_guard<std::mutex> g(hand_m); handed.push_back(l); if (handed.size() > 4) { l = handed.front(); handed.pop_front(); } else continue; }
        if (!painted((char*)l.s->ptr_, l.s->size_, l.tag)) vh::violation("mt-data", "the bytes of a storage changed while several threads used the pool");
        pool.free(l.s);
        delete l.s;
      }
    }
    for (auto& l : mine) {
      if (!painted((char*)l.s->ptr_, l.s->size_, l.tag)) vh::violation("mt-data", "the bytes of a storage changed while several threads used the pool");
      pool.free(l.s);
      delete l.s;
    }
  });
  for (auto& t : ts) t.join();
  for (auto& l : handed) { pool.free(l.s); delete l.s; }
  pool.updateCacheSizeList({});
  size_t n = al->segs.size();
  auto segs = al->segs;
  for (auto& [p, cap] : segs) { auto* st = new Storage; st->custom_32bit_uuid_ = uuid++; st->size_ = cap; pool.alloc(st); }
  if (al->segs.size() != n) vh::violation("mt-lost", "after all threads freed their storages, the pool could not serve blocks of its segments' sizes");
  vh::cases(vh::S("mt ", nt, " ", o.buddy_max_order, " ", n));
  vh::seen("mt_shapes", vh::S(nt, "x", n));
}

#ifndef VH_POOL_ONLY
struct Stg { Storage* s; uint64_t tag; };
static void manager(uint64_t sd) {
  vh::Rng r(sd);
  MemoryManager mm;
  auto al = std::make_shared<RecAllocator>(64);
  MemoryManagerOptions o;
  o.buddy_mem_pool_options.buddy_min_order = r.in(6, 10);
  o.buddy_mem_pool_options.buddy_max_order = 16;
  o.buddy_mem_pool_options.buddy_first_segment_cap = 1 << 16;
  o.really_large_tensor_threshold = (size_t)1 << r.in(12, 18);
  mm.registerAllocator(kCPU, al, o);
  std::vector<Stg> live;
  for (int s = 0; s < 150; ++s) {
    if (live.size() < 2 || (live.size() < 40 && r.p(0.6))) {
      auto* st = new Storage;
      st->custom_32bit_uuid_ = s + 1;
      st->size_ = r.p(0.3) ? o.really_large_tensor_threshold + r.in(-130, 130) : r.in(1, 2 * o.really_large_tensor_threshold);
      size_t d = al->direct.size();
      mm.alloc(st);
      bool large = al->allocSize(st) >= o.really_large_tensor_threshold;
      if ((al->direct.size() != d) != large) vh::violation("large", vh::S("a storage of ", st->size_, "B with threshold ", o.really_large_tensor_threshold, " came from the ", large ? "pool" : "allocator"));
      vh::observe(large ? "large" : "pooled");
      paint((char*)st->ptr_, st->size_, sd * 1000 + s);
      live.push_back({st, sd * 1000 + s});
    } else {
      size_t i = r.in(0, live.size() - 1);
      auto l = live[i];
      live[i] = live.back();
      live.pop_back();
      if (!painted((char*)l.s->ptr_, l.s->size_, l.tag)) vh::violation("mm-data", "the bytes of a storage changed");
      mm.free(l.s);
      delete l.s;
    }
  }
  for (auto& l : live) { if (!painted((char*)l.s->ptr_, l.s->size_, l.tag)) vh::violation("mm-data", "the bytes of a storage changed"); mm.free(l.s); delete l.s; }
  if (!al->direct.empty()) vh::violation("mm-leak", vh::S(al->direct.size(), " large storages were never given back"));
  vh::cases(vh::S("mm ", o.really_large_tensor_threshold));
}

// Tensors of the real context: disjoint, kept, reused after they die.
static void tensors(uint64_t sd) {
  vh::Rng r(sd);
  struct T { Tensor t; uint64_t tag; };
  std::list<T> live;
  static const DataTypes dts[] = {kFloat32, kFloat16, kInt8, kInt64};
  for (int s = 0; s < 120; ++s) {
    if (live.size() < 2 || (live.size() < 24 && r.p(0.6))) {
      Tensor t = Tensor::empty({(int)r.in(1, 9), (int)r.in(1, 70), (int)r.in(1, 33)}, dts[r.in(0, 3)], kCPU).alloc();
      char* p = t.ptr<char>();
      for (auto& l : live) {
        char* q = l.t.ptr<char>();
        if (p < q + l.t.bytes() && q < p + t.bytes()) { vh::violation("tensor-overlap", "two live tensors share bytes"); return; }
      }
      paint(p, t.bytes(), sd * 1000 + s);
      vh::observe("tensors");
      live.push_back({t, sd * 1000 + s});
    } else {
      auto it = live.begin();
      std::advance(it, r.in(0, live.size() - 1));
      if (!painted(it->t.ptr<char>(), it->t.bytes(), it->tag)) { vh::violation("tensor-data", "the bytes of a live tensor changed"); return; }
      Tensor other = it->t;        // another handle keeps the memory
      live.erase(it);
    }
  }
  vh::cases(vh::S("tensors ", live.size()));
}
#endif

int main() {
#ifdef VH_POOL_ONLY
  for (int i = 0; i < vh::scale(60, 900); ++i) { vh::begin(vh::S("threads ", i)); concurrent(vh::seed() * 10007 + i); }
#else
  mllm::initializeContext();
  for (int i = 0; i < vh::scale(900, 12000); ++i) history(vh::seed() * 100003 + i);
  for (int i = 0; i < vh::scale(60, 800); ++i) { vh::begin(vh::S("manager ", i)); manager(vh::seed() * 77 + i); }
  for (int i = 0; i < vh::scale(40, 400); ++i) { vh::begin(vh::S("tensors ", i)); tensors(vh::seed() * 78 + i); }
  // A request no segment can ever hold ends with an error, not with endless growth.
  for (int k = 0; k < 4; ++k) {
    vh::begin("too large");
    auto st = vh::in_child([&] {
      BuddyMemPoolOptions o;
      o.buddy_min_order = 10; o.buddy_max_order = 20; o.buddy_first_segment_cap = 1 << 20;
      auto al = std::make_shared<RecAllocator>(64);
      al->fake = true;
      BuddyMemPool pool(o, al);
      Storage s;
      s.custom_32bit_uuid_ = 1;
      s.size_ = ((size_t)1 << 29) + (k < 2 ? 1 : ((size_t)1 << 32));
      size_t calls = 0;
      al->on_grow = [&](size_t) { if (++calls > 100) { vh::violation("endless-growth", "a storage larger than any segment keeps adding segments for ever"); vh::flush_counts(); _exit(90); } };
      pool.alloc(&s);
    }, 10);
    vh::observe("too_large");
    if (st != "refused") vh::violation("too-large", vh::S("a storage larger than any segment: ", st, " instead of an error"));
  }
#endif
  return vh::finish();
}

// C04: parallel loops. push() runs the body for every index of the range
// exactly once and returns only when all are done and visible, whatever the
// thread count, slot, nesting, concurrency and idle/wakeup history.
#include "vh.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <thread>
#include "mllm/engine/HpcThreadPool.hpp"
using namespace mllm;

struct Shot {
  int start, end, step;
  std::vector<std::atomic<int>> hits;
  std::vector<long> out;        // written by the body, read by the caller: no lock
  std::atomic<int> inside{0};
  Shot(int s, int e, int st) : start(s), end(e), step(st), hits(e > s ? e - s : 0), out(e > s ? e - s : 0, 0) {}
};

static std::atomic<long> g_bodies{0};
static thread_local int g_depth = 0;

static void loop(HpcThreadPool& p, vh::Rng& r, int slot, int other_slot, const std::string& cfg, int depth, int nt) {
  int step = r.p(0.5) ? 1 : r.in(1, 9);
  int start = r.p(0.6) ? 0 : r.in(-20, 40);
  int len = r.p(0.1) ? 0 : r.p(0.3) ? r.in(1, nt + 1) : r.in(1, 90);
  if (r.p(0.04)) len = -r.in(1, 5);
  Shot sh(start, start + len, step);
  bool nest = depth < 2 && r.p(0.12);
  uint64_t nsd = r.next();
  int delay = r.in(0, 5);
  std::thread::id me = std::this_thread::get_id();
  std::atomic<int> helped{0};
  HpcThreadPoolTask t;
  t.start = sh.start; t.end = sh.end; t.step = sh.step;
  t.func = [&, nsd](int i) {
    sh.inside++;
    if (std::this_thread::get_id() != me) helped++;
    int k = i - sh.start;
    if (k < 0 || k >= (int)sh.hits.size() || k % sh.step) { vh::violation("index", vh::S(cfg, ": the body ran for index ", i, " of [", sh.start, ",", sh.end, ") step ", sh.step)); sh.inside--; return; }
    sh.hits[k]++;
    sh.out[k] = sh.out[k] * 2 + i * 3L + 1;
    if (delay == 0 && k % 5 == 0) std::this_thread::sleep_for(std::chrono::microseconds(20 + k % 60));
    if (delay == 1) std::this_thread::yield();
    if (nest && k % 11 == 0) { vh::Rng r2(nsd + i); loop(p, r2, r2.p(0.5) ? slot : r2.p(0.5) ? other_slot : -1, slot, cfg, depth + 1, nt); }
    g_bodies++;
    sh.inside--;
  };
  p.push(std::move(t), slot);
  if (sh.inside) vh::violation("early", vh::S(cfg, ": push() returned while a body was running"));
  for (int k = 0; k < (int)sh.hits.size(); ++k) {
    int want = k % sh.step == 0;
    int got = sh.hits[k];
    if (got != want) { vh::violation(got < want ? "missed" : "twice", vh::S(cfg, ": index ", sh.start + k, " of [", sh.start, ",", sh.end, ") step ", sh.step, " ran ", got, " times", depth ? " (nested loop)" : "")); break; }
    if (want && sh.out[k] != (sh.start + k) * 3L + 1) { vh::violation("result", vh::S(cfg, ": what the body wrote for an index was not what the caller found")); break; }
  }
  vh::observe("loops");
  if (nest) vh::observe("nesting_loops");
  if (helped) vh::observe("shared_loops");
  vh::seen("tile_shapes", vh::S(nt, "/", std::min<int>((len + step - 1) / std::max(1, step), 12)));
}

static void round(uint64_t sd) {
  vh::Rng r(sd);
  int nt = r.p(0.1) ? 0 : r.in(1, 8);
  auto p = std::make_unique<HpcThreadPool>(nt);
  int mode = r.in(0, 5);
  int pushers = r.in(1, 4);
  bool control = r.p(0.5), active = r.p(0.85), slots_shared = r.p(0.4);
  std::string cfg = vh::S(nt, " threads, ", pushers, " callers", control ? ", idled and woken" : active ? "" : ", never activated");
  vh::begin(cfg + vh::S(" seed ", sd));
  if (active) p->activate();
  std::atomic<bool> stop{false};
  std::mutex own_m;
  std::map<int, int> owner;
  std::vector<std::thread> ts;
  for (int c = 0; c < pushers; ++c) ts.emplace_back([&, c] {
    vh::Rng q(sd * 977 + c);
    for (int k = 0; k < vh::scale(12, 30); ++k) {
      int slot = -1;
      bool acquired = false;
      if (slots_shared) slot = q.in(-1, MLLM_HPC_THREAD_POOL_TASK_LIMITS - 1);
      else {
        slot = p->acquireTaskSlot();
        acquired = slot >= 0;
        if (acquired) { std::lock_guard<std::mutex> l(own_m); if (owner.count(slot)) vh::violation("slot", vh::S(cfg, ": task slot ", slot, " was acquired twice")); owner[slot] = c; vh::observe("slots_acquired"); }
        if (slot >= MLLM_HPC_THREAD_POOL_TASK_LIMITS) { vh::violation("slot-range", vh::S(cfg, ": task slot ", slot)); break; }
      }
      loop(*p, q, slot, q.in(0, MLLM_HPC_THREAD_POOL_TASK_LIMITS - 1), cfg, 0, nt);
      if (acquired) { { std::lock_guard<std::mutex> l(own_m); owner.erase(slot); } p->releaseTaskSlot(slot); }
    }
  });
  std::thread ctl;
  if (control) ctl = std::thread([&] {
    vh::Rng q(sd * 31 + 7);
    int extra = 0;
    while (!stop) {
      switch (q.in(0, 6)) {
        case 0: p->idle(); break;
        case 1: p->wakeup(); break;
        case 2: p->idle(); p->idle(); p->wakeup(); break;
        case 3: p->activate(); extra++; break;
        case 4: if (extra) { p->deactivate(); extra--; } break;
        case 5: if (q.p(0.1)) { p->__threadPoolDestroy(); } break;
        default: std::this_thread::sleep_for(std::chrono::microseconds(q.in(1, 300)));
      }
      vh::observe("control_steps");
    }
    if (q.p(0.5)) p->wakeup();
  });
  for (auto& t : ts) t.join();
  stop = true;
  if (ctl.joinable()) ctl.join();
  if (!slots_shared) {
    // All slots are free again, and there are exactly as many as promised.
    std::set<int> got;
    for (int i = 0; i < MLLM_HPC_THREAD_POOL_TASK_LIMITS; ++i) { int s = p->acquireTaskSlot(); if (s < 0 || !got.insert(s).second) vh::violation("slot-lost", vh::S(cfg, ": a released task slot was not available again")); }
    if (p->acquireTaskSlot() >= 0) vh::violation("slot-extra", vh::S(cfg, ": more task slots than the pool has"));
    for (int s : got) p->releaseTaskSlot(s);
    p->releaseTaskSlot(-1); p->releaseTaskSlot(MLLM_HPC_THREAD_POOL_TASK_LIMITS);
  }
  if (r.p(0.5)) { vh::Rng q(sd + 5); loop(*p, q, 0, 1, cfg, 0, nt); }
  if (active && r.p(0.5)) p->deactivate();
  if (r.p(0.3)) p->idle();
  p.reset();
  vh::cases(vh::S(nt, pushers, control, active, slots_shared, mode, sd % 64));
}

// After idle()/wakeup() the pool works as before: threads take part again.
static void comes_back(uint64_t sd) {
  vh::Rng r(sd);
  int nt = r.in(2, 6);
  HpcThreadPool p(nt);
  p.activate();
  int n = r.in(1, 4);
  std::string h;
  for (int i = 0; i < n; ++i) { if (r.p(0.6)) { p.idle(); h += "i"; } if (r.p(0.5)) { p.wakeup(); h += "w"; } if (r.p(0.3)) { p.idle(); p.wakeup(); h += "iw"; } }
  p.wakeup();
  bool helped = false;
  // A worker may be slow; give it many chances. Static dispatch gives every
  // thread its share, so one loop with a free pool is enough in principle.
  for (int k = 0; k < 50 && !helped; ++k) {
    std::mutex m;
    std::set<std::thread::id> who;
    HpcThreadPoolTask t;
    t.end = nt * 2;
    t.func = [&](int) { std::lock_guard<std::mutex> l(m); who.insert(std::this_thread::get_id()); };
    p.push(std::move(t), 0);
    helped = who.size() > 1;
  }
  if (!helped) vh::violation("asleep", vh::S("after ", h, "w on an active pool of ", nt, " threads no loop is shared any more"));
  vh::observe("comebacks");
}

int main() {
  for (int i = 0; i < vh::scale(120, 4000); ++i) round(vh::seed() * 100003 + i);
  for (int i = 0; i < vh::scale(40, 400); ++i) { vh::begin("comeback"); comes_back(vh::seed() * 13 + i); }
  vh::observe("bodies", g_bodies.load());
  return vh::finish();
}

// C08: the key/value caches of the on-device runtime. A shadow holds every cell
// of every layer's buffer; after each operation the views the cache gives are
// compared with it, and the buffers as a whole too (other layers, other heads
// and later positions must not change).
#include "vh.hpp"
#include <sys/mman.h>
#include "mllm/mllm.hpp"
#include "mllm/nn/lmcache/StaticCache.hpp"
#include "mllm/nn/lmcache/DynamicCache.hpp"
#include "mllm/core/aops/KVCacheOp.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/engine/DispatcherManager.hpp"
#include "mllm/engine/Task.hpp"
using namespace mllm;

static double uniq = 1;
static DataTypes pick_dt(vh::Rng& r) { return r.p(.7) ? kFloat32 : kFloat16; }
static float rd(const Tensor& t, DataTypes d, std::vector<int32_t> ix) {
  auto st = t.stride();
  int64_t o = 0;
  for (size_t i = 0; i < ix.size(); ++i) o += (int64_t)ix[i] * st[i];
  return d == kFloat32 ? t.ptr<float>()[o] : (float)t.ptr<half_float::half>()[o];
}
static void wr(const Tensor& t, DataTypes d, std::vector<int32_t> ix, float v) {
  auto st = t.stride();
  int64_t o = 0;
  for (size_t i = 0; i < ix.size(); ++i) o += (int64_t)ix[i] * st[i];
  if (d == kFloat32) t.ptr<float>()[o] = v; else t.ptr<half_float::half>()[o] = half_float::half(v);
}
static float fresh() { uniq += 1; return (float)((int64_t)uniq % 2039) - 1000; }

typedef std::vector<float> Tok;                       // one head's vector of one token
struct In { Tensor t; std::vector<std::vector<Tok>> v; };   // [h][s]
static In make(vh::Rng& r, int H, int S, int D, DataTypes d, bool strided) {
  In x;
  // Strided: a slice of the middle of a larger tensor, as a chunked prefill takes it.
  // or of some elements of each, as a fused projection leaves them.
  int a = strided ? r.in(0, 2) : 0, b = strided ? r.in(1, 2) : 0, c = strided && r.p(.5) ? r.in(1, 3) : 0;
  Tensor big = Tensor::empty({1, H, a + S + b, D + c}, d, kCPU).alloc();
  for (int h = 0; h < H; ++h) for (int s = 0; s < a + S + b; ++s) for (int e = 0; e < D + c; ++e) wr(big, d, {0, h, s, e}, fresh());
  x.t = strided ? big[{kAll, kAll, {a, a + S}, {c, c + D}}] : big;
  x.v.assign(H, {});
  for (int h = 0; h < H; ++h) for (int s = 0; s < S; ++s) { Tok t(D); for (int e = 0; e < D; ++e) t[e] = rd(x.t, d, {0, h, s, e}); x.v[h].push_back(t); }
  return x;
}
struct Buf {   // what a layer's buffer holds: [head][pos]
  std::vector<std::vector<Tok>> c;
  Buf() {}
  Buf(int H, int N, int D) : c(H, std::vector<Tok>(N, Tok(D, 0.f))) {}
};
static std::string cmp(const Tensor& t, DataTypes d, const std::vector<std::vector<Tok>>& want, int from, int to, bool bshd = false) {
  int H = want.size(), S = to - from, D = want[0].empty() ? 0 : want[0][0].size();
  std::vector<int32_t> sh = bshd ? std::vector<int32_t>{1, S, H, D} : std::vector<int32_t>{1, H, S, D};
  if (t.isNil()) return "nil";
  if (t.shape() != sh) return vh::S("shape ", vh::L(t.shape()), ", expected ", vh::L(sh));
  for (int h = 0; h < H; ++h) for (int s = 0; s < S; ++s) for (int e = 0; e < D; ++e) {
    float g = bshd ? rd(t, d, {0, s, h, e}) : rd(t, d, {0, h, s, e});
    if (g != want[h][from + s][e]) return vh::S("head ", h, " token ", s, " element ", e, " is ", g, ", expected ", want[h][from + s][e]);
  }
  return "";
}

static int* flag;
static void bad(const std::string& sig, const std::string& msg, const std::string& hist) { vh::violation(sig, msg, hist); }

static void staticWorld(uint64_t seed) {
  vh::Rng r(seed);
  int layers = r.in(1, 4), kv = r.in(1, 4), rep = r.in(1, 3), D = r.in(1, 9), N = r.in(4, 40);
  bool fa2 = r.p(.3);
  DataTypes kd = pick_dt(r), vd = pick_dt(r);
  int H = fa2 ? kv : kv * rep;
  nn::StaticCache cache(N, layers, kv * rep, kv, D, kd, vd, kCPU, fa2);
  std::vector<Buf> K(layers, Buf(H, N, D)), V(layers, Buf(H, N, D));
  std::vector<int> cnt(layers, 0);
  struct Sub { std::unique_ptr<nn::SubStaticCache> c; int start, len; std::vector<int> cnt; };
  std::vector<Sub> subs;
  std::string hist = vh::S("static layers=", layers, " kv=", kv, "x", rep, " D=", D, " N=", N, fa2 ? " fa2" : "");
  auto all = [&](const std::string& what) {
    for (int l = 0; l < layers; ++l) {
      auto e = cmp(cache.getKCacheBuffer(l), kd, K[l].c, 0, N, fa2);
      if (e.empty()) e = cmp(cache.getVCacheBuffer(l), vd, V[l].c, 0, N, fa2);
      if (!e.empty()) { bad("static:" + what + ":buffer", vh::S("after ", what, " the buffer of layer ", l, ": ", e), hist); return false; }
      if (cache.getCurrentSeqCnt(l) != cnt[l]) { bad("static:" + what + ":count", vh::S("layer ", l, " counts ", cache.getCurrentSeqCnt(l), " tokens, expected ", cnt[l]), hist); return false; }
      auto [k, v] = cache.getKVCache(l);
      e = cmp(k, kd, K[l].c, 0, cnt[l], fa2);
      if (e.empty()) e = cmp(v, vd, V[l].c, 0, cnt[l], fa2);
      if (cnt[l] && !e.empty()) { bad("static:" + what + ":get", vh::S("getKVCache(", l, ") after ", what, ": ", e), hist); return false; }
    }
    for (auto& s : subs) for (int l = 0; l < layers; ++l) if (s.c->getCurrentSeqCnt(l) != s.cnt[l]) { bad("sub:count", "count of a sub-cache changed", hist); return false; }
    return true;
  };
  for (int step = 0; step < 40; ++step) {
    int l = r.in(0, layers - 1), op = r.in(0, 11);
    if (op < 6) {
      int S = r.p(.5) ? 1 : r.in(1, 9);
      bool over = cnt[l] + S > N;
      hist += vh::S(" up", l, "+", S);
      if (fa2) {
        if (over) {
          // Must refuse, not hand out memory past the end.
          auto st = vh::in_child([&] { auto [k, v] = cache.preGetKVWriteLocation(l, S); memset(k.ptr<char>(), 1, (size_t)S * kv * D * (kd == kFloat32 ? 4 : 2)); memset(v.ptr<char>(), 1, (size_t)S * kv * D * (vd == kFloat32 ? 4 : 2)); });
          vh::observe("over_capacity");
          if (st != "refused" && st != "threw") bad("static:pre:overflow", vh::S("preGetKVWriteLocation of ", S, " tokens with ", cnt[l], " of ", N, " in use was not refused (", st, ")"), hist);
          continue;
        }
        auto [k, v] = cache.preGetKVWriteLocation(l, S);
        if (k.shape() != std::vector<int32_t>{1, S, kv * D} || v.shape() != k.shape()) { bad("static:pre:shape", "shape of the write location", hist); return; }
        for (int s = 0; s < S; ++s) for (int h = 0; h < kv; ++h) for (int e = 0; e < D; ++e) {
          float a = fresh(), b = fresh();
          wr(k, kd, {0, s, h * D + e}, a); wr(v, vd, {0, s, h * D + e}, b);
          K[l].c[h][cnt[l] + s][e] = a; V[l].c[h][cnt[l] + s][e] = b;
        }
        cnt[l] += S;
        vh::cases(vh::S("pre/", S == 1 ? "one" : "many"));
        vh::observe("updates");
        if (!all("preGetKVWriteLocation")) return;
        continue;
      }
      bool strided = r.p(.3);
      In k = make(r, kv, S, D, kd, strided), v = make(r, kv, S, D, vd, strided);
      if (over) {
        auto st = vh::in_child([&] { cache.updateKVCache(l, k.t, v.t); });
        vh::observe("over_capacity");
        if (st != "refused" && st != "threw") bad("static:update:overflow", vh::S("an update of ", S, " tokens with ", cnt[l], " of ", N, " in use was not refused (", st, ")"), hist);
        continue;
      }
      auto out = cache.updateKVCache(l, k.t, v.t);
      for (int h = 0; h < kv; ++h) for (int q = 0; q < rep; ++q) for (int s = 0; s < S; ++s) { K[l].c[h * rep + q][cnt[l] + s] = k.v[h][s]; V[l].c[h * rep + q][cnt[l] + s] = v.v[h][s]; }
      cnt[l] += S;
      vh::cases(vh::S("update/", strided ? "strided" : "plain", S == 1 ? "-one" : "-many", rep > 1 ? "-gqa" : "", kd == vd ? "" : "-mixed"));
      vh::observe("updates");
      auto e = cmp(out[0], kd, K[l].c, 0, cnt[l]);
      if (e.empty()) e = cmp(out[1], vd, V[l].c, 0, cnt[l]);
      if (!e.empty()) { bad(vh::S("static:update", strided ? ":strided" : ""), vh::S("updateKVCache(", l, ") with ", S, " tokens gives: ", e), hist); return; }
      if (!all("updateKVCache")) return;
    } else if (op == 6) {
      hist += " clear"; cache.clearCache(); for (auto& c : cnt) c = 0; vh::observe("clears");
      if (!all("clearCache")) return;
    } else if (op == 7) {
      int n = r.in(0, N); hist += vh::S(" set", n); cache.setCurrentSeqCnt(n); for (auto& c : cnt) c = n; vh::observe("rewinds");
      if (!all("setCurrentSeqCnt")) return;
    } else if (op == 8 && !fa2) {
      Sub s; s.start = r.in(0, N - 1); s.len = r.in(0, N - s.start); s.cnt.assign(layers, s.len);
      s.c = std::make_unique<nn::SubStaticCache>(cache, s.start, s.len);
      hist += vh::S(" sub[", s.start, ",", s.len, "]");
      subs.push_back(std::move(s));
      while (subs.size() > 3) subs.erase(subs.begin());
      if (!all("SubStaticCache")) return;
    } else if (!subs.empty()) {
      auto& s = subs[r.in(0, subs.size() - 1)];
      if (r.p(.1)) { hist += " subclear"; s.c->clearCache(); for (auto& c : s.cnt) c = s.len; continue; }
      int S = r.in(1, 6);
      bool strided = r.p(.3), over = s.start + s.cnt[l] + S > N;
      hist += vh::S(" subup", l, "@", s.start, "+", S);
      In k = make(r, kv, S, D, kd, strided), v = make(r, kv, S, D, vd, strided);
      if (over) {
        auto st = vh::in_child([&] { s.c->updateKVCache(l, k.t, v.t); });
        vh::observe("over_capacity");
        if (st != "refused" && st != "threw") bad("sub:update:overflow", "an update past the end of the cache was not refused (" + st + ")", hist);
        continue;
      }
      auto out = s.c->updateKVCache(l, k.t, v.t);
      for (int h = 0; h < kv; ++h) for (int q = 0; q < rep; ++q) for (int t = 0; t < S; ++t) { K[l].c[h * rep + q][s.start + s.cnt[l] + t] = k.v[h][t]; V[l].c[h * rep + q][s.start + s.cnt[l] + t] = v.v[h][t]; }
      s.cnt[l] += S;
      vh::cases(vh::S("sub/", strided ? "strided" : "plain", S == 1 ? "-one" : "-many", rep > 1 ? "-gqa" : ""));
      vh::observe("sub_updates");
      auto e = cmp(out[0], kd, K[l].c, s.start, s.start + s.cnt[l]);
      if (e.empty()) e = cmp(out[1], vd, V[l].c, s.start, s.start + s.cnt[l]);
      if (!e.empty()) { bad(vh::S("sub:update", strided ? ":strided" : ""), vh::S("a sub-cache at ", s.start, " gives: ", e), hist); return; }
      if (!all("sub update")) return;
    }
  }
  vh::observe("static_worlds");
  if (seed % 37 == 0) vh::sample(hist.substr(0, 280));
}

static void dynamicWorld(uint64_t seed) {
  vh::Rng r(seed);
  int layers = r.in(1, 3), kv = r.in(1, 4), rep = r.in(1, 3), D = r.in(1, 7);
  bool fa2 = r.p(.3);
  DataTypes dt = pick_dt(r);
  int H = fa2 ? kv : kv * rep;
  nn::DynamicCache cache(layers, kv * rep, kv, D, fa2);
  std::vector<std::vector<std::vector<Tok>>> K(layers, std::vector<std::vector<Tok>>(H)), V = K;
  std::string hist = vh::S("dynamic layers=", layers, " kv=", kv, "x", rep, fa2 ? " fa2" : "");
  struct Old { Tensor t; std::vector<std::vector<Tok>> want; };
  for (int step = 0; step < 24; ++step) {
    int l = r.in(0, layers - 1), S = r.p(.5) ? 1 : r.in(1, 7);
    bool strided = r.p(.3) && !fa2;
    In k = make(r, kv, S, D, dt, strided), v = make(r, kv, S, D, dt, strided);
    hist += vh::S(" up", l, "+", S, strided ? "s" : "");
    auto out = cache.updateKVCache(l, k.t, v.t);
    for (int h = 0; h < kv; ++h) for (int q = 0; q < (fa2 ? 1 : rep); ++q) for (int s = 0; s < S; ++s) { int g = fa2 ? h : h * rep + q; K[l][g].push_back(k.v[h][s]); V[l][g].push_back(v.v[h][s]); }
    vh::cases(vh::S("dynamic/", strided ? "strided" : "plain", fa2 ? "-fa2" : "", rep > 1 ? "-gqa" : ""));
    vh::observe("dynamic_updates");
    auto e = cmp(out[0], dt, K[l], 0, K[l][0].size());
    if (e.empty()) e = cmp(out[1], dt, V[l], 0, V[l][0].size());
    if (!e.empty()) { bad("dynamic:update", vh::S("DynamicCache layer ", l, ": ", e), hist); return; }
    int c = K[0][0].size();
    if (cache.getCurrentSeqCnt() != c) { bad("dynamic:count", vh::S("counts ", cache.getCurrentSeqCnt(), " tokens, expected ", c), hist); return; }
    // The caller reuses its tensors.
    if (!fa2 && rep > 1) for (int h = 0; h < kv; ++h) for (int s = 0; s < S; ++s) for (int x = 0; x < D; ++x) { wr(k.t, dt, {0, h, s, x}, -7777); wr(v.t, dt, {0, h, s, x}, -7777); }
  }
  vh::observe("dynamic_worlds");
}

// The cache operator: one operator per layer, with a cache of its own or one they share.
static void opWorld(uint64_t seed) {
  vh::Rng r(seed);
  int layers = r.in(1, 3), kv = r.in(1, 3), rep = r.in(1, 3), D = r.in(1, 6), N = 60;
  bool shared = r.p(.5);
  nn::StaticCache cache(N, layers, kv * rep, kv, D, kFloat32, kFloat32, kCPU, false);
  auto& ctx = Context::instance();
  std::vector<std::shared_ptr<aops::KVCacheOp>> ops;
  for (int l = 0; l < layers; ++l) {
    auto o = std::static_pointer_cast<aops::KVCacheOp>(ctx.getBackend(kCPU)->createOp(OpTypes::kKVCache, aops::KVCacheOpOptions{.layer_idx = l, .q_head = kv * rep, .kv_head = kv, .head_dim = D, .use_fa2 = false}));
    if (shared) o->setStaticCache(&cache);
    ops.push_back(o);
  }
  std::vector<std::vector<std::vector<Tok>>> K(layers, std::vector<std::vector<Tok>>(kv * rep)), V = K;
  std::string hist = vh::S("op layers=", layers, shared ? " shared" : "");
  for (int step = 0; step < 20; ++step) {
    int l = r.in(0, layers - 1), S = r.p(.5) ? 1 : r.in(1, 5);
    if (r.p(.08)) {
      hist += vh::S(" clear", l);
      ops[l]->clearCache();
      for (int i = 0; i < layers; ++i) if (shared || i == l) for (auto* x : {&K, &V}) for (auto& h : (*x)[i]) h.clear();
      continue;
    }
    if ((int)K[l][0].size() + S > N) continue;
    if (r.p(.1)) {
      int n = r.in(0, K[l][0].size());
      bool ok = true;
      if (shared) for (int i = 0; i < layers; ++i) ok &= (int)K[i][0].size() >= n;
      if (ok) { hist += vh::S(" set", l, "=", n); ops[l]->setCurrentSeqCnt(n); for (int i = 0; i < layers; ++i) if (shared || i == l) for (auto* x : {&K, &V}) for (auto& h : (*x)[i]) h.resize(n); }
    }
    In k = make(r, kv, S, D, kFloat32, false), v = make(r, kv, S, D, kFloat32, false);
    hist += vh::S(" up", l, "+", S);
    auto task = Task::createExecuteOpTask(ops[l], {k.t, v.t}, {});
    ctx.dispatcherManager()->submit(static_cast<int32_t>(kCPU), task);
    for (int h = 0; h < kv; ++h) for (int q = 0; q < rep; ++q) for (int s = 0; s < S; ++s) { K[l][h * rep + q].push_back(k.v[h][s]); V[l][h * rep + q].push_back(v.v[h][s]); }
    vh::cases(vh::S("op/", shared ? "shared" : "own", rep > 1 ? "-gqa" : ""));
    vh::observe("op_updates");
    auto e = task->outputs.size() != 2 ? std::string("two outputs expected") : cmp(task->outputs[0], kFloat32, K[l], 0, K[l][0].size());
    if (e.empty()) e = cmp(task->outputs[1], kFloat32, V[l], 0, V[l][0].size());
    if (!e.empty()) { bad("op:update", vh::S("KVCacheOp of layer ", l, ": ", e), hist); return; }
    if (ops[l]->getCurrentSeqCnt() != (int)K[l][0].size()) { bad("op:count", "count", hist); return; }
  }
  vh::observe("op_worlds");
}

int main() {
  flag = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  initializeContext();
  Logger::level() = LogLevel::kFatal;
  uint64_t s = vh::seed();
  int n = vh::scale(150, 3000);
  for (int i = 0; i < n; ++i) {
    vh::begin(vh::S("kv cache, history ", i));
    staticWorld(s * 10007 + i);
    dynamicWorld(s * 20011 + i);
    opWorld(s * 30011 + i);
  }
  return vh::finish();
}

// C16: the attention operators of the CPU backend (flash, radix, radix with different
// head sizes, sliding window with sinks, paged, and the plain composition), each output
// against dense attention in double precision.
#include <memory>
#include "ops.hpp"
#include "mllm/core/aops/FlashAttention2Op.hpp"
#include "mllm/core/aops/FlashAttn2WithSinkAndSwaOp.hpp"
#include "mllm/core/aops/PagedAttnOp.hpp"
#include "mllm/core/aops/RadixAttnDiffDimOp.hpp"
#include "mllm/core/aops/RadixAttnOp.hpp"
#include "mllm/core/aops/RadixAttnWithSinkAndSwaDiffDimOp.hpp"

struct Geo { int B, HQ, HK, SQ, SK, D, DV; };
static Geo geo(vh::Rng& r) {
  Geo g;
  g.B = r.p(.6) ? 1 : r.in(2, 3);
  g.HK = r.in(1, 4);
  g.HQ = g.HK * (r.p(.4) ? 1 : r.in(2, 4));
  g.SQ = r.p(.4) ? 1 : r.p(.2) ? r.in(9, 20) : r.in(2, 8);
  g.SK = r.p(.35) ? g.SQ : g.SQ + r.in(1, 24);
  g.D = r.p(.4) ? 4 * r.in(1, 12) : r.p(.15) ? r.in(64, 130) : r.in(1, 40);
  g.DV = r.p(.4) ? g.D : r.in(1, 40);
  return g;
}
static std::string show(const Geo& g) { return vh::S("B", g.B, " heads ", g.HQ, "/", g.HK, " ", g.SQ, " queries of ", g.SK, " tokens, size ", g.D, "/", g.DV); }
static double amp(vh::Rng& r) { return r.p(.2) ? 8 : r.p(.2) ? .01 : 1.5; }

typedef std::function<double(int, int, int, int)> At;          // (b, s, h, d)
typedef std::function<bool(int, int)> See;                     // (query, token)
struct Row { std::vector<double> w, o; double tol; };
// one row of dense attention; sink: an extra score that only takes weight
static Row dense(const Geo& g, const At& q, const At& k, const At& v, const See& see, const double* sink, int b, int h, int s, double add = 0, const std::function<double(int, int)>* bias = nullptr) {
  Row x;
  int hk = h / (g.HQ / g.HK);
  double sc = 1 / sqrt((double)g.D), mx = -INFINITY, es = 0, vm = 0;
  std::vector<double> a(g.SK, -INFINITY);
  for (int t = 0; t < g.SK; ++t) if (see(s, t)) {
    double d = 0, ab = 0;
    for (int i = 0; i < g.D; ++i) { double p = q(b, s, h, i) * k(b, t, hk, i); d += p; ab += fabs(p); }
    a[t] = d * sc + (bias ? (*bias)(s, t) : 0);
    es = std::max(es, (ab * sc + fabs(a[t])) * (4 + g.D / 8.) * 0x1p-23);
    mx = std::max(mx, a[t]);
  }
  if (sink) mx = std::max(mx, *sink), es = std::max(es, fabs(*sink) * 0x1p-21);
  double sum = sink ? exp(*sink - mx) : 0;
  x.w.assign(g.SK, 0);
  for (int t = 0; t < g.SK; ++t) if (a[t] > -INFINITY) sum += x.w[t] = exp(a[t] - mx);
  x.o.assign(g.DV, 0);
  for (int t = 0; t < g.SK; ++t) {
    x.w[t] /= sum;
    for (int i = 0; i < g.DV; ++i) { if (see(s, t)) { double y = v(b, t, hk, i); x.o[i] += x.w[t] * y; vm = std::max(vm, fabs(y)); } }
  }
  x.tol = (2 * es + 2e-6 + add) * (vm + 1e-3);
  if (es > .03) x.tol = INFINITY;
  return x;
}
static bool check(const std::string& cl, const std::string& what, const Tensor& y, const Geo& g, const std::function<Row(int, int, int)>& row) {
  std::map<std::vector<int>, Row> memo;
  return compare(cl, what, y, {g.B, g.SQ, g.HQ, g.DV}, kFloat32, [&](auto& ix) {
    std::vector<int> k{ix[0], ix[2], ix[1]};
    auto it = memo.find(k);
    if (it == memo.end()) it = memo.emplace(k, row(ix[0], ix[2], ix[1])).first;
    return std::pair<double, double>(it->second.o[ix[3]], it->second.tol);
  });
}
static At at(const Val& v) { return [&v](int b, int s, int h, int d) { return v.at({b, s, h, d}); }; }

// ---- flash attention ----------------------------------------------------
static void flash(vh::Rng& r) {
  Geo g = geo(r);
  g.DV = g.D;
  double m = amp(r);
  auto gen = [&] { return r.f(-m, m); };
  Val Q = make(r, {g.B, g.SQ, g.HQ, g.D}, kFloat32, gen, .1), K = make(r, {g.B, g.SK, g.HK, g.D}, kFloat32, gen, .5), V = make(r, {g.B, g.SK, g.HK, g.D}, kFloat32, gen, .5);
  int threads = r.p(.4) ? 4 : 1;
  bool api = r.p(.3), causal = api || !r.p(.15);
  int wrong = !api && causal && r.p(.12) ? r.in(1, 5) : 0;
  aops::FlashAttention2OpOptions o;
  o.B = g.B; o.q_head = g.HQ; o.kv_head = g.HK; o.D = g.D; o.causal_mask = causal;
  o.setThreads(threads);
  static const char* W[] = {"", " and keys of other heads", " and values of other length", " and keys of other size", " and keys of fewer rows", " and heads that do not divide"};
  if (wrong == 1) K = make(r, {g.B, g.SK, g.HK + 1, g.D}, kFloat32, gen, 0);
  if (wrong == 2) V = make(r, {g.B, g.SK + 1, g.HK, g.D}, kFloat32, gen, 0);
  if (wrong == 3) K = make(r, {g.B, g.SK, g.HK, g.D + 1}, kFloat32, gen, 0);
  if (wrong == 4) { if (g.B == 1) return; K = make(r, {1, g.SK, g.HK, g.D}, kFloat32, gen, 0); }
  if (wrong == 5) { if (g.HQ % (g.HK + 1) == 0) return; K = make(r, {g.B, g.SK, g.HK + 1, g.D}, kFloat32, gen, 0); V = make(r, {g.B, g.SK, g.HK + 1, g.D}, kFloat32, gen, 0); o.kv_head = g.HK + 1; }
  std::string cl = vh::S("flash", Q.lay == "plain" && K.lay == "plain" && V.lay == "plain" ? "" : "_view", causal ? "" : "_full", wrong ? vh::S("_wrong", wrong) : "");
  std::string what = vh::S("flash attention", causal ? "" : " without causal mask", ", ", show(g), ", layouts ", Q.lay, " ", K.lay, " ", V.lay, ", ", threads, " threads", W[wrong]);
  bool risky = wrong || Q.lay != "plain" || !causal;
  guarded(risky, cl, what, [&] {
    said_reset();
    Tensor y = api ? nn::functional::flashAttention2(Q.t, K.t, V.t) : op(OpTypes::kFlashAttention2, o, {Q.t, K.t, V.t})[0];
    untouched(cl, what, Q); untouched(cl, what, K); untouched(cl, what, V);
    if (said("[NYI]")) { vh::observe("refused_flash"); if (!risky) vh::violation(cl + "_refused", what + ": refused"); return; }
    if (wrong) { vh::violation(cl + "_accepted", what + ": computed"); return; }
    int dl = g.SK - g.SQ;
    check(cl, what, y, g, [&](int b, int h, int s) { return dense(g, at(Q), at(K), at(V), [&](int s, int t) { return !causal || t <= dl + s; }, nullptr, b, h, s); });
    vh::observe("flash");
    if (K.lay != "plain" || V.lay != "plain") vh::observe("flash_views");
    if (g.B > 1) vh::observe("flash_batches");
    if (threads > 1) vh::observe("flash_threads");
    vh::cases(cl + show(g) + K.lay + V.lay);
  });
}

// ---- keys and values by address -----------------------------------------
// every token's heads in a block of its own, exactly as large as the operator may read
struct Blocks {
  std::vector<std::unique_ptr<float[]>> own;
  std::vector<int> which;       // token -> block (tokens may share one)
  std::vector<char*> addr;
  int n;
  Blocks(vh::Rng& r, int S, int n_, double m) : n(n_) {
    for (int i = 0; i < S; ++i) { own.emplace_back(new float[n]); for (int j = 0; j < n; ++j) own[i][j] = (float)r.f(-m, m); which.push_back(i); }
    for (int i = S - 1; i > 0; --i) std::swap(which[i], which[r.in(0, i)]);
    if (S > 1 && r.p(.2)) which[0] = which[S - 1];
    for (int i = 0; i < S; ++i) addr.push_back((char*)own[which[i]].get());
  }
  double v(int t, int i) const { return own[which[t]][i]; }
  Tensor tensor() { return Tensor::refVectorData(addr, {(int)addr.size()}, kInt64); }
};
static void radix(vh::Rng& r) {
  Geo g = geo(r);
  bool relax = r.p(.5);
  if (!relax) g.DV = g.D;
  double m = amp(r);
  auto gen = [&] { return r.f(-m, m); };
  Val Q = make(r, {g.B, g.SQ, g.HQ, g.D}, kFloat32, gen, 0);
  Blocks K(r, g.SK, g.B * g.HK * g.D, m), V(r, g.SK, g.B * g.HK * g.DV, m);
  int threads = r.p(.4) ? 4 : 1;
  int wrong = r.p(.06) ? r.in(1, 2) : 0;
  if (wrong == 2 && g.HQ % (g.HK + 1) == 0) return;
  std::string cl = vh::S(relax ? "radix_relax" : "radix", wrong ? vh::S("_wrong", wrong) : "");
  std::string what = vh::S(cl, " attention, ", show(g), ", ", threads, " threads", wrong == 1 ? ", one value fewer" : wrong ? ", heads that do not divide" : "");
  Tensor kt = K.tensor(), vt = V.tensor();
  if (wrong == 1) { V.addr.pop_back(); if (V.addr.empty()) return; vt = V.tensor(); }
  guarded(wrong, cl, what, [&] {
    said_reset();
    Tensor y = Tensor::nil();
    if (!relax) { aops::RadixAttnOpOptions o; o.H_Q = g.HQ; o.H_KV = g.HK + (wrong == 2); o.setThreads(threads); y = op(OpTypes::kRadixAttn, o, {Q.t, kt, vt})[0]; }
    else if (!wrong && r.p(.5)) y = nn::functional::radixAttnRelax(Q.t, kt, vt, g.B, g.HQ, g.HK, g.D, g.DV);
    else { aops::RadixAttnRelaxOpOptions o; o.B = g.B; o.q_head = g.HQ; o.kv_head = g.HK + (wrong == 2); o.D_QK = g.D; o.D_V = g.DV; o.setThreads(threads); y = op(OpTypes::kRadixAttnRelax, o, {Q.t, kt, vt})[0]; }
    untouched(cl, what, Q);
    if (said("[NYI]")) { vh::observe("refused_radix"); if (!wrong) vh::violation(cl + "_refused", what + ": refused"); return; }
    if (wrong) { vh::violation(cl + "_accepted", what + ": computed"); return; }
    int dl = g.SK - g.SQ;
    auto k = [&](int b, int t, int h, int d) { return K.v(t, (b * g.HK + h) * g.D + d); };
    auto v = [&](int b, int t, int h, int d) { return V.v(t, (b * g.HK + h) * g.DV + d); };
    check(cl, what, y, g, [&](int b, int h, int s) { return dense(g, at(Q), k, v, [&](int s, int t) { return t <= dl + s; }, nullptr, b, h, s); });
    vh::observe(relax ? "radix_relax" : "radix");
    if (g.B > 1) vh::observe("radix_batches");
    if (threads > 1) vh::observe("radix_threads");
    vh::cases(cl + show(g));
  });
}

// ---- sliding window and sinks -------------------------------------------
static int prefill_window = -1;    // how many tokens the window of a prefill holds besides W - 1 earlier ones: 1 or 2, the same everywhere
static void swa(vh::Rng& r) {
  Geo g = geo(r);
  int kind = r.in(0, 3);   // 0 contiguous, 1 radix decode, 2 radix prefill, 3 radix append
  if (kind == 3 && !r.p(.1)) kind = r.in(0, 2);
  double m = amp(r), sm = r.p(.3) ? 12 : 2;
  auto gen = [&] { return r.f(-m, m); };
  int W, cur = g.SK;
  if (kind == 2) W = r.in(1, g.SK + 3);
  else if (r.p(.5)) { W = g.SK + r.in(0, 5); }                       // the window holds everything
  else { g.SQ = 1; W = g.SK; cur = g.SK + r.in(1, 50); }             // a decode step: the last W tokens are given
  Val Q = make(r, {g.B, g.SQ, g.HQ, g.D}, kFloat32, gen, 0);
  Val A = make(r, {g.HQ}, kFloat32, [&] { return r.f(-sm, sm); }, 0);
  bool sink = !r.p(.1), wrong = r.p(.04);
  if (wrong && g.HQ % (g.HK + 1) == 0) wrong = false;
  int threads = r.p(.4) ? 4 : 1;
  static const char* N[] = {"swa_flash", "swa_decode", "swa_prefill", "swa_append"};
  std::string cl = vh::S(N[kind], sink ? "" : "_nosink", wrong ? "_wrong" : "");
  std::string what = vh::S(cl, " attention, ", show(g), ", window ", W, ", length ", cur, ", ", threads, " threads", wrong ? ", heads that do not divide" : "");
  Blocks KB(r, g.SK, g.B * g.HK * g.D, m), VB(r, g.SK, g.B * g.HK * g.DV, m);
  Val K = make(r, {g.B, g.SK, g.HK, g.D}, kFloat32, gen, kind ? 0 : .4), V = make(r, {g.B, g.SK, g.HK, g.DV}, kFloat32, gen, kind ? 0 : .4);
  if (!kind && (K.lay != "plain" || V.lay != "plain")) cl += "_view", what += vh::S(", layouts ", K.lay, " ", V.lay);
  guarded(kind == 3 || !sink || wrong, cl, what, [&] {
    said_reset();
    Tensor y = Tensor::nil();
    std::vector<Tensor> in;
    auto fill = [&](auto& o) { o.B = g.B; o.q_head = g.HQ; o.kv_head = g.HK + wrong; o.D_QK = g.D; o.D_V = g.DV; o.cur_seq_len = cur; o.sliding_window = W; o.s_aux_enable = sink; o.setThreads(threads); };
    if (kind == 0) {
      in = {Q.t, K.t, V.t};
      if (sink) in.push_back(A.t);
      aops::FlashAttention2SwaSinkOptions o;
      fill(o);
      y = op(OpTypes::kFlashAttention2WithSinkAndSwa, o, in)[0];
    } else {
      in = {Q.t, KB.tensor(), VB.tensor()};
      if (sink) in.push_back(A.t);
      auto pat = kind == 1 ? aops::RadixAttnSwaSinkPattern::kDecode : kind == 2 ? aops::RadixAttnSwaSinkPattern::kPrefill : aops::RadixAttnSwaSinkPattern::kAppend;
      if (sink && !wrong && r.p(.5)) y = nn::functional::radixAttnSWAwSink(Q.t, in[1], in[2], A.t, g.B, g.HQ, g.HK, g.D, g.DV, W, cur, pat);
      else { aops::RadixAttnSwaSinkOptions o; fill(o); o.pattern = pat; y = op(OpTypes::kRadixAttnWithSinkAndSwaDiffDim, o, in)[0]; }
    }
    untouched(cl, what, Q); untouched(cl, what, A);
    if (said("[NYI]")) { vh::observe("refused_swa"); if (kind != 3 && !wrong && sink) vh::violation(cl + "_refused", what + ": refused"); return; }
    if (wrong) { vh::violation(cl + "_accepted", what + ": computed"); return; }
    At k = kind ? At([&](int b, int t, int h, int d) { return KB.v(t, (b * g.HK + h) * g.D + d); }) : at(K);
    At v = kind ? At([&](int b, int t, int h, int d) { return VB.v(t, (b * g.HK + h) * g.DV + d); }) : at(V);
    // tokens given are the last SK of cur; the query s is at position cur - SQ + s
    auto row = [&](int extra) {
      return [&, extra](int b, int h, int s) {
        double sv = A.v[h];
        return dense(g, at(Q), k, v, [&](int s, int t) { int p = cur - g.SQ + s, tp = cur - g.SK + t; return tp <= p && (kind != 2 || tp > p - W - extra); }, sink ? &sv : nullptr, b, h, s);
      };
    };
    if (kind != 2) check(cl, what, y, g, row(0));
    else {
      // W tokens, or W before the query's own: whichever, but always the same
      auto fits = [&](int e) {
        if (y.shape() != Sh{g.B, g.SQ, g.HQ, g.DV}) return false;
        bool ok = true;
        auto f = row(e);
        for (int b = 0; b < g.B; ++b) for (int s = 0; s < g.SQ; ++s) for (int h = 0; h < g.HQ; ++h) {
          auto x = f(b, h, s);
          for (int d = 0; d < g.DV; ++d) if (!(fabs(get(y, {b, s, h, d}) - x.o[d]) <= x.tol)) ok = false;
        }
        return ok;
      };
      bool f0 = fits(0), f1 = fits(1);
      if (f0 != f1) {
        int p = f1;
        if (prefill_window < 0) prefill_window = p;
        if (p != prefill_window) { vh::violation(cl + "_window", what + ": the window is not the one of other prefills"); return; }
      }
      if (!f0 && !f1) { check(cl, what, y, g, row(prefill_window < 0 ? 1 : prefill_window)); return; }
      if (W < g.SK - 1) vh::observe("swa_prefill_cut");
    }
    vh::observe(N[kind]);
    if (cur > g.SK) vh::observe("swa_beyond_window");
    if (!sink) vh::observe("swa_without_sink");
    vh::cases(cl + show(g) + vh::S(W, cur));
  });
}

// ---- paged --------------------------------------------------------------
static void paged(vh::Rng& r) {
  Geo g = geo(r);
  if (!r.p(.15)) g.D = (g.D + 3) / 4 * 4;
  g.DV = g.D;
  double m = amp(r);
  auto gen = [&] { return r.f(-m, m); };
  int phys = g.SK + (r.p(.5) ? r.in(0, 12) : 0);
  Val Q = make(r, {g.B, g.SQ, g.HQ, g.D}, kFloat32, gen, 0), K = make(r, {g.B, phys, g.HK, g.D}, kFloat32, gen, 0), V = make(r, {g.B, phys, g.HK, g.D}, kFloat32, gen, 0);
  std::vector<int> perm(phys);
  for (int i = 0; i < phys; ++i) perm[i] = i;
  for (int i = phys - 1; i > 0; --i) std::swap(perm[i], perm[r.in(0, i)]);
  Tensor index = Tensor::empty({g.SK}, kInt32, kCPU).alloc();
  for (int i = 0; i < g.SK; ++i) index.ptr<int32_t>()[i] = perm[i];
  int dl = g.SK - g.SQ, mk = r.in(0, 2);
  std::vector<char> vis((size_t)g.SQ * g.SK, 0);
  for (int s = 0; s < g.SQ; ++s) for (int t = 0; t < g.SK; ++t) vis[s * g.SK + t] = g.SQ == 1 || (mk < 2 ? t <= dl + s : t == s || r.p(.5));
  Val M = make(r, {g.SQ, g.SK}, kFloat32, [] { return 0.; }, 0);
  double neg = mk == 0 ? -INFINITY : -1e10;
  for (int i = 0; i < g.SQ * g.SK; ++i) if (!vis[i]) M.t.ptr<float>()[i] = neg;
  M.before = bytes(M.whole);
  bool need = r.p(.5), def = r.p(.05);
  int threads = r.p(.4) ? 4 : 1;
  std::string cl = vh::S("paged", need ? "_weights" : "", g.D % 4 ? "_odd" : "", def ? "_default" : "");
  std::string what = vh::S(cl, " attention, ", show(g), ", ", phys, " rows in the cache, ", threads, " threads");
  guarded(def || g.D % 4, cl, what, [&] {
    said_reset();
    aops::PagedAttnOpOptions o;
    o.head_repeat_times = g.HQ / g.HK;
    o.need_attn_weights = need;
    o.impl_type = def ? aops::PagedAttnImplType::kDefault : aops::PagedAttnImplType::kAllFp32;
    o.setThreads(threads);
    auto out = op(OpTypes::kPagedAttn, o, {Q.t, K.t, V.t, index, M.t});
    untouched(cl, what, Q); untouched(cl, what, K); untouched(cl, what, V); untouched(cl, what, M);
    if (said("[NYI]")) { vh::observe("refused_paged"); if (!def && g.D % 4 == 0) vh::violation(cl + "_refused", what + ": refused"); return; }
    auto p = [&](const Val& v) { return [&](int b, int t, int h, int d) { return v.at({b, perm[t], h, d}); }; };
    auto k = p(K), v = p(V);
    auto row = [&](int b, int h, int s) { return dense(g, at(Q), k, v, [&](int s, int t) { return (bool)vis[s * g.SK + t]; }, nullptr, b, h, s); };
    if (!check(cl, what, out.at(0), g, row)) return;
    if (need) {
      std::map<std::vector<int>, Row> memo;
      compare(cl + "_w", what + ", weights", out.at(1), {g.B, g.HQ, g.SQ, g.SK}, kFloat32, [&](auto& ix) {
        std::vector<int> q{ix[0], ix[1], ix[2]};
        auto it = memo.find(q);
        if (it == memo.end()) it = memo.emplace(q, row(ix[0], ix[1], ix[2])).first;
        return std::pair<double, double>(it->second.w[ix[3]], it->second.tol == INFINITY ? INFINITY : 1e-4);
      });
    }
    vh::observe(need ? "paged_weights" : "paged");
    if (g.B > 1 && phys > g.SK) vh::observe("paged_batches");
    vh::cases(cl + show(g) + vh::S(phys, mk));
  });
}

// ---- the plain composition ----------------------------------------------
static void plain(vh::Rng& r) {
  Geo g = geo(r);
  g.HK = g.HQ;
  double m = amp(r);
  auto gen = [&] { return r.f(-m, m); };
  Val Q = make(r, {g.B, g.HQ, g.SQ, g.D}, kFloat32, gen, .3), K = make(r, {g.B, g.HQ, g.SK, g.D}, kFloat32, gen, .3), V = make(r, {g.B, g.HQ, g.SK, g.DV}, kFloat32, gen, .3);
  bool mask = r.p(.6);
  int dl = g.SK - g.SQ;
  Val M = make(r, {1, 1, g.SQ, g.SK}, kFloat32, [&] { return r.f(-2, 2); }, 0);
  bool causal = r.p(.5);
  if (mask && causal) { for (int s = 0; s < g.SQ; ++s) for (int t = dl + s + 1; t < g.SK; ++t) M.t.ptr<float>()[s * g.SK + t] = -1e10f; M.v.clear(); each(M.t.shape(), [&](auto& ix) { M.v.push_back(get(M.t, ix)); }); M.before = bytes(M.whole); }
  std::string cl = vh::S("sdpa", mask ? "_mask" : ""), what = vh::S("scaledDotProductAttention, ", show(g), ", layouts ", Q.lay, " ", K.lay, " ", V.lay, mask ? ", with a mask" : "");
  guarded(false, cl, what, [&] {
    said_reset();
    Tensor y = mask ? nn::functional::scaledDotProductAttention(Q.t, K.t, V.t, M.t) : nn::functional::scaledDotProductAttention(Q.t, K.t, V.t);
    untouched(cl, what, Q); untouched(cl, what, K); untouched(cl, what, V); untouched(cl, what, M);
    if (said("[NYI]")) { vh::observe("refused_sdpa"); if (!(mask && g.B > 1 && g.HQ > 1)) vh::violation(cl + "_refused", what + ": refused"); return; }
    auto sw = [](const Val& v) { return [&v](int b, int s, int h, int d) { return v.at({b, h, s, d}); }; };
    auto q = sw(Q), k = sw(K), v = sw(V);
    std::function<double(int, int)> bias = [&](int s, int t) { return M.at({0, 0, s, t}); };
    std::map<std::vector<int>, Row> memo;
    compare(cl, what, y, {g.B, g.HQ, g.SQ, g.DV}, kFloat32, [&](auto& ix) {
      std::vector<int> kk{ix[0], ix[1], ix[2]};
      auto it = memo.find(kk);
      if (it == memo.end()) it = memo.emplace(kk, dense(g, q, k, v, [&](int s, int t) { return !(mask && causal) || t <= dl + s; }, nullptr, ix[0], ix[1], ix[2], 1e-4, mask ? &bias : nullptr)).first;
      return std::pair<double, double>(it->second.o[ix[3]], it->second.tol);
    });
    vh::observe("sdpa");
    vh::cases(cl + show(g));
  });
}

int main() {
  ops_setup();
  vh::Rng r(vh::seed());
  int n = vh::scale(700, 9000);
  for (int i = 0; i < n; ++i) {
    flash(r);
    radix(r);
    swa(r); swa(r);
    paged(r);
    if (i % 3 == 0) plain(r);
    if (i % 50 == 0) ops_trim();
  }
  return vh::finish();
}

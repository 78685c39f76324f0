// C15: element-wise, comparison, activation, normalisation, reduction, pooling,
// convolution, embedding and cast operators of the CPU backend, each element against
// its definition in double precision; where an operator cannot do it, it must say so.
#include "ops.hpp"
#include "mllm/core/aops/AvgPool1dOp.hpp"
#include "mllm/core/aops/CastTypeOp.hpp"
#include "mllm/core/aops/CmpOp.hpp"
#include "mllm/core/aops/Conv1DOp.hpp"
#include "mllm/core/aops/Conv2DOp.hpp"
#include "mllm/core/aops/Conv3DOp.hpp"
#include "mllm/core/aops/ElewiseOps.hpp"
#include "mllm/core/aops/EmbeddingOp.hpp"
#include "mllm/core/aops/GELUOp.hpp"
#include "mllm/core/aops/LayerNorm2DOp.hpp"
#include "mllm/core/aops/LayerNormOp.hpp"
#include "mllm/core/aops/QuickGELUOp.hpp"
#include "mllm/core/aops/RMSNormOp.hpp"
#include "mllm/core/aops/ReLUOp.hpp"
#include "mllm/core/aops/ReduceOps.hpp"
#include "mllm/core/aops/SiLUOp.hpp"
#include "mllm/core/aops/SigmoidOp.hpp"
#include "mllm/core/aops/SoftmaxOp.hpp"
static const DataTypes NUMS[] = {kFloat32, kFloat32, kFloat32, kInt32, kInt16, kInt8, kFloat16};

// ---- binary -------------------------------------------------------------
static void binary(vh::Rng& r) {
  int k = r.in(0, 4);   // add sub mul div equal
  static const char* N[] = {"add", "sub", "mul", "div", "equal"};
  static const OpTypes T[] = {OpTypes::kAdd, OpTypes::kSub, OpTypes::kMul, OpTypes::kDiv, OpTypes::kEqual};
  DataTypes dt = NUMS[r.in(0, 6)];
  Sh a = rshape(r, 1, 4, 40), b = a;
  int n = a.size();
  static const char* R[] = {"same", "scalar", "ones", "one_dim", "suffix", "several", "left", "mutual", "flat", "mismatch", "alias"};
  int rel = r.in(0, 10);
  switch (rel) {
    case 1: b = {1}; break;
    case 2: b = Sh(n, 1); break;
    case 3: b[r.in(0, n - 1)] = 1; break;
    case 4: b.erase(b.begin(), b.begin() + r.in(0, n - 1)); break;
    case 5: for (auto& d : b) if (r.p(.5)) d = 1; break;
    case 6: for (auto& d : a) if (r.p(.6)) d = 1; if (r.p(.3) && n > 1) a.erase(a.begin()); break;
    case 7: for (int i = 0; i < n; ++i) (i & 1 ? a : b)[i] = 1; if (r.p(.5)) std::swap(a, b); break;
    case 8: { int d = r.in(2, 7); a = {d, 1}; b = {1, d}; if (r.p(.5)) std::swap(a, b); if (r.p(.5)) { int q = r.in(2, 4); a.insert(a.begin(), q); b.insert(b.begin(), q); } break; }
    case 9: b[r.in(0, n - 1)] += r.in(2, 5); if (r.p(.5)) std::swap(a, b); break;
  }
  int m = std::max(a.size(), b.size());
  Sh o(m, 1);
  bool legal = true;
  for (int i = 0; i < m; ++i) {
    int x = i - m + (int)a.size(), y = i - m + (int)b.size();
    int p = x >= 0 ? a[x] : 1, q = y >= 0 ? b[y] : 1;
    if (p != q && p != 1 && q != 1) legal = false;
    o[i] = std::max(p, q);
  }
  bool inplace = k < 4 && r.p(.2), isf = dt == kFloat32 || dt == kFloat16;
  bool fit = o == a;
  int threads = r.p(.3) ? 4 : 1;
  double lim = dt == kInt8 ? 11 : dt == kInt16 ? 150 : dt == kInt32 ? 20000 : 8;
  auto gen = [&] { return isf ? r.f(-lim, lim) : k == 4 ? (double)r.in(-2, 2) : (double)r.in(-lim, lim); };
  auto genb = [&] { if (k == 4 && isf && r.p(.5)) return 1.0; if (k != 3) return gen(); double v; do v = gen(); while (fabs(v) < .05); return v; };
  Val A = make(r, a, dt, [&] { return k == 4 && isf ? (r.p(.5) ? 1.0 : gen()) : gen(); }, .3), B = rel == 10 ? A : make(r, b, dt, genb, .3);
  if (rel == 10 && k == 3) for (double v : A.v) if (v == 0) return;
  std::string cl = vh::S(N[k], "_", tn(dt), "_", R[rel], inplace ? "_inplace" : "");
  std::string what = vh::S(N[k], " of ", tn(dt), " ", vh::L(a), " (", A.lay, ") and ", vh::L(b), " (", B.lay, "), ", threads, " threads", inplace ? ", in place" : "");
  bool risky = !legal || (inplace && !fit);
  guarded(risky, cl, what, [&] {
    said_reset();
    std::vector<Tensor> out;
    auto go = [&](auto o) { o.setThreads(threads); o.setInplace(inplace); out = op(T[k], o, {A.t, B.t}); };
    int api = !inplace && rel != 9 ? r.in(0, 2) : 0;
    if (api == 1 && k < 4) out = {k == 0 ? A.t + B.t : k == 1 ? A.t - B.t : k == 2 ? A.t * B.t : A.t / B.t};
    else if (inplace && k == 2 && r.p(.5)) out = {A.t.mul_(B.t)};
    else switch (k) { case 0: go(aops::AddOpOptions{}); break; case 1: go(aops::SubOpOptions{}); break; case 2: go(aops::MulOpOptions{}); break; case 3: go(aops::DivOpOptions{}); break; default: { aops::EqualOpOptions e; e.setThreads(threads); out = op(T[k], e, {A.t, B.t}); } }
    bool ref = said("[NYI]");
    if (!ref && risky) { vh::violation(cl + "_accepted", what + (legal ? ": writes a result larger than the tensor it is written to" : ": shapes that do not broadcast are accepted")); return; }
    Tensor y = out.at(0);
    if (!inplace || ref) untouched(cl, what, A); else untouched(cl, what, A, &y);
    if (rel != 10) untouched(cl, what, B);
    if (ref) {
      vh::observe("refused_binary");
      if (rel <= 1 && (dt == kFloat32 || (k < 3 && dt != kFloat16))) vh::violation(cl + "_refused", what + ": refused");
      return;
    }
    if (inplace && y.ptr<char>() != A.t.ptr<char>()) vh::violation(cl + "_inplace", what + ": the result of an operation in place is elsewhere");
    auto pick = [&](const Val& v, const Sh& ix) {
      auto s = v.t.shape();
      Sh j(ix.end() - s.size(), ix.end());
      for (size_t i = 0; i < s.size(); ++i) if (s[i] == 1) j[i] = 0;
      return v.at(j);
    };
    if (k == 4) {
      bool bad = false;
      if (y.shape() != o) { vh::violation(cl + "_shape", vh::S(what, ": result has shape ", vh::L(y.shape()))); return; }
      each(o, [&](auto& ix) {
        uint8_t g = *(y.ptr<uint8_t>() + off(y, ix));
        if (g != (pick(A, ix) == pick(B, ix)) && !bad) { bad = true; vh::violation(cl, vh::S(what, ": element ", vh::L(ix), " is ", (int)g)); }
      });
      vh::observe("equal");
    } else {
      compare(cl, what, y, o, dt, [&](auto& ix) {
        double p = pick(A, ix), q = pick(B, ix);
        double w = k == 0 ? p + q : k == 1 ? p - q : k == 2 ? p * q : isf ? p / q : (double)((int64_t)p / (int64_t)q);
        return std::pair<double, double>(w, fabs(w) * eps(dt));
      });
      vh::observe(N[k]);
    }
    vh::observe(vh::S("binary_", tn(dt)));
    vh::observe(vh::S("rel_", R[rel]));
    if (A.lay != "plain" || B.lay != "plain") vh::observe("binary_views");
    if (inplace) vh::observe("binary_inplace");
    if (threads > 1) vh::observe("binary_threads");
    vh::cases(vh::S(cl, A.lay, B.lay, vh::L(a), vh::L(b)));
  });
}
static void scalar(vh::Rng& r) {
  int k = r.in(0, 3);
  static const char* N[] = {"+", "-", "*", "/"};
  DataTypes dt = NUMS[r.in(0, 6)];
  bool isf = dt == kFloat32 || dt == kFloat16;
  Sh a = rshape(r, 1, 4, 40);
  Val A = make(r, a, dt, [&] { return isf ? r.f(-8, 8) : (double)r.in(-9, 9); }, .3);
  double s = isf ? (double)(float)r.f(-5, 5) : (double)r.in(-9, 9);
  if (fabs(s) < .05) s = 2;
  if (dt == kFloat16) s = h2f(f2h((float)s));
  std::string cl = vh::S("scalar_", tn(dt)), what = vh::S("tensor ", vh::L(a), " ", tn(dt), " (", A.lay, ") ", N[k], " ", s);
  vh::begin(what);
  said_reset();
  Tensor y = k == 0 ? A.t + (float)s : k == 1 ? A.t - (float)s : k == 2 ? A.t * (float)s : A.t / (float)s;
  untouched(cl, what, A);
  if (said("[NYI]")) { vh::observe("refused_scalar"); if (dt == kFloat32) vh::violation(cl + "_refused", what + ": refused"); return; }
  compare(cl, what, y, a, dt, [&](auto& ix) {
    double p = A.at(ix), w = k == 0 ? p + s : k == 1 ? p - s : k == 2 ? p * s : isf ? p / s : (double)((int64_t)p / (int64_t)s);
    return std::pair<double, double>(w, fabs(w) * eps(dt));
  });
  vh::observe("scalar");
  vh::cases(what.substr(0, 60));
}

// ---- unary --------------------------------------------------------------
static void unary(vh::Rng& r) {
  static const char* N[] = {"neg", "abs", "log", "exp", "sin", "cos", "clip", "silu", "sigmoid", "gelu", "quick_gelu", "relu"};
  int k = r.in(0, 11);
  if (r.p(.4)) k = r.in(7, 11);
  DataTypes dt = k < 7 ? NUMS[r.in(0, 6)] : r.p(.85) ? kFloat32 : kFloat16;
  bool isf = dt == kFloat32 || dt == kFloat16;
  Sh a = rshape(r, 1, 4, 70);
  double hi = !isf ? 60 : k == 3 ? 9 : k >= 7 ? (r.p(.15) ? 120 : 9) : 30;
  Val A = make(r, a, dt, [&] { return k == 2 ? (isf ? exp(r.f(-6, 6)) : (double)r.in(1, 60)) : isf ? r.f(-hi, hi) : (double)r.in(-hi, hi); }, .3);
  bool inplace = (k == 7 || k == 8) && r.p(.3);
  int threads = r.p(.3) ? 4 : 1;
  double c0 = r.in(-5, 1), c1 = r.in(2, 9);
  std::string cl = vh::S(N[k], "_", tn(dt)), what = vh::S(N[k], " of ", tn(dt), " ", vh::L(a), " (", A.lay, "), ", threads, " threads", inplace ? " in place" : "");
  bool risky = k >= 9 && A.lay != "plain" && A.lay != "slice0";
  if (risky) threads = 1;
  guarded(risky, cl, what, [&] {
    said_reset();
    std::vector<Tensor> out;
    auto go = [&](OpTypes t, auto o) { o.setThreads(threads); o.setInplace(inplace); out = op(t, o, {A.t}); };
    switch (k) {
      case 0: if (r.p(.5)) out = {-A.t}; else go(OpTypes::kNeg, aops::NegOpOptions{}); break;
      case 1: go(OpTypes::kAbs, aops::AbsOpOptions{}); break;
      case 2: go(OpTypes::kLog, aops::LogOpOptions{}); break;
      case 3: go(OpTypes::kExp, aops::ExpOpOptions{}); break;
      case 4: go(OpTypes::kSin, aops::SinOpOptions{}); break;
      case 5: go(OpTypes::kCos, aops::CosOpOptions{}); break;
      case 6: { out = {A.t.clip((float)c0, (float)c1)}; break; }
      case 7: if (inplace && r.p(.5)) out = {nn::functional::silu_(A.t)}; else go(OpTypes::kSiLU, aops::SiLUOpOptions{}); break;
      case 8: go(OpTypes::kSigmoid, aops::SigmoidOpOptions{}); break;
      case 9: go(OpTypes::kGELU, aops::GELUOpOptions{}); break;
      case 10: go(OpTypes::kQuickGELU, aops::QuickGELUOpOptions{}); break;
      default: go(OpTypes::kReLU, aops::ReLUOpOptions{});
    }
    bool ref = said("[NYI]");
    Tensor y = out.at(0);
    if (!inplace || ref) untouched(cl, what, A); else untouched(cl, what, A, &y);
    if (ref) { vh::observe("refused_unary"); if ((k == 7 || k == 8) && dt == kFloat32) vh::violation(cl + "_refused", what + ": refused"); return; }
    if (inplace && y.ptr<char>() != A.t.ptr<char>()) vh::violation(cl + "_inplace", what + ": the result of an operation in place is elsewhere");
    compare(cl, what, y, a, dt, [&](auto& ix) {
      double x = A.at(ix), w = 0, tol = 0, e = std::max(eps(dt), 3e-6);
      switch (k) {
        case 0: w = -x; break;
        case 1: w = fabs(x); break;
        case 2: w = log(x); tol = 1e-6; break;
        case 3: w = exp(x); break;
        case 4: w = sin(x); tol = 1e-5; break;
        case 5: w = cos(x); tol = 1e-5; break;
        case 6: w = std::min(std::max(x, c0), c1); break;
        case 7: w = x / (1 + exp(-x)); tol = 1e-6; break;
        case 8: w = 1 / (1 + exp(-x)); tol = 1.2e-4; break;
        case 9: w = .5 * x * (1 + erf(x / sqrt(2.))); tol = 1.2e-3; break;   // the tanh form differs from it by less
        case 10: w = x / (1 + exp(-1.702 * x)); tol = 1e-5; break;
        default: w = std::max(x, 0.);
      }
      if (!isf && k >= 2 && k <= 5) tol = 1;
      return std::pair<double, double>(w, tol + fabs(w) * (k == 6 || k < 2 ? 0 : e));
    });
    vh::observe(N[k]);
    if (A.lay != "plain") vh::observe("unary_views");
    if (inplace) vh::observe("unary_inplace");
    if (threads > 1) vh::observe("unary_threads");
    vh::cases(vh::S(cl, A.lay, vh::L(a)));
  });
}

// ---- reductions, softmax, normalisation -----------------------------------
static void reduce(vh::Rng& r) {
  static const char* N[] = {"sum", "max", "min", "mean"};
  int k = r.p(.55) ? 0 : r.in(1, 3);
  DataTypes dt = r.p(.75) ? kFloat32 : NUMS[r.in(0, 6)];
  bool isf = dt == kFloat32 || dt == kFloat16;
  Sh a = rshape(r, 1, 4, 90), o;
  int n = a.size();
  bool every = r.p(.25), keep = r.p(.5);
  int d = r.in(0, n - 1), arg = every ? 0x7fffffff : r.p(.5) ? d : d - n;
  Val A = make(r, a, dt, [&] { return isf ? r.f(-4, 4) : (double)r.in(-3, 3); }, .3);
  if (every) o = keep ? Sh(n, 1) : Sh{1};
  else for (int i = 0; i < n; ++i) { if (i != d) o.push_back(a[i]); else if (keep) o.push_back(1); }
  int threads = r.p(.3) ? 4 : 1;
  std::string cl = vh::S(N[k], "_", tn(dt)), what = vh::S(N[k], " of ", tn(dt), " ", vh::L(a), " (", A.lay, ") dim ", arg, keep ? " keep" : "", ", ", threads, " threads");
  guarded(false, cl, what, [&] {
    said_reset();
    std::vector<Tensor> out;
    auto go = [&](OpTypes t, auto x) { x.dim = arg; x.keep_dim = keep; x.setThreads(threads); out = op(t, x, {A.t}); };
    if (r.p(.5)) out = {k == 0 ? A.t.sum(arg, keep) : k == 1 ? A.t.max(arg, keep) : k == 2 ? A.t.min(arg, keep) : A.t.mean(arg, keep)};
    else switch (k) { case 0: go(OpTypes::kReduceSum, aops::ReduceSumOpOptions{}); break; case 1: go(OpTypes::kReduceMax, aops::ReduceMaxOpOptions{}); break; case 2: go(OpTypes::kReduceMin, aops::ReduceMinOpOptions{}); break; default: go(OpTypes::kMean, aops::MeanOpOptions{}); }
    untouched(cl, what, A);
    if (said("[NYI]")) { vh::observe("refused_reduce"); if (k == 0 && dt == kFloat32) vh::violation(cl + "_refused", what + ": refused"); return; }
    Tensor y = out.at(0);
    // definition, from the values of the operand
    std::map<Sh, std::vector<double>> g;
    each(a, [&](auto& ix) {
      Sh j;
      if (every) j = Sh(o.size(), 0);
      else for (int i = 0; i < n; ++i) { if (i != d) j.push_back(ix[i]); else if (keep) j.push_back(0); }
      g[j].push_back(A.at(ix));
    });
    compare(vh::S(cl, every ? "_all" : ""), what, y, o, dt, [&](auto& ix) {
      auto& v = g[ix];
      double s = 0, mass = 0, mx = v[0], mn = v[0];
      for (double x : v) { s += x; mass += fabs(x); mx = std::max(mx, x); mn = std::min(mn, x); }
      if (k == 1) return std::pair<double, double>(mx, 0);
      if (k == 2) return std::pair<double, double>(mn, 0);
      double q = k == 3 ? v.size() : 1;
      if (!isf) return std::pair<double, double>(k == 3 ? (double)(int64_t)(s / q) : s, 0);
      return std::pair<double, double>(s / q, (mass * (dt == kFloat16 ? v.size() * 0x1p-10 : 2e-6) + 1e-9) / q);
    });
    vh::observe(N[k]);
    if (A.lay != "plain") vh::observe("reduce_views");
    if (every) vh::observe("reduce_all");
    vh::cases(vh::S(cl, A.lay, vh::L(a), arg));
  });
}
static void softmax(vh::Rng& r) {
  DataTypes dt = r.p(.9) ? kFloat32 : kFloat16;
  Sh a = rshape(r, 1, 4, 30);
  int n = a.size();
  static int turn = 0;   // every length up to 96, and some beyond
  a[n - 1] = r.p(.4) ? r.in(1, 16) : r.p(.7) ? 17 + turn++ % 80 : r.in(17, 200);
  int kind = r.in(0, 3);
  Val A = make(r, a, dt, [&] { return kind == 0 ? r.f(-4, 4) : kind == 1 ? r.f(-300, 300) : kind == 2 ? (r.p(.3) ? -1e9 : r.f(-6, 6)) : (r.p(.3) ? -INFINITY : r.f(-20, 20)); }, .3);
  int axis = r.p(.1) && n > 1 ? r.in(0, n - 2) : r.p(.5) ? -1 : n - 1, threads = r.p(.3) ? 4 : 1;
  if (dt == kFloat16 && kind == 2) return;
  bool last = axis == -1 || axis == n - 1;
  if (!last) threads = 1;
  std::string cl = vh::S("softmax_", tn(dt)), what = vh::S("softmax of ", tn(dt), " ", vh::L(a), " (", A.lay, ") axis ", axis, ", ", threads, " threads, kind ", kind);
  guarded(!last, cl, what, [&] {
    said_reset();
    aops::SoftmaxOpOptions o;
    o.axis = axis;
    o.setThreads(threads);
    Tensor y = r.p(.5) ? nn::functional::softmax(A.t, axis) : op(OpTypes::kSoftmax, o, {A.t})[0];
    untouched(cl, what, A);
    if (said("[NYI]")) { vh::observe("refused_softmax"); if (last && dt == kFloat32) vh::violation(cl + "_refused", what + ": refused"); return; }
    int d = axis < 0 ? axis + n : axis;
    std::map<Sh, std::pair<double, double>> ms;   // of each row: maximum, sum
    for (int pass = 0; pass < 2; ++pass)
      each(a, [&](auto& ix) {
        Sh j = ix;
        j[d] = 0;
        double x = A.at(ix);
        if (!pass) { auto it = ms.emplace(j, std::pair<double, double>(-INFINITY, 0)).first; it->second.first = std::max(it->second.first, x); }
        else ms[j].second += exp(x - ms[j].first);
      });
    compare(cl, what, y, a, dt, [&](auto& ix) {
      Sh j = ix;
      j[d] = 0;
      auto [m, s] = ms[j];
      if (std::isinf(m)) return std::pair<double, double>(0, INFINITY);   // nothing to attend to: not defined
      double w = exp(A.at(ix) - m) / s;
      return std::pair<double, double>(w, w * (dt == kFloat16 ? .01 : 3e-5) + 1e-9);
    });
    vh::observe("softmax");
    if (a[n - 1] > 16) vh::observe("softmax_long");
    if (A.lay != "plain") vh::observe("softmax_views");
    if (threads > 1) vh::observe("softmax_threads");
    vh::cases(vh::S(cl, A.lay, vh::L(a), kind));
  });
}
static void norm(vh::Rng& r) {
  bool ln = r.p(.35);
  DataTypes dt = r.p(.92) ? kFloat32 : kFloat16;
  Sh a = rshape(r, ln ? 2 : 1, 4, 20);
  int n = a.size();
  a[n - 1] = r.p(.5) ? r.in(1, 20) : r.in(21, 160);
  if (dt == kFloat16) a = {2, 8};
  int D = a[n = a.size(), n - 1];
  double sc = r.p(.2) ? 300 : r.p(.2) ? .003 : 3;
  Val A = make(r, a, dt, [&] { return r.f(-sc, sc) + (ln ? sc / 2 : 0); }, .3);
  bool unit = !ln && r.p(.3), inplace = !ln && r.p(.3), affine = !ln || r.p(.7), bias = ln && affine && r.p(.7);
  Sh ns{D};
  if (ln && n > 2 && r.p(.3)) ns = {a[n - 2], D};
  double e = r.p(.5) ? 1e-5 : 1e-6;
  int threads = r.p(.3) ? 4 : 1, L = num(ns);
  Tensor W = param("op.weight", {L}, dt), Bi = param("op.bias", {L}, dt);
  std::vector<double> w(L, 1), b(L, 0);
  for (int i = 0; i < L; ++i) { if (affine) { wr(W.ptr<char>() + i * esz(dt), dt, r.f(-2, 2)); w[i] = rd(W.ptr<char>() + i * esz(dt), dt); } wr(Bi.ptr<char>() + i * esz(dt), dt, r.f(-1, 1)); if (bias) b[i] = rd(Bi.ptr<char>() + i * esz(dt), dt); }
  std::string cl = vh::S(ln ? "layernorm_" : "rmsnorm_", tn(dt)), what = vh::S(cl, " of ", vh::L(a), " (", A.lay, ") over ", vh::L(ns), unit ? " unit offset" : "", affine ? "" : " no weights", bias ? " bias" : "", inplace ? " in place" : "", ", ", threads, " threads");
  bool risky = ln && A.lay != "plain" && A.lay != "slice0";
  if (risky) threads = 1;
  guarded(risky, cl, what, [&] {
    said_reset();
    std::vector<Tensor> out;
    if (ln) {
      aops::LayerNormOpOptions o;
      o.normalized_shape = ns;
      o.elementwise_affine = affine;
      o.bias = bias;
      o.eps = e;
      o.setThreads(threads);
      std::vector<std::pair<std::string, Tensor>> ps;
      ps.push_back({"weight", W});
      ps.push_back({"bias", Bi});
      out = op(OpTypes::kLayerNorm, o, {A.t}, ps);
    } else {
      aops::RMSNormOpOptions o;
      o.epsilon = e;
      o.add_unit_offset = unit;
      o.setInplace(inplace);
      o.setThreads(threads);
      out = op(OpTypes::kRMSNorm, o, {A.t}, {{"weight", W}});
    }
    bool ref = said("[NYI]");
    Tensor y = out.at(0);
    if (!inplace || ref) untouched(cl, what, A); else untouched(cl, what, A, &y);
    if (ref) { vh::observe("refused_norm"); if (!ln && dt == kFloat32) vh::violation(cl + "_refused", what + ": refused"); return; }
    if (inplace && y.ptr<char>() != A.t.ptr<char>()) vh::violation(cl + "_inplace", what + ": the result of an operation in place is elsewhere");
    std::vector<double> mu(A.v.size() / L), is(A.v.size() / L);
    for (size_t i = 0; i < mu.size(); ++i) {
      double s = 0, q = 0;
      for (int j = 0; j < L; ++j) s += A.v[i * L + j];
      mu[i] = ln ? s / L : 0;
      for (int j = 0; j < L; ++j) q += (A.v[i * L + j] - mu[i]) * (A.v[i * L + j] - mu[i]);
      is[i] = 1 / sqrt(q / L + e);
    }
    size_t c = 0;
    compare(cl, what, y, a, dt, [&](auto&) {
      size_t i = c++;
      double x = (A.v[i] - mu[i / L]) * is[i / L], g = unit ? w[i % L] + 1 : w[i % L], v = x * g + b[i % L];
      return std::pair<double, double>(v, (fabs(x * g) + fabs(b[i % L]) + (ln ? (fabs(mu[i / L]) * is[i / L] + 1) * fabs(g) : 0)) * (dt == kFloat16 ? .01 : 1e-5) + 1e-7);
    });
    vh::observe(ln ? "layernorm" : "rmsnorm");
    if (A.lay != "plain") vh::observe("norm_views");
    if (inplace) vh::observe("norm_inplace");
    if (threads > 1) vh::observe("norm_threads");
    vh::cases(vh::S(cl, A.lay, vh::L(a), unit));
  });
}

// ---- convolution, pooling, embedding, cast -------------------------------
static void conv(vh::Rng& r) {
  bool pool = r.p(.4);
  int B = r.in(1, 3), G = r.in(1, 3), ci = r.in(1, 3) * G, co = r.in(1, 3) * G, K = r.in(1, 5), st = r.in(1, 3), pd = pool ? r.in(0, K / 2) : r.in(0, 3), di = pool ? 1 : r.in(1, 3), Ln = r.in(1, 20);
  if (Ln + 2 * pd < di * (K - 1) + 1) Ln = di * (K - 1) + 1;
  Sh a{B, ci, Ln};
  Val A = make(r, a, kFloat32, [&] { return r.f(-3, 3); }, .3);
  int threads = r.p(.3) ? 4 : 1;
  if (pool) {
    aops::AvgPool1dOpOptions o;
    o.kernel_size = K;
    o.stride = st;
    o.padding = pd;
    o.ceil_mode = r.p(.4);
    o.count_include_pad = r.p(.5);
    o.setThreads(threads);
    // windows start every `stride`; in ceil mode the last may run over the end, but must begin inside the input or its left padding
    int num_ = Ln + 2 * pd - K, n = num_ / st + 1;
    if (o.ceil_mode) { n = (num_ + st - 1) / st + 1; if ((n - 1) * st >= Ln + pd) --n; }
    std::string what = vh::S("avg_pool1d of ", vh::L(a), " (", A.lay, ") kernel ", K, " stride ", st, " padding ", pd, o.ceil_mode ? " ceil" : "", o.count_include_pad ? " pads counted" : "", ", ", threads, " threads"), cl = vh::S("avgpool", o.ceil_mode ? "_ceil" : "");
    guarded(false, cl, what, [&] {
      Tensor y = op(OpTypes::kAvgPool1d, o, {A.t})[0];
      untouched(cl, what, A);
      compare(cl, what, y, {B, ci, n}, kFloat32, [&](auto& ix) {
        int s = ix[2] * st - pd, e = std::min(s + K, Ln + pd), all = e - s, s2 = std::max(s, 0), e2 = std::min(e, Ln);
        double q = 0;
        for (int i = s2; i < e2; ++i) q += A.at({ix[0], ix[1], i});
        int c = o.count_include_pad ? all : e2 - s2;
        return std::pair<double, double>(c > 0 ? q / c : 0, 1e-5);
      });
      vh::observe("avgpool");
      if (o.ceil_mode) vh::observe("avgpool_ceil");
      if (A.lay != "plain") vh::observe("conv_views");
      vh::cases(what);
    });
    return;
  }
  aops::Conv1DOpOptions o;
  o.in_channels = ci;
  o.out_channels = co;
  o.kernel_size = K;
  o.stride = st;
  o.padding = pd;
  o.groups = G;
  o.dilation = di;
  o.bias = r.p(.5);
  o.setThreads(threads);
  Tensor W = param("op.weight", {co, ci / G, K}, kFloat32), Bi = param("op.bias", {co}, kFloat32);
  for (size_t i = 0; i < W.numel(); ++i) W.ptr<float>()[i] = r.f(-1, 1);
  for (int i = 0; i < co; ++i) Bi.ptr<float>()[i] = r.f(-2, 2);
  std::string what = vh::S("conv1d of ", vh::L(a), " (", A.lay, ") to ", co, " channels, kernel ", K, " stride ", st, " padding ", pd, " dilation ", di, " groups ", G, o.bias ? " bias" : "", ", ", threads, " threads");
  guarded(false, "conv1d", what, [&] {
    Tensor y = op(OpTypes::kConv1D, o, {A.t}, {{"weight", W}, {"bias", Bi}})[0];
    untouched("conv1d", what, A);
    int n = (Ln + 2 * pd - di * (K - 1) - 1) / st + 1;
    compare("conv1d", what, y, {B, co, n}, kFloat32, [&](auto& ix) {
      double s = o.bias ? Bi.ptr<float>()[ix[1]] : 0, m = fabs(s);
      int g = ix[1] / (co / G);
      for (int c = 0; c < ci / G; ++c)
        for (int k = 0; k < K; ++k) {
          int p = ix[2] * st - pd + k * di;
          if (p < 0 || p >= Ln) continue;
          double t = A.at({ix[0], g * (ci / G) + c, p}) * W.ptr<float>()[(ix[1] * (ci / G) + c) * K + k];
          s += t;
          m += fabs(t);
        }
      return std::pair<double, double>(s, m * 2e-6 + 1e-9);
    });
    vh::observe("conv1d");
    if (G > 1) vh::observe("conv1d_groups");
    if (A.lay != "plain") vh::observe("conv_views");
    vh::cases(what);
  });
}
static void embed(vh::Rng& r) {
  static const DataTypes W[] = {kFloat32, kFloat32, kFloat16, kGGUF_Q4_0, kGGUF_Q4_K};
  DataTypes dt = W[r.in(0, 4)];
  int V = r.in(2, 30), H = dt == kGGUF_Q4_K ? 256 * r.in(1, 2) : dt == kGGUF_Q4_0 ? 32 * r.in(1, 5) : r.in(1, 40), B = r.in(1, 3), S = r.in(1, 9);
  Tensor w = param("op.weight", {V, H}, dt);
  std::vector<double> ref((size_t)V * H);
  const Fmt* f = nullptr;
  for (auto& x : FMTS) if (x.dt == dt) f = &x;
  if (dt == kFloat32 || dt == kFloat16) for (size_t i = 0; i < ref.size(); ++i) { wr(w.ptr<char>() + i * esz(dt), dt, r.f(-3, 3)); ref[i] = rd(w.ptr<char>() + i * esz(dt), dt); }
  else {
    std::vector<uint8_t> b = raw(*f, ref.size() / f->lanes, r);
    memcpy(w.ptr<char>(), b.data(), b.size());
    ref = deq(*f, b).v;
  }
  int oob = r.p(.15) ? 1 + r.p(.5) : 0;
  Val I = make(r, {B, S}, kInt64, [&] { return (double)r.in(0, V - 1); }, .3);
  if (oob) {   // an id outside of the table
    Sh ix{(int)r.in(0, B - 1), (int)r.in(0, S - 1)};
    *(I.t.ptr<int64_t>() + off(I.t, ix)) = oob == 1 ? V + r.in(0, 3) : -r.in(1, 3);
    I.before = bytes(I.whole);
  }
  int threads = !oob && r.p(.3) ? 4 : 1;
  std::string cl = vh::S("embedding_", f ? f->name : tn(dt)), what = vh::S(cl, " of ids ", vh::L(Sh{B, S}), " (", I.lay, ") in a table of ", V, " x ", H, ", ", threads, " threads", oob == 1 ? ", one id past the table" : oob ? ", one negative id" : "");
  guarded(oob, cl, what, [&] {
    said_reset();
    aops::EmbeddingOpOptions o;
    o.vocab_size = V;
    o.hidden_size = H;
    o.setThreads(threads);
    Tensor y = op(OpTypes::kEmbedding, o, {I.t}, {{"weight", w}})[0];
    untouched(cl, what, I);
    if (said("[NYI]")) { vh::observe("refused_embedding"); vh::violation(cl + "_refused", what + ": refused"); return; }
    if (oob) { vh::violation(cl + "_accepted", what + ": looked up"); return; }
    compare(cl, what, y, {B, S, H}, f ? kFloat32 : dt, [&](auto& ix) {
      double v = ref[(size_t)I.at({ix[0], ix[1]}) * H + ix[2]];
      return std::pair<double, double>(v, f ? fabs(v) * 2e-6 + 1e-5 : 0);
    });
    vh::observe(cl);
    if (I.lay != "plain") vh::observe("embedding_views");
    vh::cases(what);
  });
}
static void cast(vh::Rng& r) {
  static const DataTypes D[] = {kFloat32, kFloat16, kInt8, kInt16, kInt32, kInt64, kUInt8, kUInt16, kUInt32, kUInt64};
  DataTypes s = D[r.p(.5) ? r.in(0, 1) : r.in(0, 9)], d = D[r.p(.4) ? r.in(0, 1) : r.in(0, 9)];
  if (s == d) return;
  bool uns = d >= kUInt8 && (d == kUInt8 || d == kUInt16 || d == kUInt32 || d == kUInt64), us = s == kUInt8 || s == kUInt16 || s == kUInt32 || s == kUInt64, isf = s == kFloat32 || s == kFloat16;
  Sh a = rshape(r, 1, 4, 60);
  Val A = make(r, a, s, [&] { double lo = uns || us ? 0 : -120, v = r.f(lo, 120); return isf ? v : floor(v); }, .3);
  std::string cl = vh::S("cast_", tn(s), "_", tn(d)), what = vh::S(cl, " of ", vh::L(a), " (", A.lay, ")");
  guarded(false, cl, what, [&] {
    said_reset();
    Tensor y = A.t.to(d);
    untouched(cl, what, A);
    if (said("[NYI]")) { vh::observe("refused_cast"); return; }
    compare(cl, what, y, a, d, [&](auto& ix) {
      double x = A.at(ix);
      if (d == kFloat32) return std::pair<double, double>(x, 0);
      if (d == kFloat16) return std::pair<double, double>(x, fabs(x) * 0x1p-10 + 1e-7);
      return std::pair<double, double>(std::trunc(x), 0);
    });
    vh::observe("cast");
    if (A.lay != "plain") vh::observe("cast_views");
    vh::cases(vh::S(cl, A.lay, vh::L(a)));
  });
}

// ---- convolutions of images and videos, normalisation over channels: right, or refused
static void vision(vh::Rng& r) {
  int k = r.in(0, 2);
  int N = r.in(1, 2), C = r.in(1, 4), O = r.in(1, 4);
  Sh ker, st, pad, dil, in{N, C};
  int nd = k == 0 ? 2 : k == 1 ? 3 : 2;
  for (int i = 0; i < nd; ++i) {
    ker.push_back(r.in(1, 3)); st.push_back(r.in(1, 3)); pad.push_back(k ? 0 : r.in(0, 1)); dil.push_back(k ? 1 : r.in(1, 2));
    in.push_back(dil[i] * (ker[i] - 1) + 1 + r.in(0, 6));
  }
  Val X = make(r, in, kFloat32, [&] { return r.f(-2, 2); }, 0);
  bool bias = r.p(.5);
  static const char* N_[] = {"conv2d", "conv3d", "layernorm2d"};
  std::string cl = N_[k], what = vh::S(cl, " of ", vh::L(in), ", ", O, " filters of ", vh::L(ker), " stride ", vh::L(st), " padding ", vh::L(pad), " dilation ", vh::L(dil));
  Sh ws{O, C}; ws.insert(ws.end(), ker.begin(), ker.end());
  if (k == 2) ws = {C};
  Tensor w = param("op.weight", ws, kFloat32), b = param("op.bias", {k == 2 ? C : O}, kFloat32);
  for (size_t i = 0; i < num(ws); ++i) w.ptr<float>()[i] = r.f(-1, 1);
  for (int i = 0; i < (k == 2 ? C : O); ++i) b.ptr<float>()[i] = r.f(-1, 1);
  vh::begin(what);
  auto run = vh::in_child([&] {
    said_reset();
    Tensor y = Tensor::nil();
    std::vector<std::pair<std::string, Tensor>> ps{{"weight", w}};
    if (bias || k == 2) ps.push_back({"bias", b});
    if (k == 0) { aops::Conv2DOpOptions o; o.in_channels = C; o.out_channels = O; o.kernel_size = ker; o.stride = st; o.padding = pad; o.dilation = dil; o.bias = bias; y = op(OpTypes::kConv2D, o, {X.t}, ps)[0]; }
    else if (k == 1) { aops::Conv3DOpOptions o; o.in_channels = C; o.out_channels = O; o.kernel_size = ker; o.stride = st; o.bias = bias; y = op(OpTypes::kConv3D, o, {X.t}, ps)[0]; }
    else { aops::LayerNorm2DOpOptions o; o.num_channels = C; o.eps = 1e-5; y = op(OpTypes::kLayerNorm2D, o, {X.t}, ps)[0]; }
    if (said("[NYI]")) { vh::observe("refused_vision"); return; }
    Sh os{N, k == 2 ? C : O};
    for (int i = 0; i < nd; ++i) os.push_back(k == 2 ? in[i + 2] : (in[i + 2] + 2 * pad[i] - dil[i] * (ker[i] - 1) - 1) / st[i] + 1);
    compare(cl, what, y, os, kFloat32, [&](auto& ix) {
      double a = 0;
      if (k == 2) {
        double m = 0, q = 0;
        auto j = ix;
        for (j[1] = 0; j[1] < C; ++j[1]) m += X.at(j) / C;
        for (j[1] = 0; j[1] < C; ++j[1]) q += (X.at(j) - m) * (X.at(j) - m) / C;
        return std::pair<double, double>((X.at(ix) - m) / sqrt(q + 1e-5) * w.ptr<float>()[ix[1]] + b.ptr<float>()[ix[1]], 1e-4);
      }
      for (int c = 0; c < C; ++c) each(ker, [&](auto& kk) {
        Sh p{ix[0], c};
        for (int i = 0; i < nd; ++i) { int z = ix[i + 2] * st[i] - pad[i] + kk[i] * dil[i]; if (z < 0 || z >= in[i + 2]) return; p.push_back(z); }
        size_t wi = (size_t)ix[1] * C + c;
        for (int i = 0; i < nd; ++i) wi = wi * ker[i] + kk[i];
        a += X.at(p) * w.ptr<float>()[wi];
      });
      return std::pair<double, double>(a + (bias ? b.ptr<float>()[ix[1]] : 0), 1e-4);
    });
    vh::observe(cl);
  }, 60);
  if (run == "refused" || run == "threw") vh::observe("refused_vision");
  else if (run != "ok") vh::violation(cl + "_crash", what + ": " + run);
  vh::cases(what);
}

int main() {
  ops_setup();
  vh::Rng r(vh::seed());
  int n = vh::scale(900, 9000);
  for (int i = 0; i < n; ++i) {
    for (int k = 0; k < 5; ++k) binary(r);
    scalar(r);
    unary(r); unary(r);
    reduce(r); reduce(r);
    softmax(r);
    norm(r); norm(r);
    conv(r);
    embed(r);
    cast(r);
    if (i % 12 == 0) vision(r);
    if (i % 50 == 0) ops_trim();
  }
  return vh::finish();
}

// C22: tiny Qwen2-VL and Qwen2.5-VL models with random weights, given a prompt with
// one image and then tokens, against the function their checkpoint defines.
#include "c22.hpp"
using namespace mllm::models;
typedef std::vector<double> Vec;
typedef std::map<std::string, std::pair<Sh, std::vector<float>>> Weights;

static std::string config(const VSpec& s) {
  int fd = memfd_create("config", 0);
  auto j = s.json();
  if (write(fd, j.data(), j.size()) != (ssize_t)j.size()) exit(9);
  return vh::S("/proc/self/fd/", fd);
}
static void done(const std::string& p) { close(atoi(p.c_str() + strlen("/proc/self/fd/"))); }
static Tensor ids(const std::vector<int64_t>& v) {
  auto t = Tensor::empty({1, (int)v.size()}, kInt64, kCPU).alloc();
  memcpy(t.ptr<int64_t>(), v.data(), 8 * v.size());
  return t;
}
static mllm::ParameterFile::ptr_t params(const Weights& w) {
  auto pf = mllm::ParameterFile::create();
  for (auto& [n, v] : w) {
    auto t = Tensor::empty(v.first, kFloat32, kCPU).setName(n).setMemType(kGlobal).alloc();
    memcpy(t.ptr<float>(), v.second.data(), 4 * v.second.size());
    pf->push(n, t);
  }
  return pf;
}

static VSpec draw(vh::Rng& r, bool two5) {
  VSpec s;
  s.two5 = two5;
  s.VH = r.in(1, 3);
  s.VE = s.VH * 4 * r.in(1, 4);
  s.VL = r.in(1, 4);
  s.VI = s.VE * r.in(1, 4);
  if (two5) for (int l = 0; l < s.VL; ++l) if (r.p(.4)) s.full.push_back(l);
  s.kv = r.in(1, 2);
  s.heads = s.kv * r.in(1, 3);
  int half = r.in(3, 8);
  s.H = s.heads * 2 * half;
  int a = r.in(1, half - 2), b = r.in(1, half - a - 1);
  s.section = {a, b, half - a - b};
  s.I = r.in(8, 40);
  s.L = r.in(1, 3);
  s.V = r.in(20, 60);
  s.img = r.in(0, s.V - 1);
  s.eos = r.in(0, s.V - 1);
  s.theta = r.p(.5) ? 10000 : 1000000;
  if (r.p(.3)) s.eps = 1e-5;
  return s;
}

static Weights weights(const VSpec& s, vh::Rng& r) {
  Weights w;
  auto mat = [&](const std::string& n, int o, int i, double g = 1.2) {
    std::vector<float> v((size_t)o * i);
    double a = g * std::sqrt(3.0 / i);
    for (auto& x : v) x = (float)r.f(-a, a);
    w[n] = {{o, i}, v};
  };
  auto vec = [&](const std::string& n, int o, double lo, double hi) { std::vector<float> v(o); for (auto& x : v) x = (float)r.f(lo, hi); w[n] = {{o}, v}; };
  auto lin = [&](const std::string& n, int o, int i, bool b, double g = 1.2) { mat(n + ".weight", o, i, g); if (b) vec(n + ".bias", o, -.4, .4); };
  mat("visual.patch_embed.proj.weight", s.VE, 3 * 2 * 14 * 14);
  w["visual.patch_embed.proj.weight"].first = {s.VE, 3, 2, 14, 14};
  auto nrm = [&](const std::string& n) { vec(n + ".weight", s.VE, .5, 1.5); if (!s.two5) vec(n + ".bias", s.VE, -.5, .5); };
  for (int l = 0; l < s.VL; ++l) {
    auto p = vh::S("visual.blocks.", l, ".");
    nrm(p + "norm1");
    nrm(p + "norm2");
    lin(p + "attn.qkv", 3 * s.VE, s.VE, true, 1.6);
    lin(p + "attn.proj", s.VE, s.VE, true);
    if (s.two5) { lin(p + "mlp.gate_proj", s.VI, s.VE, true); lin(p + "mlp.up_proj", s.VI, s.VE, true); lin(p + "mlp.down_proj", s.VE, s.VI, true); }
    else { lin(p + "mlp.fc1", s.VI, s.VE, true); lin(p + "mlp.fc2", s.VE, s.VI, true); }
  }
  nrm("visual.merger.ln_q");
  lin("visual.merger.mlp.0", 4 * s.VE, 4 * s.VE, true);
  lin("visual.merger.mlp.2", s.H, 4 * s.VE, true);
  mat("model.embed_tokens.weight", s.V, s.H, std::sqrt(s.H / 3.0));
  w["model.lm_head.weight"] = w["model.embed_tokens.weight"];
  for (int l = 0; l < s.L; ++l) {
    auto p = vh::S("model.layers.", l, ".");
    vec(p + "input_layernorm.weight", s.H, .5, 1.5);
    vec(p + "post_attention_layernorm.weight", s.H, .5, 1.5);
    lin(p + "self_attn.q_proj", s.heads * s.D(), s.H, true, 1.5);
    lin(p + "self_attn.k_proj", s.kv * s.D(), s.H, true, 1.5);
    lin(p + "self_attn.v_proj", s.kv * s.D(), s.H, true, 1.5);
    lin(p + "self_attn.o_proj", s.H, s.heads * s.D(), false, 1.5);
    lin(p + "mlp.gate_proj", s.I, s.H, false);
    lin(p + "mlp.up_proj", s.I, s.H, false);
    lin(p + "mlp.down_proj", s.H, s.I, false);
  }
  vec("model.norm.weight", s.H, .5, 1.5);
  return w;
}

// The function the checkpoint defines.
struct Ref {
  const VSpec& s;
  const Weights& w;
  bool exact;  // the merger's GELU by its definition, or by its usual approximation
  struct Layer { std::vector<Vec> k, v; };
  std::vector<Layer> kvs;
  int64_t next = 0;
  Ref(const VSpec& s, const Weights& w, bool exact) : s(s), w(w), exact(exact), kvs(s.L) {}
  const std::vector<float>& W(const std::string& n) const { return w.at(n).second; }
  Vec lin(const std::string& n, const Vec& x, bool bias) const {
    auto& m = W(n + ".weight");
    size_t I = x.size(), O = m.size() / I;
    Vec y(O);
    for (size_t o = 0; o < O; ++o) { double a = 0; for (size_t i = 0; i < I; ++i) a += (double)m[o * I + i] * x[i]; y[o] = a; }
    if (bias) { auto& b = W(n + ".bias"); for (size_t o = 0; o < O; ++o) y[o] += b[o]; }
    return y;
  }
  Vec rms(const std::string& n, const Vec& x, double eps) const {
    auto& g = W(n + ".weight");
    double q = 0;
    for (auto v : x) q += v * v;
    q = 1 / std::sqrt(q / x.size() + eps);
    Vec y(x);
    for (size_t i = 0; i < x.size(); ++i) y[i] = x[i] * q * g[i];
    return y;
  }
  Vec vnorm(const std::string& n, const Vec& x) const {
    if (s.two5) return rms(n, x, 1e-6);
    auto &g = W(n + ".weight"), &b = W(n + ".bias");
    double m = 0, q = 0;
    for (auto v : x) m += v;
    m /= x.size();
    for (auto v : x) q += (v - m) * (v - m);
    q = 1 / std::sqrt(q / x.size() + 1e-6);
    Vec y(x);
    for (size_t i = 0; i < x.size(); ++i) y[i] = (x[i] - m) * q * g[i] + b[i];
    return y;
  }
  static double silu(double x) { return x / (1 + std::exp(-x)); }
  std::vector<Vec> image(const std::vector<float>& img, int gh, int gw) const {
    int n = gh * gw, P = 3 * 2 * 14 * 14, d = s.VE / s.VH;
    std::vector<Vec> x;
    std::vector<std::pair<int, int>> at;
    for (int bh = 0; bh < gh / 2; ++bh) for (int bw = 0; bw < gw / 2; ++bw) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) at.push_back({bh * 2 + i, bw * 2 + j});
    for (int p = 0; p < n; ++p) x.push_back(lin("visual.patch_embed.proj", Vec(img.begin() + (size_t)p * P, img.begin() + (size_t)(p + 1) * P), false));
    for (int l = 0; l < s.VL; ++l) {
      auto p = vh::S("visual.blocks.", l, ".");
      bool whole = !s.two5 || std::find(s.full.begin(), s.full.end(), l) != s.full.end();
      std::vector<Vec> qkv;
      for (int t = 0; t < n; ++t) {
        auto y = lin(p + "attn.qkv", vnorm(p + "norm1", x[t]), true);
        for (int z = 0; z < 2; ++z) for (int h = 0; h < s.VH; ++h) {
          double* q = &y[z * s.VE + h * d];
          for (int i = 0; i < d / 2; ++i) {
            int f = i % (d / 4);
            double ang = (i < d / 4 ? at[t].first : at[t].second) / std::pow(10000.0, 2.0 * f / (d / 2)), c = std::cos(ang), sn = std::sin(ang), a = q[i], b = q[i + d / 2];
            q[i] = a * c - b * sn;
            q[i + d / 2] = b * c + a * sn;
          }
        }
        qkv.push_back(y);
      }
      for (int t = 0; t < n; ++t) {
        Vec a(s.VE, 0);
        for (int h = 0; h < s.VH; ++h) {
          Vec sc(n, -1e300);
          double m = -1e300, tot = 0;
          for (int u = 0; u < n; ++u) {
            if (!whole && (at[u].first / 8 != at[t].first / 8 || at[u].second / 8 != at[t].second / 8)) continue;
            double dot = 0;
            for (int i = 0; i < d; ++i) dot += qkv[t][h * d + i] * qkv[u][s.VE + h * d + i];
            sc[u] = dot / std::sqrt((double)d);
            m = std::max(m, sc[u]);
          }
          for (auto& z : sc) { z = z == -1e300 ? 0 : std::exp(z - m); tot += z; }
          for (int u = 0; u < n; ++u) if (sc[u] > 0) for (int i = 0; i < d; ++i) a[h * d + i] += sc[u] / tot * qkv[u][2 * s.VE + h * d + i];
        }
        auto o = lin(p + "attn.proj", a, true);
        for (int i = 0; i < s.VE; ++i) x[t][i] += o[i];
      }
      for (auto& v : x) {
        auto y = vnorm(p + "norm2", v);
        Vec o;
        if (s.two5) {
          auto g = lin(p + "mlp.gate_proj", y, true), u = lin(p + "mlp.up_proj", y, true);
          for (size_t i = 0; i < g.size(); ++i) g[i] = silu(g[i]) * u[i];
          o = lin(p + "mlp.down_proj", g, true);
        } else {
          auto g = lin(p + "mlp.fc1", y, true);
          for (auto& z : g) z = z / (1 + std::exp(-1.702 * z));
          o = lin(p + "mlp.fc2", g, true);
        }
        for (int i = 0; i < s.VE; ++i) v[i] += o[i];
      }
    }
    std::vector<Vec> out;
    for (int b = 0; b < n / 4; ++b) {
      Vec c;
      for (int i = 0; i < 4; ++i) { auto y = vnorm("visual.merger.ln_q", x[b * 4 + i]); c.insert(c.end(), y.begin(), y.end()); }
      auto y = lin("visual.merger.mlp.0", c, true);
      for (auto& z : y) z = exact ? z * .5 * (1 + std::erf(z / std::sqrt(2.0))) : .5 * z * (1 + std::tanh(std::sqrt(2 / M_PI) * (z + .044715 * z * z * z)));
      out.push_back(lin("visual.merger.mlp.2", y, true));
    }
    return out;
  }
  struct Pos { int64_t p[3]; };
  Vec step(const Vec& emb, const Pos& pos) {
    Vec x = emb;
    int D = s.D();
    for (int l = 0; l < s.L; ++l) {
      auto p = vh::S("model.layers.", l, ".");
      auto n = rms(p + "input_layernorm", x, (float)s.eps);
      auto q = lin(p + "self_attn.q_proj", n, true), k = lin(p + "self_attn.k_proj", n, true), v = lin(p + "self_attn.v_proj", n, true);
      auto rope = [&](Vec& z, int hs) {
        for (int h = 0; h < hs; ++h) for (int i = 0; i < D / 2; ++i) {
          int axis = i < s.section[0] ? 0 : i < s.section[0] + s.section[1] ? 1 : 2;
          double ang = pos.p[axis] / std::pow(s.theta, 2.0 * i / D), c = std::cos(ang), sn = std::sin(ang), a = z[h * D + i], b = z[h * D + i + D / 2];
          z[h * D + i] = a * c - b * sn;
          z[h * D + i + D / 2] = b * c + a * sn;
        }
      };
      rope(q, s.heads);
      rope(k, s.kv);
      kvs[l].k.push_back(k);
      kvs[l].v.push_back(v);
      Vec a(s.H, 0);
      for (int h = 0; h < s.heads; ++h) {
        int g = h / (s.heads / s.kv);
        Vec sc;
        double m = -1e300, tot = 0;
        for (auto& kk : kvs[l].k) { double d = 0; for (int i = 0; i < D; ++i) d += q[h * D + i] * kk[g * D + i]; sc.push_back(d / std::sqrt((double)D)); m = std::max(m, sc.back()); }
        for (auto& z : sc) { z = std::exp(z - m); tot += z; }
        for (size_t j = 0; j < sc.size(); ++j) for (int i = 0; i < D; ++i) a[h * D + i] += sc[j] / tot * kvs[l].v[j][g * D + i];
      }
      auto o = lin(p + "self_attn.o_proj", a, false);
      for (int h = 0; h < s.H; ++h) x[h] += o[h];
      n = rms(p + "post_attention_layernorm", x, (float)s.eps);
      auto gt = lin(p + "mlp.gate_proj", n, false), up = lin(p + "mlp.up_proj", n, false);
      for (size_t i = 0; i < gt.size(); ++i) gt[i] = silu(gt[i]) * up[i];
      o = lin(p + "mlp.down_proj", gt, false);
      for (int h = 0; h < s.H; ++h) x[h] += o[h];
    }
    return lin("model.lm_head", rms("model.norm", x, (float)s.eps), false);
  }
  Vec embed(int64_t t) const { auto& e = W("model.embed_tokens.weight"); return Vec(e.begin() + t * s.H, e.begin() + (t + 1) * s.H); }
  std::vector<Pos> positions(const std::vector<int64_t>& toks, int gh, int gw) {
    std::vector<Pos> ps;
    size_t a = std::find(toks.begin(), toks.end(), s.img) - toks.begin(), n = gh * gw / 4;
    for (size_t i = 0; i < a; ++i) ps.push_back({{(int64_t)i, (int64_t)i, (int64_t)i}});
    for (int i = 0; i < gh / 2; ++i) for (int j = 0; j < gw / 2; ++j) ps.push_back({{(int64_t)a, (int64_t)a + i, (int64_t)a + j}});
    next = a + std::max(gh, gw) / 2;
    for (size_t i = a + n; i < toks.size(); ++i, ++next) ps.push_back({{next, next, next}});
    return ps;
  }
  Vec prompt(const std::vector<int64_t>& toks, const std::vector<float>& img, int gh, int gw) {
    auto e = image(img, gh, gw);
    auto ps = positions(toks, gh, gw);
    size_t a = std::find(toks.begin(), toks.end(), s.img) - toks.begin();
    Vec lo;
    for (size_t i = 0; i < toks.size(); ++i) lo = step(i >= a && i < a + e.size() ? e[i - a] : embed(toks[i]), ps[i]);
    return lo;
  }
  Vec token(int64_t t) { Vec l = step(embed(t), {{next, next, next}}); ++next; return l; }
};

static double worst_seen = 0;
static double tolerance(const Vec& w) { double m = 1; for (auto x : w) m = std::max(m, std::abs(x)); return m * 4e-4; }
static std::string compare(const Tensor& got, const Vec& a, const Vec& b) {
  if (got.isNil()) return "no logits";
  if (got.shape() != Sh{1, 1, (int)a.size()}) return vh::S("logits of shape ", vh::L(got.shape()), " for ", a.size(), " tokens");
  std::string bad;
  for (int k = 0; k < 2; ++k) {
    auto& want = k ? b : a;
    double tol = tolerance(want), worst = 0;
    std::string m;
    for (size_t v = 0; v < want.size(); ++v) {
      double g = get(got, {0, 0, (int)v}), e = std::abs(g - want[v]) / tol;
      if (!(e <= 1) && m.empty()) m = vh::S("logit ", v, " is ", g, ", expected ", want[v]);
      worst = std::max(worst, e);
    }
    if (m.empty()) { worst_seen = std::max(worst_seen, worst); return ""; }
    if (bad.empty()) bad = m;
  }
  return bad;
}

static void one(vh::Rng& r, bool two5, bool traceable) {
  auto make = two5 ? traceable ? make_qwen2_5vl_t : make_qwen2_5vl : traceable ? make_qwen2vl_t : make_qwen2vl;
  auto s = draw(r, two5);
  auto w = weights(s, r);
  auto f = config(s);
  std::string kind = vh::S(two5 ? "qwen2_5vl" : "qwen2vl", traceable ? "_traceable" : ""), what0 = vh::S(kind, " ", s.json());
  vh::begin(what0);
  std::unique_ptr<VRunner> m;
  try { m = make(f); m->load(params(w)); }
  catch (const std::exception& e) { vh::violation(vh::S("model cannot be made: ", kind), vh::S(what0, ": ", e.what())); done(f); return; }
  for (int c = 0; c < 2; ++c) {
    if (c) {
      if (!m->clear()) { m = make(f); m->load(params(w)); }
      else vh::observe("cleared");
    }
    int gh = 2 * r.in(1, two5 ? 7 : 5), gw = 2 * r.in(1, two5 ? 7 : 5), n = gh * gw / 4;
    while (n > 30) { if (gh > gw) gh -= 2; else gw -= 2; n = gh * gw / 4; }
    std::vector<float> img((size_t)gh * gw * 1176);
    double amp = r.p(.5) ? 1 : 2;
    for (auto& x : img) x = (float)r.f(-amp, amp);
    auto text = [&] { int64_t t; do t = r.in(0, s.V - 1); while (t == s.img); return t; };
    std::vector<int64_t> toks;
    for (int i = r.in(1, 6); i > 0; --i) toks.push_back(text());
    size_t before = toks.size();
    toks.insert(toks.end(), n, s.img);
    for (int i = r.in(r.p(.1) ? 0 : 1, 7); i > 0; --i) toks.push_back(text());
    std::string what = vh::S(what0, " image ", gh, "x", gw, " after ", before, " of ", toks.size(), " tokens", c ? " (second conversation)" : "");
    vh::begin(what);
    auto it = Tensor::empty({gh * gw, 1176}, kFloat32, kCPU).alloc();
    memcpy(it.ptr<float>(), img.data(), 4 * img.size());
    auto grid = Tensor::empty({1, 3}, kInt32, kCPU).alloc();
    int32_t g3[3] = {1, gh, gw};
    memcpy(grid.ptr<int32_t>(), g3, 12);
    Ref a(s, w, true), b(s, w, false);
    auto la = a.prompt(toks, img, gh, gw), lb = b.prompt(toks, img, gh, gw);
    ARGenerationOutputPast in{{"img", it}, {"grid_thw", grid}, {"sequence", ids(toks)}};
    std::string cl = vh::S(kind, gh > 8 || gw > 8 ? (gh % 8 || gw % 8 ? " cut windows" : " windows") : "", gh == gw ? " square" : gh > gw ? " tall" : " wide");
    if (r.p(.35)) {  // the greedy continuation
      int maxn = r.in(1, 8);
      std::vector<int64_t> want[2];
      bool tie = false;
      for (int k = 0; k < 2; ++k) {
        auto lo = k ? lb : la;
        for (int i = 0; i < maxn && !tie; ++i) {
          int t = std::max_element(lo.begin(), lo.end()) - lo.begin();
          double second = -1e300;
          for (int v = 0; v < s.V; ++v) if (v != t) second = std::max(second, lo[v]);
          if (lo[t] - second < 2 * tolerance(lo)) tie = true;
          want[k].push_back(t);
          if (t == s.eos) break;
          lo = (k ? b : a).token(t);
        }
      }
      if (tie) { vh::observe("near_tie"); continue; }
      bool streamed = r.p(.5);
      std::vector<int64_t> got;
      try {
        ARGenerationArgs args;
        args["max_length"] = maxn;
        if (streamed) m->gen().streamGenerate(in, args, [&](int64_t t) { got.push_back(t); });
        else { auto g = m->gen().generate(in, args).at("generated_sequence"); for (int i = 0; i < g.numel(); ++i) got.push_back(g.ptr<int64_t>()[i]); }
      } catch (const std::exception& e) { vh::violation(vh::S("generation throws: ", kind), vh::S(what, ": ", e.what())); break; }
      if (got != want[0] && got != want[1]) { vh::violation(vh::S("wrong tokens: ", kind), vh::S(what, streamed ? " streamed" : "", ": ", vh::L(got), " instead of ", vh::L(want[0]))); break; }
      vh::observe("generations");
      vh::cases(vh::S("generation ", cl, want[0].back() == s.eos ? " ended" : ""));
      continue;
    }
    int steps = r.in(0, 6);
    bool bad = false;
    for (int i = 0; i <= steps && !bad; ++i) {
      std::string step = i ? vh::S("decode ", i) : "prefill";
      ARGenerationOutputPast out;
      try { out = m->gen().forward(in, {}); }
      catch (const std::exception& e) { vh::violation(vh::S("forward throws: ", cl), vh::S(what, " ", step, ": ", e.what())); bad = true; break; }
      auto e = out.count("sequence") ? compare(out["sequence"], la, lb) : "no sequence in the result";
      if (!e.empty()) { vh::violation(vh::S("wrong logits: ", cl, i ? ": decode" : ": prefill"), vh::S(what, " ", step, ": ", e)); bad = true; break; }
      auto pos = out["position_ids"];
      if (i == 0) {
        auto ps = a.positions(toks, gh, gw);
        if (pos.isNil() || pos.shape() != Sh{3, 1, (int)toks.size()}) { vh::violation(vh::S("no positions: ", cl), what); bad = true; break; }
        for (int d = 0; d < 3 && !bad; ++d) for (size_t t = 0; t < toks.size(); ++t)
          if (*pos.offsettedPtr<int64_t>({d, 0, (int)t}) != ps[t].p[d]) { vh::violation(vh::S("wrong positions: ", cl), vh::S(what, " axis ", d, " token ", t)); bad = true; break; }
        if (memcmp(it.ptr<float>(), img.data(), 4 * img.size())) { vh::violation("the image given was changed", what); bad = true; }
        vh::observe("prefill");
        vh::observe("patches", gh * gw);
        if (two5 && (gh > 8 || gw > 8) && (int)s.full.size() < s.VL) vh::observe("windows");
      } else vh::observe("decode");
      auto t = text();
      la = a.token(t);
      lb = b.token(t);
      in = {{"sequence", ids({t})}, {"position_ids", pos}};
    }
    if (bad) break;
    vh::observe(kind);
    vh::cases(vh::S(cl, " steps ", std::min(steps, 3), s.heads != s.kv ? " grouped" : ""));
  }
  m.reset();
  done(f);
}

int main() {
  ops_setup();
  vh::Rng r(vh::seed() * 7919 + 22);
  int n = vh::scale(60, 700);
  for (int c = 0; c < n; ++c) {
    one(r, false, false);
    one(r, true, false);
    if (c % 2) one(r, c % 4 == 1, true);
    if (c % 20 == 0) ops_trim();
  }
  vh::seen("worst error, in tolerances", vh::S((int)(worst_seen * 100) / 100.0));
  return vh::finish();
}

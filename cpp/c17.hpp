// Shared by the model drivers: a model's description, its weights, the function
// they define in double precision, and what makes the real models from them.
#pragma once
#include <fstream>
#include <memory>
#include <optional>
#include <random>
#include <ranges>
#include <span>
#include "ops.hpp"
#include "mllm/models/ARGeneration.hpp"

struct Spec {
  std::string kind;
  int V = 50, H = 16, I = 24, heads = 2, kv = 1, D = 8, L = 2, cache = 64, eos = 3, maxpos = 64;
  double eps = 1e-6, theta = 10000;
  bool bias = false, tie = true, qk_norm = false, mask_by_tensor = false;
  // minicpm4
  double scale_emb = 1, scale_depth = 0, dim_base = 0;   // 0: not of this kind
  int original = 0;
  std::vector<double> shortf, longf;
  // mixture of experts
  int experts = 0, topk = 0, moe_I = 0, sparse_step = 1;
  bool norm_topk = true;
  std::vector<int> mlp_only;
  bool nope_default = false;
  std::vector<int> no_rope;  // smollm3: 0 where a layer has none
  std::string json() const;
};

struct Runner {
  virtual ~Runner() = default;
  virtual mllm::models::ARGeneration& gen() = 0;
  virtual void load(const mllm::ParameterFile::ptr_t&) = 0;
  virtual void clear() = 0;
  virtual bool can_clear() { return true; }
};
typedef std::unique_ptr<Runner> (*Maker)(const Spec&, const std::string& config);
std::unique_ptr<Runner> make_qwen3(const Spec&, const std::string&);
std::unique_ptr<Runner> make_qwen3_fa2(const Spec&, const std::string&);
std::unique_ptr<Runner> make_qwen3_moe(const Spec&, const std::string&);
std::unique_ptr<Runner> make_llama(const Spec&, const std::string&);
std::unique_ptr<Runner> make_smollm3(const Spec&, const std::string&);
std::unique_ptr<Runner> make_minicpm4(const Spec&, const std::string&);

typedef std::map<std::string, std::pair<Sh, std::vector<float>>> Weights;
typedef std::vector<double> Vec;

inline std::string Spec::json() const {
  auto b = [](bool x) { return x ? "true" : "false"; };
  auto list = [](auto& v) { std::ostringstream o; o.precision(9); o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); };
  std::ostringstream o;
  o.precision(12);
  o << "{\"attention_bias\":" << b(bias) << ",\"hidden_size\":" << H << ",\"intermediate_size\":" << I << ",\"num_attention_heads\":" << heads << ",\"num_key_value_heads\":" << kv
    << ",\"num_hidden_layers\":" << L << ",\"max_position_embeddings\":" << maxpos << ",\"rms_norm_eps\":" << eps << ",\"vocab_size\":" << V << ",\"head_dim\":" << D << ",\"bos_token_id\":0,\"pad_token_id\":0,\"rope_theta\":" << theta
    << ",\"tie_word_embeddings\":" << b(tie) << ",\"max_cache_length\":" << cache << ",\"linear_impl_type\":\"Default\",\"hidden_act\":\"silu\",\"initializer_range\":0.02";
  if (kind == "minicpm4") {
    o << ",\"eos_token_id\":[" << eos << "," << V + 1 << "],\"scale_emb\":" << scale_emb << ",\"scale_depth\":" << scale_depth << ",\"dim_model_base\":" << dim_base;
    if (original) o << ",\"rope_scaling\":{\"rope_type\":\"longrope\",\"original_max_position_embeddings\":" << original << ",\"short_factor\":" << list(shortf) << ",\"long_factor\":" << list(longf) << "}";
  } else o << ",\"eos_token_id\":" << eos;
  if (kind == "qwen3_moe") o << ",\"num_experts\":" << experts << ",\"num_experts_per_tok\":" << topk << ",\"moe_intermediate_size\":" << moe_I << ",\"norm_topk_prob\":" << b(norm_topk) << ",\"decoder_sparse_step\":" << sparse_step << ",\"mlp_only_layers\":" << list(mlp_only);
  if (!no_rope.empty() && !nope_default) o << ",\"no_rope_layers\":" << list(no_rope);
  o << "}";
  return o.str();
}

inline bool is_moe(const Spec& s, int l) {
  return s.experts > 0 && std::find(s.mlp_only.begin(), s.mlp_only.end(), l) == s.mlp_only.end() && (l + 1) % s.sparse_step == 0;
}
inline std::string head_name(const Spec& s) {
  if (!s.tie) return "lm_head";
  if (s.kind == "qwen3" || s.kind == "qwen3_fa2" || s.kind == "qwen3_service") return "lm_head_out";
  if (s.kind == "qwen3_moe") return "lm_head";
  if (s.kind == "smollm3") return "model.lm_head";
  return "";
}

inline Weights weights(const Spec& s, vh::Rng& r) {
  Weights w;
  auto mat = [&](const std::string& n, int o, int i, double g = 1.2) {
    std::vector<float> v((size_t)o * i);
    double a = g * std::sqrt(3.0 / i);
    for (auto& x : v) x = (float)r.f(-a, a);
    w[n] = {{o, i}, v};
  };
  auto vec = [&](const std::string& n, int o, double lo, double hi) { std::vector<float> v(o); for (auto& x : v) x = (float)r.f(lo, hi); w[n] = {{o}, v}; };
  std::vector<float> e((size_t)s.V * s.H);
  for (auto& x : e) x = (float)r.f(-1, 1);
  w["model.embed_tokens.weight"] = {{s.V, s.H}, e};
  for (int l = 0; l < s.L; ++l) {
    std::string p = vh::S("model.layers.", l, ".");
    vec(p + "input_layernorm.weight", s.H, .5, 1.5);
    vec(p + "post_attention_layernorm.weight", s.H, .5, 1.5);
    struct P { const char* n; int o, i; } ps[] = {{"q_proj", s.heads * s.D, s.H}, {"k_proj", s.kv * s.D, s.H}, {"v_proj", s.kv * s.D, s.H}, {"o_proj", s.H, s.heads * s.D}};
    for (auto& q : ps) {
      mat(p + "self_attn." + q.n + ".weight", q.o, q.i, 1.5);
      if (s.bias) vec(p + "self_attn." + q.n + ".bias", q.o, -.4, .4);
    }
    if (s.qk_norm) { vec(p + "self_attn.q_norm.weight", s.D, .5, 1.8); vec(p + "self_attn.k_norm.weight", s.D, .5, 1.8); }
    auto mlp = [&](const std::string& q, int I) { mat(q + "gate_proj.weight", I, s.H); mat(q + "up_proj.weight", I, s.H); mat(q + "down_proj.weight", s.H, I); };
    if (is_moe(s, l)) { mat(p + "mlp.gate.weight", s.experts, s.H, 2); for (int x = 0; x < s.experts; ++x) mlp(vh::S(p, "mlp.experts.", x, "."), s.moe_I); }
    else mlp(p + "mlp.", s.I);
  }
  vec("model.norm.weight", s.H, .5, 1.5);
  if (auto h = head_name(s); !h.empty()) {
    if (s.tie) w[h + ".weight"] = w["model.embed_tokens.weight"];
    else mat(h + ".weight", s.V, s.H, 1.5);
  }
  return w;
}
inline mllm::ParameterFile::ptr_t params(const Weights& w) {
  auto pf = mllm::ParameterFile::create();
  for (auto& [n, v] : w) {
    auto t = Tensor::empty(v.first, kFloat32, kCPU).setName(n).setMemType(kGlobal).alloc();
    memcpy(t.ptr<float>(), v.second.data(), 4 * v.second.size());
    pf->push(n, t);
  }
  return pf;
}

// The function a checkpoint defines, position by position, with all it has seen.
struct Ref {
  const Spec& s;
  const Weights& w;
  struct Layer { std::vector<Vec> k, v; };
  std::vector<Layer> kvs;
  bool near_tie = false;  // a router that could as well have chosen other experts
  Ref(const Spec& s, const Weights& w) : s(s), w(w), kvs(s.L) {}
  size_t len() const { return kvs[0].k.size(); }
  const std::vector<float>& W(const std::string& n) const { return w.at(n).second; }
  Vec lin(const std::string& n, const Vec& x, bool bias) const {
    auto& [sh, m] = w.at(n + ".weight");
    Vec y(sh[0]);
    for (int o = 0; o < sh[0]; ++o) { double a = 0; for (int i = 0; i < sh[1]; ++i) a += (double)m[(size_t)o * sh[1] + i] * x[i]; y[o] = a; }
    if (bias) { auto& b = W(n + ".bias"); for (size_t o = 0; o < y.size(); ++o) y[o] += b[o]; }
    return y;
  }
  Vec norm(const std::string& n, const double* x, int N) const {
    auto& g = W(n + ".weight");
    double q = 0;
    for (int i = 0; i < N; ++i) q += x[i] * x[i];
    q = 1 / std::sqrt(q / N + (float)s.eps);
    Vec y(N);
    for (int i = 0; i < N; ++i) y[i] = x[i] * q * g[i];
    return y;
  }
  Vec mlp(const std::string& p, const Vec& x) const {
    auto g = lin(p + "gate_proj", x, false), u = lin(p + "up_proj", x, false);
    for (size_t i = 0; i < g.size(); ++i) g[i] = g[i] / (1 + std::exp(-g[i])) * u[i];
    return lin(p + "down_proj", g, false);
  }
  Vec moe(const std::string& p, const Vec& x) {
    auto z = lin(p + "gate", x, false);
    double m = *std::max_element(z.begin(), z.end()), t = 0;
    for (auto& a : z) { a = std::exp(a - m); t += a; }
    for (auto& a : z) a /= t;
    std::vector<int> ix(z.size());
    for (size_t i = 0; i < ix.size(); ++i) ix[i] = i;
    std::sort(ix.begin(), ix.end(), [&](int a, int b) { return z[a] > z[b]; });
    if (s.topk < s.experts && z[ix[s.topk - 1]] - z[ix[s.topk]] < 2e-4) near_tie = true;
    double tot = 0;
    for (int i = 0; i < s.topk; ++i) tot += z[ix[i]];
    Vec y(s.H, 0);
    for (int i = 0; i < s.topk; ++i) {
      auto o = mlp(vh::S(p, "experts.", ix[i], "."), x);
      for (int h = 0; h < s.H; ++h) y[h] += o[h] * z[ix[i]] / (s.norm_topk ? tot : 1);
    }
    return y;
  }
  void rope(double* x, int64_t pos, int64_t seen) const {
    double sc = 1;
    if (s.original) sc = std::sqrt(1 + std::log((double)s.maxpos / s.original) / std::log((double)s.original));
    for (int i = 0; i < s.D / 2; ++i) {
      double f = 1 / std::pow(s.theta, 2.0 * i / s.D);
      if (s.original) f /= seen > s.original ? s.longf[i] : s.shortf[i];
      double c = std::cos(pos * f) * sc, n = std::sin(pos * f) * sc, a = x[i], b = x[i + s.D / 2];
      x[i] = a * c - b * n;
      x[i + s.D / 2] = b * c + a * n;
    }
  }
  // logits after the last of these tokens
  Vec feed(const std::vector<int64_t>& toks) {
    size_t base = len(), seen = base + toks.size();
    Vec last;
    for (size_t t = 0; t < toks.size(); ++t) {
      Vec x(s.H);
      auto& e = W("model.embed_tokens.weight");
      for (int h = 0; h < s.H; ++h) x[h] = e[toks[t] * s.H + h] * (s.kind == "minicpm4" ? s.scale_emb : 1);
      double res = s.kind == "minicpm4" ? s.scale_depth / std::sqrt((double)s.L) : 1;
      for (int l = 0; l < s.L; ++l) {
        std::string p = vh::S("model.layers.", l, ".");
        auto n = norm(p + "input_layernorm", x.data(), s.H);
        auto q = lin(p + "self_attn.q_proj", n, s.bias), k = lin(p + "self_attn.k_proj", n, s.bias), v = lin(p + "self_attn.v_proj", n, s.bias);
        auto each = [&](Vec& z, int hs, const char* nn) {
          for (int h = 0; h < hs; ++h) {
            if (s.qk_norm) { auto y = norm(p + "self_attn." + nn, &z[h * s.D], s.D); std::copy(y.begin(), y.end(), z.begin() + h * s.D); }
            if (s.no_rope.empty() || s.no_rope[l]) rope(&z[h * s.D], base + t, seen);
          }
        };
        each(q, s.heads, "q_norm");
        each(k, s.kv, "k_norm");
        kvs[l].k.push_back(k);
        kvs[l].v.push_back(v);
        Vec a(s.heads * s.D, 0);
        for (int h = 0; h < s.heads; ++h) {
          int g = h / (s.heads / s.kv);
          Vec sc;
          double m = -1e300, tot = 0;
          for (auto& kk : kvs[l].k) { double d = 0; for (int i = 0; i < s.D; ++i) d += q[h * s.D + i] * kk[g * s.D + i]; sc.push_back(d / std::sqrt((double)s.D)); m = std::max(m, sc.back()); }
          for (auto& z : sc) { z = std::exp(z - m); tot += z; }
          for (size_t j = 0; j < sc.size(); ++j) for (int i = 0; i < s.D; ++i) a[h * s.D + i] += sc[j] / tot * kvs[l].v[j][g * s.D + i];
        }
        auto o = lin(p + "self_attn.o_proj", a, s.bias);
        for (int h = 0; h < s.H; ++h) x[h] += o[h] * res;
        n = norm(p + "post_attention_layernorm", x.data(), s.H);
        auto y = is_moe(s, l) ? moe(p + "mlp.", n) : mlp(p + "mlp.", n);
        for (int h = 0; h < s.H; ++h) x[h] += y[h] * res;
      }
      last = norm("model.norm", x.data(), s.H);
    }
    if (s.kind == "minicpm4") for (auto& z : last) z /= (double)s.H / s.dim_base;
    Vec lo(s.V);
    auto& m = s.tie ? W("model.embed_tokens.weight") : W("lm_head.weight");
    for (int v = 0; v < s.V; ++v) { double a = 0; for (int h = 0; h < s.H; ++h) a += last[h] * m[(size_t)v * s.H + h]; lo[v] = a; }
    return lo;
  }
};

inline Spec draw_spec(const std::string& kind, vh::Rng& r) {
  Spec s;
  s.kind = kind;
  s.kv = r.in(1, 3);
  s.heads = s.kv * r.in(1, 3);
  s.D = 2 * r.in(1, 6);
  if (r.p(.5)) s.D = 8;
  s.H = r.p(.5) ? 16 : r.in(3, 40);
  if (kind == "llama" || kind == "smollm3" || kind == "minicpm4") s.H = s.heads * s.D;
  s.I = r.p(.5) ? 32 : r.in(1, 50);
  s.V = r.in(5, 70);
  s.L = r.in(1, 3);
  s.eps = r.p(.5) ? 1e-6 : 1e-5;
  s.theta = r.p(.5) ? 10000 : r.f(5, 1e6);
  s.bias = r.p(.3);
  s.tie = r.p(.6);
  s.eos = r.in(0, s.V - 1);
  s.cache = r.in(24, 40);
  s.maxpos = kind == "llama" ? s.cache : r.in(40, 200);
  s.qk_norm = kind.rfind("qwen3", 0) == 0;
  if (kind == "llama") s.mask_by_tensor = r.p(.4);
  if (kind == "smollm3") { s.cache = 2048; s.nope_default = r.p(.4); s.L = r.in(1, 5); for (int i = 0; i < s.L; ++i) s.no_rope.push_back(s.nope_default ? (i + 1) % 4 != 0 : r.p(.6)); }
  if (kind == "minicpm4") {
    s.scale_emb = r.p(.3) ? 1 : r.f(.5, 4);
    s.scale_depth = r.f(.5, 2);
    s.dim_base = r.in(2, 2 * s.H);
    if (r.p(.5)) { s.original = r.in(6, 20); if (r.p(.3)) s.maxpos = s.original; for (int i = 0; i < s.D / 2; ++i) { s.shortf.push_back((float)r.f(.8, 2)); s.longf.push_back((float)r.f(1, 6)); } }
  }
  if (kind == "qwen3_moe") {
    s.experts = r.in(1, 8);
    s.topk = r.in(1, s.experts);
    s.moe_I = r.in(1, 24);
    s.norm_topk = r.p(.6);
    s.sparse_step = r.p(.7) ? 1 : 2;
    s.L = r.in(1, 4);
    for (int l = 0; l < s.L; ++l) if (r.p(.25)) s.mlp_only.push_back(l);
    if (r.p(.1)) { s.experts = 0; }
  }
  return s;
}

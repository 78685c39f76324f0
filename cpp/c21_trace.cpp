// C21: trace -> passes -> lowering -> serialised program -> interpreter gives,
// on every run, what the module itself gives.
#include "vh.hpp"
#include <filesystem>
#include <fstream>
#include <memory>
#include <sys/mman.h>
#include <nlohmann/json.hpp>
#include "mllm/mllm.hpp"
#include "mllm/nn/Nn.hpp"
#include "mllm/nn/Functional.hpp"
#include "mllm/compile/ir/Trace.hpp"
#include "mllm/compile/PassManager.hpp"
#include "mllm/compile/ir/graph/Op.hpp"
#include "mllm/compile/ir/linalg/Op.hpp"
#include "mllm/compile/ir/program/Op.hpp"
#include "mllm/compile/ir/builtin/Op.hpp"
#include "mllm/compile/ir/tensor/Value.hpp"
#include "mllm/compile/passes/LLMCanonicalizationPipeline.hpp"
#include "mllm/compile/passes/ProgramLoweringPipeline.hpp"
#include "mllm/compile/jit/binary/IRSerialization.hpp"
#include "mllm/compile/jit/interpreter/IRInterpreter.hpp"
using namespace mllm;
namespace F = mllm::nn::functional;
using Sh = std::vector<int32_t>;

struct Shared { int stage; int done; int unsupported; char what[3000]; };
static Shared* sh;
enum { EAGER = 1, TRACE, PASSES, SERIAL, LOAD, RUN, AFTER };
static const char* STAGE[] = {"?", "eager", "trace", "passes", "serialisation", "loading", "running", "after"};

struct Step {
  std::string op;
  std::vector<int> in;      // indices into the environment
  std::vector<int> out;
  std::vector<int> a;
  std::vector<float> f;
  Sh s;
  int k = -1;               // index of the layer or submodule
  std::string str() const { return vh::S(op, "(", vh::L(in), a.empty() ? "" : vh::L(a), f.empty() ? "" : vh::L(f), s.empty() ? "" : vh::L(s), k >= 0 ? "#" + std::to_string(k) : "", ")->", vh::L(out)); }
};
struct LayerSpec { std::string type; std::vector<int> a; std::vector<float> f; };
struct Prog {
  std::vector<Sh> in;             // shapes of the inputs
  std::vector<bool> in_ids;       // int64 ids
  std::vector<Step> steps;
  std::vector<int> ret;
  std::vector<Sh> ret_shapes;
  std::vector<LayerSpec> layers;
  std::vector<std::shared_ptr<Prog>> subs;
  std::string str(int d = 0) const {
    std::string r = vh::S(std::string(d, ' '), "in"); for (auto& x : in) r += vh::L(x);
    for (auto& l : layers) r += " [" + l.type + vh::L(l.a) + "]";
    for (auto& x : steps) r += " " + x.str();
    r += vh::S(" ret", vh::L(ret));
    for (auto& x : subs) r += " {" + x->str() + "}";
    return r;
  }
};

// ---- the module a Prog describes ---------------------------------------
struct Net final : nn::Module {
  std::shared_ptr<Prog> p;
  std::vector<std::shared_ptr<nn::Layer>> layers;
  std::vector<std::shared_ptr<Net>> subs;
  std::vector<std::shared_ptr<nn::Param>> params;
  Net(const std::string& name, const std::shared_ptr<Prog>& pr) : nn::Module(name), p(pr) {
    for (size_t i = 0; i < p->layers.size(); ++i) {
      auto& l = p->layers[i];
      auto n = l.type + std::to_string(i);
      auto add = [&](auto x) { layers.push_back(std::make_shared<decltype(x)>(x)); };
      if (l.type == "linear") add(reg<nn::Linear>(n, l.a[0], l.a[1], l.a[2] != 0));
      else if (l.type == "rmsnorm") add(reg<nn::RMSNorm>(n, l.f[0], l.a[1] != 0));
      else if (l.type == "layernorm") add(reg<nn::LayerNorm>(n, std::vector<int32_t>{l.a[0]}, l.a[1] != 0, l.a[2] != 0, l.f[0]));
      else if (l.type == "embedding") add(reg<nn::Embedding>(n, l.a[0], l.a[1]));
      else if (l.type == "softmax") add(reg<nn::Softmax>(n, l.a[0]));
      else if (l.type == "mask") add(reg<nn::CausalMask>(n, l.a[0] != 0, l.a[1]));
      else if (l.type == "conv1d") add(reg<nn::Conv1D>(n, l.a[0], l.a[1], l.a[2], l.a[3], l.a[4], 1, l.a[5] != 0, l.a[6]));
      else if (l.type == "silu") add(reg<nn::SiLU>(n));
      else if (l.type == "gelu") add(reg<nn::GELU>(n));
      else if (l.type == "quickgelu") add(reg<nn::QuickGELU>(n));
      else if (l.type == "relu") add(reg<nn::ReLU>(n));
      else if (l.type == "sigmoid") add(reg<nn::Sigmoid>(n));
      else if (l.type == "kvcache") add(reg<nn::KVCache>(n, aops::KVCacheOpOptions{.layer_idx = 0, .q_head = l.a[0], .kv_head = l.a[1], .head_dim = l.a[2], .use_fa2 = false}));
      else vh::harness_error("layer " + l.type);
    }
    for (size_t i = 0; i < p->subs.size(); ++i) subs.push_back(std::make_shared<Net>(reg<Net>("sub" + std::to_string(i), p->subs[i])));
  }
  void weights(vh::Rng& r, const ParameterFile::ptr_t& f, const std::string& at) {
    auto put = [&](const std::string& n, Sh s, double lim) {
      auto t = Tensor::empty(s, kFloat32, kCPU).setMemType(kParamsNormal).setName(at + "." + n).alloc();
      for (size_t i = 0; i < t.numel(); ++i) t.ptr<float>()[i] = r.f(-lim, lim);
      f->push(t.name(), t);
    };
    for (size_t i = 0; i < p->layers.size(); ++i) {
      auto& l = p->layers[i];
      auto n = l.type + std::to_string(i);
      if (l.type == "linear") { put(n + ".weight", {l.a[1], l.a[0]}, 1); if (l.a[2]) put(n + ".bias", {l.a[1]}, 1); }
      else if (l.type == "rmsnorm") put(n + ".weight", {l.a[0]}, 1);
      else if (l.type == "layernorm") { if (l.a[1]) { put(n + ".weight", {l.a[0]}, 1); if (l.a[2]) put(n + ".bias", {l.a[0]}, 1); } }
      else if (l.type == "embedding") put(n + ".weight", {l.a[0], l.a[1]}, 1);
      else if (l.type == "conv1d") { put(n + ".weight", {l.a[1], l.a[0] / l.a[6], l.a[2]}, 1); if (l.a[5]) put(n + ".bias", {l.a[1]}, 1); }
    }
    for (size_t i = 0; i < subs.size(); ++i) subs[i]->weights(r, f, at + ".sub" + std::to_string(i));
  }
  template<class L> L& as(int k) { return *std::static_pointer_cast<L>(layers[k]); }
  std::vector<Tensor> call(const Step& s, std::vector<Tensor>& e) {
    auto x = e[s.in[0]];
    auto& o = s.op;
    if (o == "add") return {x + e[s.in[1]]};
    if (o == "sub") return {x - e[s.in[1]]};
    if (o == "mul") return {x * e[s.in[1]]};
    if (o == "div") return {x / e[s.in[1]]};
    if (o == "addc") return {x + s.f[0]};
    if (o == "subc") return {x - s.f[0]};
    if (o == "mulc") return {x * s.f[0]};
    if (o == "divc") return {x / s.f[0]};
    if (o == "addk" || o == "mulk") {   // a constant tensor
      auto c = Tensor::empty(s.s, kFloat32, kCPU).alloc();
      for (size_t i = 0; i < c.numel(); ++i) c.ptr<float>()[i] = s.f[i % s.f.size()];
      return {o == "addk" ? x.addConstant(c) : x.mulConstant(c)};
    }
    if (o == "neg") return {-x};
    if (o == "abs") return {x.abs()};
    if (o == "clip") return {F::clip(x, s.f[0], s.f[1])};
    if (o == "exp") return {F::exp(x)};
    if (o == "sin") return {F::sin(x)};
    if (o == "cos") return {F::cos(x)};
    if (o == "log") return {F::log(x)};
    if (o == "silu_f") return {F::silu(x)};
    if (o == "softmax_f") return {F::softmax(x, s.a[0])};
    if (o == "view") return {x.view(s.s)};
    if (o == "transpose") return {x.transpose(s.a[0], s.a[1])};
    if (o == "permute") return {x.permute(s.s)};
    if (o == "contiguous") return {x.contiguous()};
    if (o == "clone") return {x.clone()};
    if (o == "repeat") return {x.repeat(s.a[0], s.a[1])};
    if (o == "concat") { std::vector<Tensor> v; for (auto i : s.in) v.push_back(e[i]); return {F::concat(v, s.a[0])}; }
    if (o == "stack") { std::vector<Tensor> v; for (auto i : s.in) v.push_back(e[i]); return {F::stack(v, s.a[0])}; }
    if (o == "split") return F::split(x, s.s, s.a[0]);
    if (o == "split1") return F::split(x, s.a[1], s.a[0]);
    if (o == "slice") { SliceIndices ix; for (size_t d = 0; d < x.shape().size(); ++d) ix.push_back((int)d == s.a[0] ? SliceIndicesPair{s.a[1], s.a[2], s.a[3]} : SliceIndicesPair{kAll, kAll, 1}); return {x[ix]}; }
    if (o == "matmul") return {F::matmul(x, e[s.in[1]], s.a[0] != 0, s.a[1] != 0)};
    if (o == "min") return {F::min(x, s.a[0], s.a[1] != 0)};
    if (o == "max") return {F::max(x, s.a[0], s.a[1] != 0)};
    if (o == "sum") return {F::sum(x, s.a[0], s.a[1] != 0)};
    if (o == "mean") return {F::mean(x, s.a[0], s.a[1] != 0)};
    if (o == "topk") { auto r = F::topk(x, s.a[0], -1, s.a[1] != 0, true); return {r[0], r[1]}; }
    if (o == "fa2") return {F::flashAttention2(x, e[s.in[1]], e[s.in[2]])};
    if (o == "call") { std::vector<Tensor> v; for (auto i : s.in) v.push_back(e[i]); return subs[s.k]->__main(v, {}); }
    if (o == "kvcache") { auto r = as<nn::KVCache>(s.k)(x, e[s.in[1]]); return {r[0], r[1]}; }
    if (o == "linear") return {as<nn::Linear>(s.k)(x)};
    if (o == "rmsnorm") return {as<nn::RMSNorm>(s.k)(x)};
    if (o == "layernorm") return {as<nn::LayerNorm>(s.k)(x)};
    if (o == "embedding") return {as<nn::Embedding>(s.k)(x)};
    if (o == "softmax") return {as<nn::Softmax>(s.k)(x)};
    if (o == "mask") return {as<nn::CausalMask>(s.k)(x)};
    if (o == "conv1d") return {as<nn::Conv1D>(s.k)(x)};
    if (o == "silu") return {as<nn::SiLU>(s.k)(x)};
    if (o == "gelu") return {as<nn::GELU>(s.k)(x)};
    if (o == "quickgelu") return {as<nn::QuickGELU>(s.k)(x)};
    if (o == "relu") return {as<nn::ReLU>(s.k)(x)};
    if (o == "sigmoid") return {as<nn::Sigmoid>(s.k)(x)};
    vh::harness_error("op " + o);
    return {};
  }
  std::vector<Tensor> forward(const std::vector<Tensor>& in, const std::vector<AnyValue>&) override {
    auto e = in;
    for (auto& s : p->steps) {
      auto o = call(s, e);
      for (size_t i = 0; i < s.out.size(); ++i) e.push_back(o.at(i));
    }
    std::vector<Tensor> r;
    for (auto i : p->ret) r.push_back(e[i]);
    return r;
  }
};

// ---- random programs ----------------------------------------------------
static int numel(const Sh& s) { int n = 1; for (auto d : s) n *= d; return n; }
struct Gen {
  vh::Rng& r;
  bool& unsupported;
  bool alias = false;   // a tensor and a view of it, or two views, may both be used
  std::shared_ptr<Prog> make(const std::vector<Sh>& in, const std::vector<bool>& ids, int depth, int n) {
    auto p = std::make_shared<Prog>();
    p->in = in; p->in_ids = ids;
    std::vector<Sh> e = in;
    std::vector<char> fl; for (bool b : ids) fl.push_back(b ? 0 : 1);   // 1: floats
    auto pick = [&](std::function<bool(const Sh&)> ok) -> int {
      std::vector<int> c;
      for (int i = 0; i < (int)e.size(); ++i) if (fl[i] && numel(e[i]) <= 4096 && numel(e[i]) > 0 && ok(e[i])) c.push_back(i);
      if (c.empty()) return -1;
      return r.p(.6) ? c[std::max(0, (int)c.size() - 1 - (int)r.in(0, 2))] : r.pick(c);
    };
    auto any = [&] { return pick([](const Sh& s) { return s.size() >= 1 && s.size() <= 5; }); };
    auto put = [&](Step s, std::vector<Sh> o, char f = 1) {
      static const std::set<std::string> VIEW{"view", "transpose", "permute", "split", "split1", "slice", "contiguous"};
      if (!alias && VIEW.count(s.op)) {   // the view takes the place of its tensor
        if (o.size() > 1) return;
        Step c{.op = "clone", .in = {s.in[0]}, .out = {(int)e.size()}};
        e.push_back(e[s.in[0]]); fl.push_back(0); p->steps.push_back(c);
        s.in[0] = e.size() - 1;
      }
      for (size_t i = 0; i < o.size(); ++i) { s.out.push_back(e.size()); e.push_back(o[i]); fl.push_back(f); }
      p->steps.push_back(s);
    };
    auto layer = [&](LayerSpec l) -> int {
      if (r.p(.3)) for (int i = 0; i < (int)p->layers.size(); ++i) if (p->layers[i].type == l.type && p->layers[i].a == l.a) return i;   // used again
      p->layers.push_back(l);
      return p->layers.size() - 1;
    };
    for (int i = 0; i < (int)in.size(); ++i) if (ids[i]) { int h = r.in(1, 3) * 8, v = 50; Sh o = in[i]; o.push_back(h); put({.op = "embedding", .in = {i}, .k = layer({"embedding", {v, h}, {}})}, {o}); }
    for (int t = 0; t < n; ++t) {
      int x = any();
      if (x < 0) break;
      auto s = e[x];
      int R = s.size(), last = s.back();
      switch (r.in(0, 33)) {
        case 0: case 1: {   // binary, equal shapes or suffix
          int y = r.p(.2) ? x : pick([&](const Sh& q) { return q == s; });
          static const char* N[] = {"add", "sub", "mul", "add"};
          if (y >= 0) put({.op = N[r.in(0, 3)], .in = {x, y}}, {s});
          break;
        }
        case 2: case 3: { static const char* N[] = {"addc", "subc", "mulc", "divc"}; float f = r.p(.1) ? 0.1f : (float)r.f(-2, 2); if (std::abs(f) < .1f) f = 1.5f; put({.op = N[r.in(0, 3)], .in = {x}, .f = {f}}, {s}); break; }
        case 4: { Sh q = s; std::vector<float> v; for (int i = 0; i < 7; ++i) v.push_back(r.p(.1) ? 1e-40 : r.f(-2, 2)); put({.op = r.p(.5) ? "addk" : "mulk", .in = {x}, .f = v, .s = q}, {s}); break; }
        case 5: { put({.op = "silu_f", .in = {x}}, {s}); break; }
        case 6: put({.op = "contiguous", .in = {x}}, {s}); break;
        case 7: put({.op = "silu_f", .in = {x}}, {s}); break;
        case 8: put({.op = "softmax_f", .in = {x}, .a = {r.p(.5) ? -1 : R - 1}}, {s}); break;
        case 9: case 10: {   // view
          int c = numel(s); Sh q;
          for (int left = c; (int)q.size() < 3 && left > 1;) { int d = r.in(1, 6); if (left % d == 0) { q.push_back(d); left /= d; } else if (r.p(.3)) { q.push_back(left); left = 1; } }
          if (numel(q) != c) q.push_back(c / numel(q));
          if (q.empty()) q = {c};
          auto o = q;
          if (r.p(.3)) q[r.in(0, q.size() - 1)] = -1;
          if (alias) { put({.op = "contiguous", .in = {x}}, {s}); x = e.size() - 1; }
          put({.op = "view", .in = {x}, .s = q}, {o});
          break;
        }
        case 11: if (R >= 2) { int a = r.in(0, R - 1), b = r.in(0, R - 1); if (a == b) break; auto o = s; std::swap(o[a], o[b]); if (r.p(.3)) a -= R; put({.op = "transpose", .in = {x}, .a = {a, b}}, {o}); } break;
        case 12: if (R >= 2) { Sh ax; for (int i = 0; i < R; ++i) ax.push_back(i); for (int i = R - 1; i > 0; --i) std::swap(ax[i], ax[r.in(0, i)]); Sh o; for (auto a : ax) o.push_back(s[a]); put({.op = "permute", .in = {x}, .s = ax}, {o}); } break;
        case 13: put({.op = r.p(.5) ? "contiguous" : "clone", .in = {x}}, {s}); break;
        case 14: { int d = r.in(0, R - 1), m = r.in(2, 3); auto o = s; o[d] *= m; put({.op = "repeat", .in = {x}, .a = {m, r.p(.3) ? d - R : d}}, {o}); break; }
        case 15: {   // concat
          int d = r.in(0, R - 1); std::vector<int> in{x}; auto o = s;
          for (int j = r.in(1, 2); j--;) { int y = pick([&](const Sh& q) { if (q.size() != s.size()) return false; for (int k = 0; k < R; ++k) if (k != d && q[k] != s[k]) return false; return true; }); if (y >= 0) { in.push_back(y); o[d] += e[y][d]; } }
          if (in.size() > 1) put({.op = "concat", .in = in, .a = {r.p(.3) ? d - R : d}}, {o});
          break;
        }
        case 16: {   // split
          int d = r.in(0, R - 1); if (s[d] < 2) break;
          if (r.p(.5)) { Sh q; std::vector<Sh> o; for (int left = s[d]; left;) { int c = q.size() == 3 ? left : r.in(1, left); q.push_back(c); auto w = s; w[d] = c; o.push_back(w); left -= c; } if (q.size() < 2) break; put({.op = "split", .in = {x}, .a = {d}, .s = q}, o); }
          else { int c = r.in(1, s[d]); if (s[d] % c || s[d] / c > 4) break; std::vector<Sh> o; for (int k = 0; k < s[d] / c; ++k) { auto w = s; w[d] = c; o.push_back(w); } put({.op = "split1", .in = {x}, .a = {d, c}}, o); }
          break;
        }
        case 17: { int d = r.in(0, R - 1), a = r.in(0, s[d] - 1), b = r.in(a + 1, s[d]), st = r.p(.3) ? 2 : 1; auto o = s; o[d] = (b - a + st - 1) / st; if (r.p(.3)) { if (b < s[d]) b -= s[d]; a -= s[d]; } put({.op = "slice", .in = {x}, .a = {d, a, b, st}}, {o}); break; }
        case 18: case 19: {   // matmul
          if (R < 2) break;
          int M = s[R - 2], K = s[R - 1]; bool tb = r.p(.5);
          int y = pick([&](const Sh& q) { if (q.size() != s.size()) return false; for (int k = 0; k < R - 2; ++k) if (q[k] != s[k]) return false; return (tb ? q[R - 1] : q[R - 2]) == K; });
          if (y < 0) { tb = true; y = x; }
          auto o = s; o[R - 1] = tb ? e[y][R - 2] : e[y][R - 1]; (void)M;
          put({.op = "matmul", .in = {x, y}, .a = {0, tb}}, {o});
          break;
        }
        case 20: { if (R < 2) break; int d = r.in(0, R - 1); bool kd = r.p(.5); auto o = s; if (kd) o[d] = 1; else o.erase(o.begin() + d); put({.op = "sum", .in = {x}, .a = {r.p(.3) ? d - R : d, kd}}, {o}); break; }
        case 21: { int k = r.in(1, last); auto o = s; o[R - 1] = k; bool lg = r.p(.6); put({.op = "topk", .in = {x}, .a = {k, lg}}, {o}); break; }
        case 22: case 23: case 24: if (R >= 2) { int oc = r.in(1, 3) * 8; auto o = s; o[R - 1] = oc; put({.op = "linear", .in = {x}, .k = layer({"linear", {last, oc, r.p(.5)}, {}})}, {o}); } break;
        case 25: if (R >= 2) put({.op = "rmsnorm", .in = {x}, .k = layer({"rmsnorm", {last, r.p(.5)}, {r.p(.5) ? 1e-6f : (float)r.f(1e-3, .2)}})}, {s}); break;
        case 26: if (R >= 2) put({.op = "layernorm", .in = {x}, .k = layer({"layernorm", {last, r.p(.8), r.p(.7)}, {r.p(.5) ? 1e-6f : (float)r.f(1e-3, .2)}})}, {s}); break;
        case 27: { static const char* N[] = {"silu", "gelu", "quickgelu"}; auto n = N[r.in(0, 2)]; put({.op = n, .in = {x}, .k = layer({n, {}, {}})}, {s}); break; }
        case 28: put({.op = "softmax", .in = {x}, .k = layer({"softmax", {r.p(.5) ? -1 : R - 1}, {}})}, {s}); break;
        case 29: { int y = pick([](const Sh& q) { return q.size() == 4 && q[2] <= q[3]; }); if (y >= 0) { bool sw = r.p(.4); put({.op = "mask", .in = {y}, .k = layer({"mask", {sw, sw ? (int)r.in(1, 6) : 0}, {}})}, {e[y]}); } break; }
        case 30: { if (R != 3) break; int gr = r.p(.3) && s[1] % 2 == 0 ? 2 : 1, co = gr * (int)r.in(1, 3), ks = r.in(1, std::min(3, last)), st = r.in(1, 2), pd = r.in(0, 1); Sh o{s[0], co, (last + 2 * pd - ks) / st + 1}; put({.op = "conv1d", .in = {x}, .k = layer({"conv1d", {s[1], co, ks, st, pd, r.p(.5), gr}, {}})}, {o}); break; }
        case 31: if (r.p(.08)) { unsupported = true; if (r.p(.5)) put({.op = "sigmoid", .in = {x}, .k = layer({"sigmoid", {}, {}})}, {s}); else { auto o = s; o.insert(o.begin(), 2); put({.op = "stack", .in = {x, x}, .a = {0}}, {o}); } } break;
        case 32: case 33: {   // submodule, new or again
          if (depth >= 3) break;
          std::vector<int> again;
          for (int j = 0; j < (int)p->subs.size(); ++j) again.push_back(j);
          int k = -1; std::vector<int> in_;
          if (!again.empty() && r.p(.7)) { k = r.pick(again); for (auto& q : p->subs[k]->in) { int y = pick([&](const Sh& z) { return z == q; }); if (y < 0) { k = -1; break; } in_.push_back(y); } }
          if (k < 0) {
            in_ = {x}; if (r.p(.4)) { int y = any(); if (y >= 0) in_.push_back(y); }
            std::vector<Sh> q; for (auto y : in_) q.push_back(e[y]);
            p->subs.push_back(make(q, std::vector<bool>(q.size(), false), depth + 1, r.in(1, 6)));
            k = p->subs.size() - 1;
          }
          for (int times = r.p(.4) ? r.in(2, 4) : 1; times--;) put({.op = "call", .in = in_, .k = k}, p->subs[k]->ret_shapes);
          break;
        }
      }
    }
    // what is returned: the end, and anything before it
    std::vector<int> c; for (int i = 0; i < (int)e.size(); ++i) if (fl[i]) c.push_back(i);
    p->ret = {c.back()};
    while (r.p(.4) && p->ret.size() < 4) { int v = r.pick(c); if (alias || std::find(p->ret.begin(), p->ret.end(), v) == p->ret.end()) p->ret.push_back(v); }
    for (auto i : p->ret) p->ret_shapes.push_back(e[i]);
    return p;
  }
};

// a tensor and a view of it (or two views) used in one program
static std::shared_ptr<Prog> beside(int k) {
  auto p = std::make_shared<Prog>();
  p->in = {{2, 4, 8}}; p->in_ids = {false};
  Step v[] = {{.op = "slice", .in = {0}, .out = {1}, .a = {1, 1, 3, 1}}, {.op = "view", .in = {0}, .out = {1}, .s = {8, 8}},
              {.op = "transpose", .in = {0}, .out = {1}, .a = {1, 2}}, {.op = "split", .in = {0}, .out = {1, 2}, .a = {1}, .s = {1, 3}}};
  p->steps = {v[k]};
  p->ret = k == 3 ? std::vector<int>{1, 2} : std::vector<int>{1, 0};
  return p;
}

static Tensor input(vh::Rng& r, const Sh& s, bool ids) {
  auto t = Tensor::empty(s, ids ? kInt64 : kFloat32, kCPU).alloc();
  for (size_t i = 0; i < t.numel(); ++i) if (ids) t.ptr<int64_t>()[i] = r.in(0, 49); else t.ptr<float>()[i] = r.f(-2, 2);
  return t;
}
static std::vector<float> values(Tensor t) {
  t = t.contiguous();
  auto* p = t.ptr<float>();
  return std::vector<float>(p, p + t.numel());
}
static std::string differ(const std::vector<Sh>& ws, const std::vector<std::vector<float>>& w, std::vector<Tensor>& g) {
  if (g.size() != w.size()) return vh::S(g.size(), " outputs for ", w.size());
  for (size_t i = 0; i < w.size(); ++i) {
    if (g[i].isNil()) return vh::S("output ", i, " is missing");
    if (Sh(g[i].shape()) != ws[i]) return vh::S("output ", i, " has the shape ", vh::L(g[i].shape()), " instead of ", vh::L(ws[i]));
    auto v = values(g[i]);
    for (size_t j = 0; j < v.size(); ++j) if (memcmp(&v[j], &w[i][j], 4) && !(v[j] != v[j] && w[i][j] != w[i][j]) && v[j] != w[i][j]) return vh::S("output ", i, " element ", j, " is ", v[j], " instead of ", w[i][j]);
  }
  return "";
}
static void count_ops(const Prog& p, std::set<std::string>& o, int& calls) { for (auto& s : p.steps) { o.insert(s.op); if (s.op == "call") ++calls; } for (auto& s : p.subs) count_ops(*s, o, calls); }

static void one(int n) {
  vh::Rng r(vh::seed() * 1000003 + n);
  bool uns = false;
  bool alias = n < 0;
  Gen g{r, uns, alias};
  std::vector<Sh> in; std::vector<bool> ids;
  for (int k = r.in(1, 3); k--;) {
    if (in.empty() && r.p(.25)) { in.push_back({1, (int)r.in(1, 6)}); ids.push_back(true); continue; }
    Sh s; if (!in.empty() && !ids.back() && r.p(.5)) s = in.back(); else { int R = r.in(2, 4); for (int i = 0; i < R; ++i) s.push_back(i == R - 1 ? r.in(1, 3) * 8 : r.in(1, 5)); }
    in.push_back(s); ids.push_back(false);
  }
  int big = r.in(0, 3);
  auto p = alias ? beside(-1 - n) : g.make(in, ids, 0, big == 0 ? r.in(1, 3) : r.in(2, 18));
  if (alias) { in = p->in; ids = p->in_ids; }
  bool canon = true, dbg = r.p(.5), solver = r.p(.6), eager_flag = r.p(.6), file = r.p(.3), again = r.p(.25), twice_traced = r.p(.2);
  int runs = r.in(1, 3);
  auto text = vh::S("case ", n, canon ? " canonical" : "", dbg ? " dbg" : "", solver ? " solver" : "", eager_flag ? " eager" : " static", file ? " file" : "", " runs ", runs, ": ", p->str());
  snprintf(sh->what, sizeof sh->what, "%s", text.c_str());
  sh->unsupported = uns;
  vh::begin(vh::S("case ", n));
  sh->stage = EAGER;
  Net net("net", p);
  auto pf = ParameterFile::create();
  net.weights(r, pf, "net");
  net.load(pf);
  std::vector<std::vector<Tensor>> ins(runs);
  std::vector<std::vector<std::vector<float>>> want(runs), inval(runs);
  std::vector<Sh> ws;
  for (int k = 0; k < runs; ++k) {
    for (size_t i = 0; i < in.size(); ++i) ins[k].push_back(input(r, in[i], ids[i]));
    auto o = net.__main(ins[k], {});
    ws.clear();
    for (auto& t : o) { ws.push_back(t.shape()); want[k].push_back(values(t)); }
  }
  for (auto& x : want) for (auto& y : x) for (float z : y) if (!std::isfinite(z) || std::abs(z) > 1e30) { vh::observe("not_finite"); return; }
  auto fresh = [&] { std::vector<Tensor> v; for (size_t i = 0; i < in.size(); ++i) v.push_back(input(r, in[i], ids[i])); return v; };
  sh->stage = TRACE;
  if (twice_traced) { (void)ir::trace_(net, fresh(), {}); vh::observe("traced_again"); }
  auto ctx = ir::trace_(net, fresh(), {});
  sh->stage = PASSES;
  {
    ir::PassManager pm(ctx);
    if (canon) pm.reg(ir::createLLMCanonicalizationPipeline({.auxiliary_dbg_info = dbg, .enable_eager_memory_solver = solver}));
    pm.reg(ir::createProgramLoweringPipeline({.enable_eager_flag = eager_flag}));
    if (!pm.run()) vh::violation("passes", "a pass failed", text);
  }
  sh->stage = SERIAL;
  jit::binary::IRSerializer ser;
  ser.visit(ctx);
  nlohmann::json code = ser.getCode();
  if (file) {
    auto path = vh::S(getenv("VH_TMP") ? getenv("VH_TMP") : "/tmp", "/c21-", getpid(), ".json");
    ser.save(path);
    std::ifstream f(path); code = nlohmann::json::parse(f); f.close();
    std::filesystem::remove(path);
    vh::observe("files");
  }
  sh->stage = LOAD;
  jit::interpreter::IRInterpreter it;
  it.loadAndLinkPrograms("", code);
  it.loadParam(pf);
  sh->stage = RUN;
  std::set<std::string> ops; int calls = 0;
  count_ops(*p, ops, calls);
  for (int k = 0; k < runs; ++k) {
    auto got = it.run(ins[k]);
    auto d = differ(ws, want[k], got);
    if (!d.empty()) {
      if (alias) vh::violation(vh::S("view-beside-base:", p->steps[0].op), d, text);
      else vh::violation(vh::S(k ? "rerun" : "run", canon && solver ? ":solver" : "", ":", d.find("missing") != d.npos ? "missing" : d.find("shape") != d.npos ? "shape" : "values"), vh::S("run ", k, ": ", d), text);
      break;
    }
    vh::observe(k ? "reruns" : "runs");
    vh::observe("outputs", got.size());
  }
  sh->stage = AFTER;
  if (again) {   // the module itself is as before
    auto o = net.__main(ins[0], {});
    auto d = differ(ws, want[0], o);
    if (!d.empty()) vh::violation("module", "after the trace the module gives something else: " + d, text);
    vh::observe("module_after");
    // and takes new weights as a module that was never traced
    auto pf2 = ParameterFile::create();
    Net other("net", p);
    other.weights(r, pf2, "net");
    other.load(pf2);
    net.load(pf2);
    auto q = other.__main(ins[0], {});
    std::vector<std::vector<float>> w2; std::vector<Sh> s2;
    for (auto& t : q) { s2.push_back(t.shape()); w2.push_back(values(t)); }
    auto q2 = net.__main(ins[0], {});
    auto d2 = differ(s2, w2, q2);
    if (!d2.empty()) vh::violation("module:weights", "after the trace the module does not take new weights: " + d2, text);
    vh::observe("loaded_after");
  }
  if (canon && solver) vh::observe("solver");
  if (!alias) vh::observe("without_views_beside");
  if (calls > 1) vh::observe("nested");
  for (auto& o : ops) vh::observe("op_" + o);
  std::string key; for (auto& o : ops) key += o + ",";
  vh::cases(key + std::to_string(calls));
}

int main() {
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int total = vh::scale(1500, 15000), at = -4, deaths = 0;
  if (auto* o = getenv("VH_ONE")) { initializeContext(); sh->what[0] = 0; one(atoi(o)); return vh::finish(); }
  while (at < total && deaths < 200) {
    sh->done = at; sh->stage = 0;
    vh::flush_counts();
    fflush(nullptr);
    pid_t pid = fork();
    if (!pid) {
      initializeContext();
      int end = std::min(total, at < 0 ? 0 : at + 150);
      for (int n = at; n < end; ++n) {
        alarm(60);
        sh->stage = 0;
        if (getenv("VH_TRACE")) fprintf(stderr, "case %d\n", n);
        try { one(n); } catch (const std::exception& e) {
          if (sh->stage == EAGER) vh::observe("eager_refused");
          else if (sh->unsupported) vh::observe("unsupported_refused");
          else vh::violation(vh::S("refused:", STAGE[sh->stage]), vh::S("a module that can be run is refused in ", STAGE[sh->stage], ": ", std::string(e.what()).substr(0, 200)), sh->what);
        }
        vh::flush_counts();
        sh->done = n + 1;
      }
      vh::flush_counts();
      _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { at = sh->done; continue; }
    ++deaths;
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    std::string how = WIFSIGNALED(st) ? WTERMSIG(st) == SIGALRM ? "hangs" : vh::S("dies with signal ", WTERMSIG(st)) : code == 77 || code == 78 || code == 66 ? "is a sanitizer error" : vh::S("exits with ", code);
    bool refusal = (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) || (WIFEXITED(st) && code != 77 && code != 78 && code != 66);
    if (sh->stage == 0) vh::harness_error(vh::S("case ", sh->done, " ", how));
    if (sh->stage == EAGER && refusal) vh::observe("eager_refused");
    else if (sh->unsupported && refusal) vh::observe("unsupported_refused");
    else vh::violation(vh::S(refusal ? "refused:" : "crash:", STAGE[sh->stage]), vh::S("a module that can be run ", how, " in ", STAGE[sh->stage]), sh->what);
    at = sh->done + 1;
  }
  return vh::finish();
}

// C18: what the samplers may return and how often, and what the three generation
// loops feed the model and hand to their caller. Randomness is ours: the driver
// provides std::random_device's value.
#include <random>
#include "ops.hpp"
#include "mllm/models/ARGeneration.hpp"
#include "mllm/backends/cpu/CPUBackend.hpp"
using namespace mllm::models;

static vh::Rng* ent;
static std::vector<uint32_t> forced;  // taken first
static size_t forced_at = 0, drawn = 0;
std::random_device::result_type std::random_device::_M_getval() {
  ++drawn;
  if (forced_at < forced.size()) return forced[forced_at++];
  return (uint32_t)(ent->next() >> 20);
}

struct Fake : ARGeneration {
  int V = 8;
  bool whole = false;                     // logits of all positions, as [1, S, V], or of the last one
  std::function<std::vector<float>(int step)> logits;
  int step = 0, fail_at = -1;
  std::vector<int64_t> fed;               // tokens of each later call
  std::vector<std::string> wrong;
  ARGenerationOutputPast first;
  void set(int eos, int maxl, std::vector<int64_t> more = {}) { eos_token_id_ = eos; max_length_ = maxl; more_eos_token_ids_ = std::move(more); }
  ARGenerationOutputPast forward(const ARGenerationOutputPast& in, const ARGenerationArgs& args) override {
    if (step == fail_at) throw std::runtime_error("scripted failure");
    auto s = in.at("sequence");
    if (!args.count("tag") || args.at("tag").get<int>() != 77) wrong.push_back("the arguments did not reach the model");
    if (step == 0) {
      if (in.size() != first.size()) wrong.push_back("the first step does not get the caller's input");
    } else {
      if (s.shape() != Sh{1, 1} || s.dtype() != kInt64) wrong.push_back(vh::S("step ", step, " gets a sequence of shape ", vh::L(s.shape())));
      fed.push_back(*s.ptr<int64_t>());
      if (!in.count("state") || *in.at("state").ptr<int32_t>() != 1000 + step - 1) wrong.push_back(vh::S("step ", step, " does not get what step ", step - 1, " gave back"));
    }
    int S = whole ? s.shape()[1] : 1;
    auto o = Tensor::empty({1, S, V}, kFloat32, kCPU).alloc();
    auto l = logits(step);
    for (int i = 0; i < S - 1; ++i) for (int v = 0; v < V; ++v) o.ptr<float>()[i * V + v] = (float)((v * 7 + i) % V) * 3;
    memcpy(o.ptr<float>() + (S - 1) * V, l.data(), 4 * V);
    auto st = Tensor::empty({1}, kInt32, kCPU).alloc();
    *st.ptr<int32_t>() = 1000 + step++;
    return {{"sequence", o}, {"state", st}};
  }
};

static Tensor lg(const std::vector<float>& l, int S, vh::Rng& r) {
  int V = l.size();
  auto o = Tensor::empty({1, S, V}, kFloat32, kCPU).alloc();
  for (int i = 0; i < (S - 1) * V; ++i) o.ptr<float>()[i] = (float)r.f(-30, 30);
  memcpy(o.ptr<float>() + (size_t)(S - 1) * V, l.data(), 4 * V);
  return o;
}
static std::vector<double> soft(const std::vector<float>& l, double T) {
  double m = -1e300, s = 0;
  for (auto x : l) m = std::max(m, (double)x / T);
  std::vector<double> p;
  for (auto x : l) { p.push_back(std::exp((double)x / T - m)); s += p.back(); }
  for (auto& x : p) x /= s;
  return p;
}
static std::vector<int> order(const std::vector<float>& l) {
  std::vector<int> ix(l.size());
  for (size_t i = 0; i < ix.size(); ++i) ix[i] = i;
  std::stable_sort(ix.begin(), ix.end(), [&](int a, int b) { return l[a] > l[b]; });
  return ix;
}

// the distribution a setting defines
static std::vector<double> law(const std::vector<float>& l, int mode, int k, double p, double T) {
  if (T <= 0) { std::vector<double> w(l.size(), 0); w[order(l)[0]] = 1; return w; }
  auto q = soft(l, T);
  auto ix = order(l);
  std::vector<double> w(l.size(), 0);
  double s = 0;
  size_t n = 0;
  if (mode == 1) n = std::min<size_t>(k, l.size());
  else if (mode == 2) { double c = 0; while (n < l.size() && c < p) c += q[ix[n++]]; }
  else n = l.size();
  for (size_t i = 0; i < n; ++i) s += q[ix[i]];
  for (size_t i = 0; i < n; ++i) w[ix[i]] = q[ix[i]] / s;
  return w;
}
static const char* mode_name[] = {"temperature", "top_k", "top_p"};

static int64_t draw(Fake& f, const std::vector<float>& l, int S, vh::Rng& r, int mode, int k, double p, double T) {
  auto t = lg(l, S, r);
  if (mode == 0) return f.sampleTemperature(t, T);
  if (mode == 1) return f.sampleTopK(t, k, T);
  return f.sampleTopP(t, p, T);
}

static void sampling(vh::Rng& r, int n) {
  Fake f;
  for (int c = 0; c < n; ++c) {
    int V = r.p(.3) ? r.in(1, 3) : r.in(4, 40), mode = r.in(0, 2), S = r.p(.6) ? 1 : r.in(2, 5);
    std::vector<float> l;
    double sp = r.p(.3) ? 8 : 2;
    for (int i = 0; i < V; ++i) l.push_back((float)r.f(-sp, sp));
    if (r.p(.2)) for (auto& x : l) if (r.p(.4)) x = r.p(.5) ? -1e30f : x;
    if (r.p(.1)) for (auto& x : l) x += 80;
    int k = r.p(.2) ? V + r.in(1, 5) : r.in(1, V);
    double p = r.p(.2) ? r.f(.99, 1.2) : r.f(.01, 1), T = r.p(.4) ? 1 : r.p(.15) ? 0 : r.f(.2, 3);
    if (mode == 2 && T > 0) {  // keep p away from a sum of probabilities
      auto q = soft(l, T); auto ix = order(l); double cs = 0; bool near = false;
      for (auto i : ix) { cs += q[i]; if (std::abs(cs - p) < 1e-4) near = true; }
      if (near) continue;
    }
    auto w = law(l, mode, k, p, T);
    std::string key = vh::S(mode_name[mode], T == 1 ? "" : T > 0 ? "/scaled" : "/zero", mode == 1 && k > V ? "/more than there are" : "", mode == 2 && p >= 1 ? "/all" : "", S > 1 ? "/several positions" : "", V < 4 ? "/few" : "");
    std::string what = vh::S(key, " V=", V, " k=", k, " p=", p, " T=", T, " S=", S, " logits ", vh::L(l));
    vh::begin(what);
    vh::cases(key);
    vh::seen("setting", key);
    vh::observe(mode_name[mode]);
    if (T <= 0) vh::observe("zero_temperature");
    if (mode == 1 && k > V) vh::observe("k_beyond");
    int N = vh::scale(300, 1200);
    std::vector<int> cnt(V);
    bool bad = false;
    for (int i = 0; i < N && !bad; ++i) {
      int64_t t = -1;
      try { t = draw(f, l, S, r, mode, k, p, T); } catch (const std::exception& e) { vh::violation(vh::S("sampler throws: ", mode_name[mode]), vh::S(what, ": ", e.what())); bad = true; break; }
      if (t < 0 || t >= V) { vh::violation(vh::S("sampled an id outside of the vocabulary: ", mode_name[mode]), vh::S(what, " gave ", t)); bad = true; break; }
      if (w[t] < 1e-12) { vh::violation(vh::S("sampled a token the settings exclude: ", mode_name[mode]), vh::S(what, " gave ", t)); bad = true; break; }
      ++cnt[t];
    }
    if (bad) continue;
    vh::observe("draws", N);
    for (int i = 0; i < V; ++i) {
      double e = N * w[i], dv = 6.5 * std::sqrt(N * w[i] * (1 - w[i])) + 3;
      if (std::abs(cnt[i] - e) > dv) { vh::violation(vh::S("tokens are not drawn with their probabilities: ", mode_name[mode]), vh::S(what, ": token ", i, " drawn ", cnt[i], " times of ", N, ", expected ", e)); break; }
    }
    // greedy
    auto t = lg(l, S, r);
    auto g = f.sampleGreedy(t);
    if (g < 0 || g >= V || l[g] < *std::max_element(l.begin(), l.end())) vh::violation("greedy is not the maximum", vh::S(what, " gave ", g));
    vh::observe("greedy");
  }
}

// the ends of the range of the random number, and vocabularies so large that sums round
static void extremes(vh::Rng& r, int n) {
  Fake f;
  const uint32_t top[] = {2180022, 5113050, 5927148};  // mt19937 seeds whose first number rounds to 1
  auto first = [](uint32_t s) { std::mt19937 g(s); std::uniform_real_distribution<> d(0., 1.); return d(g); };
  std::vector<std::pair<double, uint32_t>> hi;
  for (uint32_t s = 1; s < 60000; ++s) { double x = first(s); if (x > .999 || x < .0005) hi.push_back({x, s}); }
  std::sort(hi.begin(), hi.end());
  for (int c = 0; c < n; ++c) {
    int V = r.p(.5) ? r.in(1, 200) : r.in(1000, 60000), mode = r.in(0, 2);
    std::vector<float> l(V);
    double sp = r.p(.5) ? .3 : 5;
    for (auto& x : l) x = (float)r.f(-sp, sp);
    if (r.p(.3)) { l[0] = -1e30f; l[V - 1] = V > 1 ? -1e30f : 0; if (V <= 2) l[V - 1] = 0; }
    int k = r.in(1, V);
    double p = r.f(.2, 1.1), T = r.p(.5) ? 1 : r.f(.5, 2);
    uint32_t s = r.p(.4) ? top[r.in(0, 2)] : r.p(.7) ? hi[hi.size() - 1 - r.in(0, 30)].second : hi[r.in(0, 20)].second;
    forced = {s}; forced_at = 0;
    std::string what = vh::S(mode_name[mode], " at the end of the range V=", V, " k=", k, " p=", p, " T=", T, " seed ", s, " random number ", first(s));
    vh::begin(what);
    int64_t t = draw(f, l, 1, r, mode, k, p, T);
    if (t < 0 || t >= V) vh::violation(vh::S("sampled an id outside of the vocabulary: ", mode_name[mode]), vh::S(what, " gave ", t));
    else if (l[t] < -1e29f) vh::violation(vh::S("sampled a token the settings exclude: ", mode_name[mode]), vh::S(what, " gave ", t));
    vh::observe("extremes");
    vh::cases(vh::S("extreme/", mode_name[mode], V > 999 ? "/large" : "/small", first(s) > .5 ? "/top" : "/bottom"));
    forced.clear();
  }
}

static void loops(vh::Rng& r, int n) {
  for (int c = 0; c < n; ++c) {
    int V = r.in(2, 12), steps = r.p(.12) ? r.in(10, 150) : r.in(0, 9), P = r.p(.2) ? r.in(7, 400) : r.in(1, 6);
    int eos = r.p(.15) ? -1 : r.p(.1) ? V + 3 : r.in(0, V - 1);
    bool whole = r.p(.5), args_len = r.p(.7), args_eos = r.p(.6);
    // further end tokens of the model: they end a run unless the caller names another end token
    std::vector<int64_t> more;
    if (r.p(.4)) for (int i = r.in(1, 2); i > 0; --i) more.push_back(r.in(0, V - 1));
    auto is_end = [&](int64_t t) { return t == eos || (!args_eos && std::find(more.begin(), more.end(), t) != more.end()); };
    int mode = r.in(0, 4);  // greedy, temperature, top k, top p, do_sample
    int fail_at = r.p(.15) ? r.in(0, 5) : -1;
    std::vector<std::vector<float>> script;
    for (int i = 0; i < 12; ++i) { std::vector<float> l; for (int v = 0; v < V; ++v) l.push_back((float)r.f(-2, 2)); script.push_back(l); }
    uint64_t sd = r.next();
    struct Run { std::vector<int64_t> toks, fed; std::vector<std::string> wrong; bool threw = false; int calls = 0; size_t rnd = 0; };
    auto go = [&](int kind) {
      vh::Rng local(sd);
      ent = &local;
      drawn = 0;
      Run R;
      Fake f;
      f.V = V; f.whole = whole; f.fail_at = fail_at;
      f.logits = [&](int s) { return script[s % script.size()]; };
      f.set(args_eos ? (eos + 1) % V : eos, args_len ? 3 : steps, more);
      auto seq = Tensor::empty({1, P}, kInt64, kCPU).alloc();
      for (int i = 0; i < P; ++i) seq.ptr<int64_t>()[i] = i;
      auto x = Tensor::empty({1}, kInt32, kCPU).alloc();
      ARGenerationOutputPast in{{"sequence", seq}, {"extra", x}};
      f.first = in;
      ARGenerationArgs a;
      a["tag"] = 77;
      if (args_len) a["max_length"] = steps;
      if (args_eos) a["eos_token_id"] = eos;
      if (mode == 1) a["temperature"] = 1.7f;
      if (mode == 2) a["top_k"] = std::max(1, V / 2);
      if (mode == 3) a["top_p"] = .7f;
      if (mode == 4) a["do_sample"] = true;
      try {
        if (kind == 0) {
          auto o = f.generate(in, a);
          if (!o.count("generated_sequence")) R.wrong.push_back("generate gives no generated_sequence");
          else { auto g = o.at("generated_sequence"); for (int i = 0; i < g.numel(); ++i) R.toks.push_back(g.ptr<int64_t>()[i]); }
        } else if (kind == 1) {
          f.streamGenerate(in, a, [&](int64_t t) { R.toks.push_back(t); });
        } else {
          int64_t k = 0;
          for (auto& s : f.chat(in, a)) { if (s.current_step != k++) R.wrong.push_back("steps are not counted"); R.toks.push_back(s.cur_token_id); if (k > 500) break; }
        }
      } catch (const std::runtime_error& e) { R.threw = true; if (!strstr(e.what(), "scripted")) R.wrong.push_back(e.what()); }
      R.fed = f.fed;
      for (auto& w : f.wrong) R.wrong.push_back(w);
      R.calls = f.step;
      R.rnd = drawn;
      return R;
    };
    std::string what = vh::S("V=", V, " max_length=", steps, args_len ? " (argument)" : "", " eos=", eos, " and ", vh::L(more), args_eos ? " (argument)" : "", " prompt=", P, whole ? " all positions" : "", " mode ", mode, " failing at ", fail_at);
    vh::begin(what);
    // what must come out
    std::vector<int64_t> want;
    bool must_throw = false;
    const char* kn[] = {"generate", "streamGenerate", "chat"};
    Run rr[3];
    for (int kind = 0; kind < 3; ++kind) rr[kind] = go(kind);
    for (int i = 0; i < steps; ++i) {
      if (i == fail_at) { must_throw = true; break; }
      int64_t t;
      if (mode == 0) t = order(script[i % script.size()])[0];
      else { if (i >= (int)rr[1].toks.size()) break; t = rr[1].toks[i]; auto w = law(script[i % script.size()], mode == 2 ? 1 : mode == 3 ? 2 : 0, std::max(1, V / 2), .7, mode == 1 ? 1.7 : 1);
        if (t < 0 || t >= V || w[t] < 1e-12) vh::violation("a loop samples with other settings than asked for", vh::S(what, " step ", i, " gave ", t)); }
      want.push_back(t);
      if (is_end(t)) break;
    }
    bool ended = !want.empty() && is_end(want.back());
    if (!must_throw && !ended && (int)want.size() != steps) vh::violation("a loop ends early: streamGenerate", vh::S(what, ": ", vh::L(want)));
    for (int kind = 0; kind < 3; ++kind) {
      auto& R = rr[kind];
      auto w = want;
      if (kind == 2 && ended) w.pop_back();  // the iterator ends at the end token
      for (auto& x : R.wrong) vh::violation(vh::S("loop: ", kn[kind], ": ", x.find("does not get") != x.npos ? "state" : x.find("shape") != x.npos ? "sequence" : x), vh::S(what, ": ", x));
      if (R.threw != must_throw) vh::violation(vh::S("a failing model: ", kn[kind]), vh::S(what, R.threw ? " threw" : " did not throw"));
      if (!(kind == 0 && must_throw) && R.toks != w) vh::violation(vh::S("a loop gives other tokens: ", kn[kind]), vh::S(what, ": ", vh::L(R.toks), " instead of ", vh::L(w)));
      if (R.calls != (int)want.size()) vh::violation(vh::S("a loop calls the model another number of times: ", kn[kind]), vh::S(what, ": ", R.calls, " calls for ", want.size(), " tokens"));
      std::vector<int64_t> fw(want.begin(), want.end());
      if (!must_throw && !fw.empty()) fw.pop_back();
      if (!must_throw && R.fed != fw) vh::violation(vh::S("a loop feeds back other tokens: ", kn[kind]), vh::S(what, ": ", vh::L(R.fed), " instead of ", vh::L(fw)));
      vh::observe(kn[kind]);
    }
    if (ended) vh::observe("ended_by_eos");
    if (ended && want.back() != eos) vh::observe("ended_by_another_eos");
    if (P > 6) vh::observe("long_prompt");
    if (must_throw) vh::observe("model_failed");
    if (mode == 0 && rr[0].rnd + rr[1].rnd + rr[2].rnd) vh::violation("greedy generation uses randomness", what);
    if (steps == 0) vh::observe("no_steps");
    vh::cases(vh::S("loop/", mode, whole ? "/whole" : "", ended ? "/eos" : "", !more.empty() ? "/more" : "", P > 6 ? "/long" : "", must_throw ? "/fail" : "", steps == 0 ? "/none" : ""));
  }
}

// a model that never says what its end token is must not end at a token by chance
static void defaults() {
  struct Bare : Fake { };
  for (int v = 0; v < 8; ++v) {
    alignas(Bare) char mem[sizeof(Bare)];
    uint32_t pat = v;
    for (size_t i = 0; i + 4 <= sizeof mem; i += 4) memcpy(mem + i, &pat, 4);
    auto* f = new (mem) Bare;
    f->V = 8;
    f->logits = [&](int) { std::vector<float> l(8, 0.f); l[v] = 5; return l; };
    auto seq = Tensor::empty({1, 1}, kInt64, kCPU).alloc();
    *seq.ptr<int64_t>() = 0;
    ARGenerationOutputPast in{{"sequence", seq}};
    f->first = in;
    int got = 0;
    f->streamGenerate(in, {{"tag", AnyValue(77)}, {"max_length", AnyValue(3)}}, [&](int64_t) { ++got; });
    if (got != 3) vh::violation("generation ends at a token nobody named as the end", vh::S("token ", v, ": ", got, " of 3 tokens"));
    vh::observe("no_eos");
    f->~Bare();
  }
}

int main() {
  ops_setup();
  vh::Rng r(vh::seed() * 131 + 7), e(vh::seed() + 99);
  ent = &e;
  defaults();
  sampling(r, vh::scale(500, 6000));
  extremes(r, vh::scale(200, 2500));
  ent = &e;
  loops(r, vh::scale(900, 12000));
  return vh::finish();
}

// C17: tiny models of every architecture with random weights, run by every path
// (prefill, chunked prefill, decode; generate, streamGenerate, chat), against
// the function their checkpoint defines.
#include "c17.hpp"
using namespace mllm::models;

static std::string config(const Spec& s) {
  int fd = memfd_create("config", 0);
  auto j = s.json();
  if (write(fd, j.data(), j.size()) != (ssize_t)j.size()) exit(9);
  return vh::S("/proc/self/fd/", fd);
}
static void done(const std::string& p) { close(atoi(p.c_str() + strlen("/proc/self/fd/"))); }

static Tensor ids(const std::vector<int64_t>& v) {
  auto t = Tensor::empty({1, (int)v.size()}, kInt64, kCPU).alloc();
  memcpy(t.ptr<int64_t>(), v.data(), 8 * v.size());
  return t;
}
static const std::map<std::string, Maker> makers = {{"qwen3", make_qwen3}, {"qwen3_fa2", make_qwen3_fa2}, {"qwen3_moe", make_qwen3_moe}, {"llama", make_llama}, {"smollm3", make_smollm3}, {"minicpm4", make_minicpm4}};

static double tolerance(const Vec& w) { double m = 1; for (auto x : w) m = std::max(m, std::abs(x)); return m * 2e-4; }
static double worst_seen = 0;

// "" or what is wrong
static std::string compare_logits(const Tensor& got, const Vec& want) {
  if (got.isNil()) return "no logits";
  auto sh = got.shape();
  if (sh != Sh{1, 1, (int)want.size()}) return vh::S("logits of shape ", vh::L(sh), " for ", want.size(), " tokens");
  double tol = tolerance(want);
  for (size_t v = 0; v < want.size(); ++v) {
    double g = get(got, {0, 0, (int)v});
    worst_seen = std::max(worst_seen, std::abs(g - want[v]) / tol);
    if (!(std::abs(g - want[v]) <= tol)) return vh::S("logit ", v, " is ", g, ", expected ", want[v]);
  }
  return "";
}

static std::string feature(const Spec& s) {
  return vh::S(s.kind, s.tie ? "/tied" : "/untied", s.bias ? "/bias" : "", s.heads != s.kv ? "/grouped" : "", s.experts ? "/experts" : "", s.original ? "/longrope" : "", s.mask_by_tensor ? "/mask tensor" : "", s.no_rope.empty() ? "" : "/nope layers");
}

static void forwards(vh::Rng& r, const Spec& s, const Weights& w, Runner& m, const std::string& what) {
  Ref ref(s, w);
  std::vector<int> chunks;
  int total = 0, cap = std::min(s.cache, 34), n = r.in(1, 9);
  for (int i = 0; i < n; ++i) {
    int c = i == 0 || r.p(.35) ? r.in(1, 12) : 1;
    if (total + c > cap) break;
    chunks.push_back(c);
    total += c;
  }
  if (r.p(.25) && s.cache <= 40 && total < s.cache) { chunks.push_back(s.cache - total); total = s.cache; vh::observe("full_cache"); }
  Tensor pos = Tensor::nil();
  std::string cl = vh::S(s.kind, s.tie ? "" : " untied", s.original ? " longrope" : "", s.experts ? " experts" : "");
  for (size_t i = 0; i < chunks.size(); ++i) {
    std::vector<int64_t> t;
    for (int k = 0; k < chunks[i]; ++k) t.push_back(r.in(0, s.V - 1));
    std::string step = i == 0 ? "prefill" : chunks[i] == 1 ? "decode" : "chunk";
    std::vector<int64_t> before;
    for (auto x : t) before.push_back(x);
    if (i && chunks[i] > 1 && s.mask_by_tensor) { chunks.resize(i); break; }  // its mask is for one prompt only
    size_t base = ref.len();
    auto want = ref.feed(t);
    if (ref.near_tie) { vh::observe("near_tie"); return; }
    ARGenerationOutputPast in{{"sequence", ids(t)}};
    if (i) {
      if (chunks[i] == 1) in["position_ids"] = pos;
      else { std::vector<int64_t> p; for (int k = 0; k < chunks[i]; ++k) p.push_back(base + k); in["position_ids"] = ids(p); }
    }
    std::string at = vh::S(what, " chunks ", vh::L(chunks), " step ", i, " (", step, " of ", chunks[i], " after ", base, ")");
    vh::begin(at);
    ARGenerationOutputPast out;
    try { out = m.gen().forward(in, {}); }
    catch (const std::exception& e) { vh::violation(vh::S("forward throws: ", cl, ": ", step), vh::S(at, ": ", e.what())); return; }
    auto bad = out.count("sequence") ? compare_logits(out["sequence"], want) : "no sequence in the result";
    if (!bad.empty()) { vh::violation(vh::S(bad[0] == 'n' || bad.find("shape") != bad.npos ? "not logits: " : "wrong logits: ", cl, ": ", step), vh::S(at, ": ", bad)); return; }
    if (!out.count("position_ids") || out["position_ids"].isNil()) { vh::violation(vh::S("no positions: ", cl), at); return; }
    pos = out["position_ids"];
    for (int k = 0; k < chunks[i]; ++k)
      if (pos.shape() != Sh{1, chunks[i]} || pos.ptr<int64_t>()[k] != (int64_t)base + k) { vh::violation(vh::S("wrong positions: ", cl), at); return; }
    if (memcmp(in["sequence"].ptr<int64_t>(), before.data(), 8 * before.size())) { vh::violation(vh::S("the tokens given were changed: ", cl), at); return; }
    vh::observe(step);
    vh::observe("positions", chunks[i]);
  }
  vh::observe(s.kind);
  vh::cases(vh::S(feature(s), " steps ", std::min<size_t>(chunks.size(), 4)));
}

static void overflow(vh::Rng& r, const Spec& s, Runner& m, const std::string& what) {
  int over = r.in(1, 8);
  bool at_once = r.p(.4);
  vh::begin(what + " beyond the cache");
  auto st = vh::in_child([&] {
    std::vector<int64_t> t;
    for (int i = 0; i < (at_once ? s.cache + over : s.cache); ++i) t.push_back(r.in(0, s.V - 1));
    auto o = m.gen().forward({{"sequence", ids(t)}}, {});
    if (!at_once) for (int i = 0; i < over; ++i) o = m.gen().forward({{"sequence", ids({1})}, {"position_ids", o["position_ids"]}}, {});
  }, 60);
  if (st != "threw" && st != "refused") vh::violation(vh::S("more tokens than the cache holds: ", s.kind), vh::S(what, at_once ? " at once" : " one by one", ": ", st));
  vh::observe("overflow");
}

static void generation(vh::Rng& r, Spec s, const std::string& what0) {
  auto w = weights(s, r);
  std::vector<int64_t> prompt;
  for (int i = r.in(1, 8); i > 0; --i) prompt.push_back(r.in(0, s.V - 1));
  int maxn = r.in(1, 12);
  // the greedy continuation, without an end token
  std::vector<int64_t> all;
  {
    Ref ref(s, w);
    auto lo = ref.feed(prompt);
    for (int i = 0; i < maxn; ++i) {
      if (ref.near_tie) { vh::observe("near_tie"); return; }
      int b = std::max_element(lo.begin(), lo.end()) - lo.begin();
      double second = -1e300;
      for (int v = 0; v < s.V; ++v) if (v != b) second = std::max(second, lo[v]);
      if (lo[b] - second < 2 * tolerance(lo)) { vh::observe("near_tie"); return; }
      all.push_back(b);
      lo = ref.feed({b});
    }
  }
  int how = r.in(0, 2);  // the end comes from the configuration, from an argument, or not at all
  std::vector<int64_t> want = all;
  int eos = -1;
  if (how < 2 && r.p(.8)) {
    eos = all[r.in(0, all.size() - 1)];
    want.clear();
    for (auto t : all) { want.push_back(t); if (t == eos) break; }
  } else {
    for (eos = 0; eos < s.V && std::find(all.begin(), all.end(), eos) != all.end();) ++eos;
  }
  bool ended = want.back() == eos;
  bool second = false;
  if (how == 1) { for (s.eos = 0; s.eos < s.V && std::find(all.begin(), all.end(), s.eos) != all.end();) ++s.eos; }
  else s.eos = eos;
  auto f = config(s);
  if (s.kind == "minicpm4" && how != 1 && r.p(.5)) {  // the other one of two end tokens
    auto j = s.json();
    auto a = vh::S("\"eos_token_id\":[", s.eos, ",", s.V + 1, "]"), b = vh::S("\"eos_token_id\":[", s.V + 1, ",", s.eos, "]");
    j.replace(j.find(a), a.size(), b);
    done(f);
    int fd = memfd_create("config", 0);
    if (write(fd, j.data(), j.size()) < 0) exit(9);
    f = vh::S("/proc/self/fd/", fd);
    second = true;
  }
  std::unique_ptr<Runner> m;
  const char* kn[] = {"generate", "streamGenerate", "chat"};
  std::string what = vh::S(what0, " prompt ", vh::L(prompt), " max_length ", maxn, " eos ", eos, how == 1 ? " (argument)" : second ? " (second of two)" : "");
  std::vector<int> kinds = {0, 1, 2};
  for (int i = 2; i > 0; --i) std::swap(kinds[i], kinds[r.in(0, i)]);
  for (int k : kinds) {
    vh::begin(what + " " + kn[k]);
    std::vector<int64_t> got;
    try {
      if (m && m->can_clear() && r.p(.7)) { m->clear(); vh::observe("cleared"); }
      else { m = makers.at(s.kind)(s, f); m->load(params(w)); }
      ARGenerationArgs a;
      a["max_length"] = maxn;
      if (how == 1) a["eos_token_id"] = eos;
      ARGenerationOutputPast in{{"sequence", ids(prompt)}};
      if (k == 0) { auto g = m->gen().generate(in, a).at("generated_sequence"); for (int i = 0; i < g.numel(); ++i) got.push_back(g.ptr<int64_t>()[i]); }
      else if (k == 1) m->gen().streamGenerate(in, a, [&](int64_t t) { got.push_back(t); });
      else for (auto& st : m->gen().chat(in, a)) got.push_back(st.cur_token_id);
    } catch (const std::exception& e) { vh::violation(vh::S("generation throws: ", s.kind), vh::S(what, " ", kn[k], ": ", e.what())); break; }
    auto wv = want;
    if (k == 2 && ended) wv.pop_back();
    if (got != wv) { vh::violation(vh::S("wrong tokens: ", s.kind, ended ? " ended" : "", second ? " by the second end token" : ""), vh::S(what, " ", kn[k], ": ", vh::L(got), " instead of ", vh::L(wv))); break; }
    vh::observe("generations");
  }
  if (ended) vh::observe("ended");
  done(f);
  vh::cases(vh::S("generation ", feature(s), ended ? "/ended" : "", how == 1 ? "/argument" : ""));
}

int main() {
  ops_setup();
  vh::Rng r(vh::seed() * 7919 + 17);
  const char* kinds[] = {"qwen3", "qwen3_fa2", "qwen3_moe", "llama", "smollm3", "minicpm4"};
  int n = vh::scale(70, 900);
  for (int c = 0; c < n; ++c)
    for (auto k : kinds) {
      auto s = draw_spec(k, r);
      std::string what = vh::S(k, " ", s.json());
      vh::begin(what);
      if (r.p(.35)) { generation(r, s, what); continue; }
      auto w = weights(s, r);
      auto f = config(s);
      std::unique_ptr<Runner> m;
      try { m = makers.at(k)(s, f); m->load(params(w)); }
      catch (const std::exception& e) { vh::violation(vh::S("model cannot be made: ", k, s.tie ? " tied" : " untied"), vh::S(what, ": ", e.what())); done(f); continue; }
      if (s.cache <= 40 && r.p(.12)) overflow(r, s, *m, what);
      else forwards(r, s, w, *m, what);
      m.reset();
      done(f);
      if (c % 20 == 0) ops_trim();
    }
  vh::seen("worst error, in tolerances", vh::S((int)(worst_seen * 100) / 100.0));
  return vh::finish();
}

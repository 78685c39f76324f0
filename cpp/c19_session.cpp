// C19: the sessions that serve Qwen3 on the device with a prefix cache, over
// random histories of requests that share, repeat, extend and alter their
// conversations; every answer against the greedy continuation of its own prompt
// computed without any cache, and the cache's blocks against what it holds.
#include <algorithm>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <nlohmann/json.hpp>
#include "c17.hpp"
#define private public
#include "mllm/models/qwen3/modeling_qwen3_service.hpp"
#include "mllm/models/qwen3/modeling_qwen3_probing_service.hpp"
#include "mllm/engine/service/Service.hpp"
#undef private
using nlohmann::json;
namespace fs = std::filesystem;

static std::string dir;

// ---- vocabulary -----------------------------------------------------------
struct Vocab {
  std::vector<std::string> bytes;  // what a token stands for
  std::map<std::string, int> special;
  std::map<unsigned char, int> byte;
  std::map<std::string, int> merged;
  std::vector<int> text;
  json file;
};
static std::string u8(uint32_t c) {
  std::string s;
  if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  return s;
}
static std::string shown(unsigned char b) {
  static std::map<int, int> m;
  if (m.empty()) {
    int n = 0;
    for (int i = 0; i < 256; ++i) m[i] = (i >= 0x21 && i < 0x7F) || (i >= 0xA1 && i < 0xAD) || i >= 0xAE ? i : 256 + n++;
  }
  return u8(m[b]);
}
static Vocab vocabulary(vh::Rng& r) {
  Vocab v;
  json voc = json::object(), merges = json::array(), added = json::array();
  std::set<unsigned char> need;
  for (int c = 32; c < 127; ++c) need.insert(c);
  need.insert('\n');
  for (auto s : {"é", "你", "😀"}) for (const char* p = s; *p; ++p) need.insert((unsigned char)*p);
  std::vector<unsigned char> all(need.begin(), need.end());
  for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.in(0, i - 1)]);
  for (auto b : all) { v.byte[b] = v.bytes.size(); voc[shown(b)] = v.bytes.size(); v.text.push_back(v.bytes.size()); v.bytes.push_back(std::string(1, (char)b)); }
  if (r.p(.5)) {
    std::string m = "é";
    voc[shown(m[0]) + shown(m[1])] = v.bytes.size();
    v.merged[m] = v.bytes.size();
    merges.push_back(shown(m[0]) + " " + shown(m[1]));
    v.text.push_back(v.bytes.size());
    v.bytes.push_back(m);
  }
  for (auto s : {"<|endoftext|>", "<|im_start|>", "<|im_end|>", "<think>", "</think>"}) {
    v.special[s] = v.bytes.size();
    added.push_back({{"id", v.bytes.size()}, {"content", s}});
    v.bytes.push_back(s);
  }
  v.file = {{"model", {{"vocab", voc}, {"merges", merges}}}, {"added_tokens", added}};
  return v;
}
static std::vector<int64_t> encode(const Vocab& v, const std::string& s) {
  std::vector<int64_t> o;
  for (size_t i = 0; i < s.size();) {
    bool done = false;
    for (auto* m : {&v.special, &v.merged})
      for (auto& [k, id] : *m) if (!done && s.compare(i, k.size(), k) == 0) { o.push_back(id); i += k.size(); done = true; }
    if (!done) o.push_back(v.byte.at((unsigned char)s[i++]));
  }
  return o;
}
static bool valid_utf8(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
    if (n < 0 || i + n >= s.size()) return false;
    for (int k = 1; k <= n; ++k) if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false;
    i += n + 1;
  }
  return true;
}
static std::string ascii(const std::string& s) { std::string o; for (char c : s) if (!(c & 0x80)) o += c; return o; }

// ---- what a prompt is -----------------------------------------------------
static const std::string concise = " Please answer in a single, complete sentence. Keep it concise.";
static std::string render(const json& ms, bool think) {
  std::string s;
  for (auto& m : ms) s += "<|im_start|>" + m["role"].get<std::string>() + "\n" + m["content"].get<std::string>() + "<|im_end|>\n";
  s += "<|im_start|>assistant\n";
  if (!think) s += "<think>\n\n</think>\n\n";
  return s;
}
static json with_system(json ms) {
  if (!ms.empty() && ms[0]["role"] == "system") ms[0]["content"] = ms[0]["content"].get<std::string>() + concise;
  else ms.insert(ms.begin(), json{{"role", "system"}, {"content", "You are a helpful assistant." + concise}});
  return ms;
}

// ---- the greedy continuation ----------------------------------------------
struct World {
  Spec s;
  Weights w;
  Vocab v;
  std::map<std::vector<int64_t>, std::pair<std::vector<int64_t>, bool>> memo;
  // up to n tokens; false: too close to call from some point on
  std::pair<std::vector<int64_t>, bool> greedy(const std::vector<int64_t>& prompt, int n) {
    auto key = prompt;
    key.push_back(-n);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    Ref ref(s, w);
    std::vector<int64_t> out;
    bool sure = true;
    auto lo = ref.feed(prompt);
    for (int i = 0; i < n; ++i) {
      int b = std::max_element(lo.begin(), lo.end()) - lo.begin();
      double second = -1e300, m = 1;
      for (int x = 0; x < s.V; ++x) { if (x != b) second = std::max(second, lo[x]); m = std::max(m, std::abs(lo[x])); }
      if (lo[b] - second < 4e-4 * m) { sure = false; break; }
      out.push_back(b);
      if (b == s.eos) break;
      if (i + 1 < n) lo = ref.feed({b});
    }
    return memo[key] = {out, sure};
  }
};

static World world(vh::Rng& r) {
  World k;
  k.v = vocabulary(r);
  k.s = draw_spec("qwen3_service", r);
  k.s.V = k.v.bytes.size();
  k.s.L = r.in(1, 2);
  k.s.cache = 512;
  k.s.maxpos = 1024;
  bool chain = r.p(.6);
  if (chain) { k.s.tie = false; k.s.H = std::max(k.s.H, 24); }
  k.w = weights(k.s, r);
  if (chain) {
    // What follows is mostly a function of the token before: a permutation with whole characters in it
    int V = k.s.V;
    std::vector<int> succ(V), others;
    auto link = [&](const std::string& a) { std::vector<int> c; for (unsigned char b : a) c.push_back(k.v.byte[b]); return c; };
    std::vector<std::vector<int>> runs;
    std::set<int> used;
    for (auto s : {"é", "你", "😀"}) { auto c = link(s); bool ok = true; for (int x : c) ok = ok && !used.count(x); if (!ok) continue; for (int x : c) used.insert(x); runs.push_back(c); }
    for (int i = 0; i < V; ++i) if (!used.count(i)) runs.push_back({i});
    for (size_t i = runs.size(); i > 1; --i) std::swap(runs[i - 1], runs[r.in(0, i - 1)]);
    // after the end of the prompt come whole characters, often
    std::vector<int> order;
    for (auto& c : runs) order.insert(order.end(), c.begin(), c.end());
    for (int i = 0; i < V; ++i) succ[order[i]] = order[(i + 1) % V];
    if (r.p(.7)) { auto c = link(r.p(.5) ? "你" : "😀"); succ[k.v.byte['\n']] = c[0]; if (r.p(.4)) { succ[c.back()] = c[0]; } }
    if (r.p(.5)) { int a = k.v.text[r.in(0, k.v.text.size() - 1)]; succ[a] = k.v.special["<think>"]; }
    for (auto& [n, x] : k.w) if (n.find("o_proj.weight") != n.npos || n.find("down_proj.weight") != n.npos) for (auto& y : x.second) y *= .08f;
    for (auto& [n, x] : k.w) if (n.find("o_proj.bias") != n.npos) for (auto& y : x.second) y *= .05f;
    for (auto& y : k.w["model.norm.weight"].second) y = 1;
    auto& e = k.w["model.embed_tokens.weight"].second;
    auto& h = k.w["lm_head.weight"].second;
    for (auto& y : h) y *= .02f;
    for (int i = 0; i < V; ++i) for (int j = 0; j < k.s.H; ++j) h[succ[i] * k.s.H + j] += e[i * k.s.H + j];
    vh::observe("chains");
  }
  return k;
}

template<class Session> static std::shared_ptr<Session> session_of(World& k, bool& ok, const std::string& what) {
  std::ofstream(dir + "/config.json") << k.s.json();
  std::ofstream(dir + "/tokenizer.json") << k.v.file.dump();
  mllm::save(dir + "/model.mllm", params(k.w), mllm::ModelFileVersion::kV2);
  auto s = std::make_shared<Session>();
  ok = true;
  try { s->fromPreTrain(dir); }
  catch (const std::exception& e) { ok = false; vh::violation("session cannot be made", what + ": " + e.what()); return s; }
  const_cast<int32_t&>(s->model_->cfg.thinking_start_token_id) = k.v.special["<think>"];
  const_cast<int32_t&>(s->model_->cfg.thinking_end_token_id) = k.v.special["</think>"];
  return s;
}

static size_t tokens_below(const mllm::prefix_cache::RadixTreeNode* n, std::multiset<uint32_t>& at) {
  size_t t = n->key.token_ids.size();
  for (auto* side : {&n->value.k_cache_addresses, &n->value.v_cache_addresses})
    for (auto& l : *side) for (size_t i = 0; i < t; ++i) at.insert(l[i]);
  for (auto& [key, c] : n->children) t += tokens_below(c, at);
  return t;
}
template<class Session> static std::string blocks(Session& s, int L) {
  std::multiset<uint32_t> at;
  size_t t = 0;
  for (auto& [key, c] : s.cache_->tree_.root_->children) t += tokens_below(c, at);
  auto& held = s.cache_->allocator_.tlb_.addr_space_;
  if (at.size() != 2 * L * t) return vh::S("the tree of ", t, " tokens has ", at.size(), " blocks");
  if (std::set<uint32_t>(at.begin(), at.end()).size() != at.size()) return "a block belongs to two tokens";
  for (auto a : at) if (!held.count(a)) return "a block in the tree is not allocated";
  if (held.size() != at.size()) return vh::S(held.size(), " blocks are allocated, ", at.size(), " of them known to the cache");
  return "";
}

// one request's answer; "" or what is wrong with it
struct Answer { std::string text; int last = 0; bool after = false; std::string error; };
static std::string judge(World& k, bool probing, const json& ms, bool think, int maxn, const Answer& a) {
  auto p = encode(k.v, render(probing ? with_system(ms) : ms, think));
  auto [g, sure] = k.greedy(p, std::max(maxn, 1));
  if (!a.error.empty()) return "threw " + a.error;
  if (maxn <= 0) return ascii(a.text).empty() ? "" : "an answer of no tokens has a text";
  if (!sure) { vh::observe("near_tie"); return ""; }
  if (a.last != 1) return vh::S(a.last, " last pieces");
  if (a.after) return "pieces after the last one";
  bool ended = !g.empty() && g.back() == k.s.eos;
  std::string whole, shorter;
  for (size_t i = 0; i < g.size(); ++i) {
    if (ended && i + 1 == g.size()) { shorter = whole; break; }
    shorter = whole;
    whole += k.v.bytes[g[i]];
  }
  if (ended) { shorter = whole; vh::observe("ended"); }
  if (!valid_utf8(a.text)) return "the text is not UTF-8";
  auto split = [](const std::string& s) { for (unsigned char c : s) if (c >= 0x80) return true; return false; };
  bool ok = false;
  for (auto* t : {&whole, &shorter}) {
    if (valid_utf8(*t)) { ok = ok || a.text == *t; if (split(*t)) vh::observe("characters"); }
    else ok = ok || ascii(a.text) == ascii(*t);
  }
  if (!ok) return vh::S("gave ", json(a.text).dump(), " instead of ", json(whole).dump(-1, ' ', false, json::error_handler_t::replace), ended ? " (ended)" : "");
  vh::observe("tokens", g.size());
  return "";
}

struct Talk {
  std::vector<json> done;
  json next(vh::Rng& r, bool& again) {
    static const char* words[] = {"a", "ab", "abc", "hi", "\xC3\xA9", "\xE4\xBD\xA0", "x y", "12", "?", "ab\nc", ""};
    auto say = [&](const char* role) { return json{{"role", role}, {"content", words[r.in(0, 10)]}}; };
    again = false;
    json m = json::array();
    if (!done.empty() && r.p(.75)) {
      m = done[r.in(0, done.size() - 1)];
      int how = r.in(0, 3);
      if (how == 0) again = true;
      else if (how == 1) { m.push_back(say("assistant")); m.push_back(say("user")); }
      else if (how == 2) m.back()["content"] = m.back()["content"].get<std::string>() + words[r.in(0, 9)];
      else m.back() = say("user");
    } else {
      if (r.p(.25)) m.push_back(say("system"));
      m.push_back(say("user"));
    }
    if (m.size() > 5) { m = json::array({say("user")}); again = false; }
    done.push_back(m);
    return m;
  }
};

static json request_of(const json& ms, bool think, int maxn) { return {{"messages", ms}, {"enable_thinking", think}, {"max_length", maxn}}; }

template<class Session> static void history(vh::Rng& r, bool probing) {
  auto k = world(r);
  std::string name = probing ? "probing session" : "session";
  std::string what = vh::S(name, " ", k.s.json());
  vh::begin(what);
  Talk talk;
  std::vector<std::tuple<json, bool, int, int>> plan;
  for (int i = r.in(3, 12); i > 0; --i) {
    bool again;
    json m = talk.next(r, again);
    bool think = r.p(.55);
    if (again) for (auto& [m2, t2, n2, f2] : plan) if (m2 == m && r.p(.7)) think = t2;
    plan.push_back({m, think, r.p(.06) ? r.in(-1, 0) : r.p(.2) ? 1 : r.in(2, 10), r.p(.06) ? r.in(1, 3) : 0});
  }
  if (r.p(.6)) {
    auto& [m, t, n, f] = plan[r.in(0, plan.size() - 1)];
    k.s.eos = k.v.special["<|endoftext|>"];
    auto g = k.greedy(encode(k.v, render(probing ? with_system(m) : m, t)), 8).first;
    k.memo.clear();
    if (!g.empty()) k.s.eos = g[r.in(0, g.size() - 1)];
  } else k.s.eos = k.v.special["<|im_end|>"];
  bool ok;
  auto s = session_of<Session>(k, ok, what);
  if (!ok) return;
  std::set<std::string> before;
  int step = 0;
  std::vector<int64_t> prior;
  for (auto& [m, think, maxn, fault] : plan) {
    std::string at = vh::S(what, " request ", step++, ": ", request_of(m, think, maxn).dump(), fault ? vh::S(", whose receiver fails at piece ", fault) : "");
    vh::begin(at);
    auto ids = encode(k.v, render(probing ? with_system(m) : m, think));
    size_t shared = s->cache_->find(ids).matched_length;
    Answer a;
    int pieces = 0;
    bool failed = false;
    try {
      s->streamGenerate(request_of(m, think, maxn), [&](const json& t, bool last) {
        if (a.last) a.after = true;
        a.last += last;
        a.text += t.is_string() ? t.get<std::string>() : t.dump();
        if (fault && ++pieces == fault) { failed = true; throw std::runtime_error("receiver"); }
      });
    } catch (const std::exception& e) { if (!failed) a.error = e.what(); }
    std::string cls = shared == 0 ? "new" : shared == ids.size() ? "prompt wholly cached" : shared + 1 == ids.size() ? "all but one cached" : "partly cached";
    if (!failed) {
      auto bad = judge(k, probing, m, think, maxn, a);
      if (!bad.empty()) { vh::violation(vh::S(name, ": wrong answer: ", cls, bad[0] == 't' && bad[1] == 'h' ? ", throws" : ""), at + ": " + bad); return; }
    } else vh::observe("receiver_failed");
    auto bad = blocks(*s, k.s.L);
    if (!bad.empty()) { vh::violation(vh::S(name, ": blocks", failed ? " after a failure" : ""), at + ": " + bad); return; }
    vh::observe(cls);
    vh::observe(maxn <= 0 ? "no_tokens" : "answers");
    vh::cases(vh::S(name, " ", cls, think ? " thinking" : "", " max ", std::min(maxn, 3), k.s.tie ? "" : " untied", k.s.L));
  }
  vh::observe(probing ? "probing" : "plain");
}

// requests at once, through the service
template<class Session> static void together(vh::Rng& r, bool probing) {
  auto k = world(r);
  k.s.eos = k.v.special["<|im_end|>"];
  std::string name = probing ? "probing session" : "session";
  std::string what = vh::S(name, " behind a service ", k.s.json());
  vh::begin(what);
  bool ok;
  auto s = session_of<Session>(k, ok, what);
  if (!ok) return;
  using namespace mllm::service;
  Service svc;
  svc.start(r.in(1, 4));
  svc.sessionPool().registerSession("m", s);
  Talk talk;
  struct Q { json m; bool think; int maxn; std::string id; };
  std::vector<Q> qs;
  for (int i = r.in(4, 9); i > 0; --i) { bool again; Q q; q.m = talk.next(r, again); q.think = r.p(.5); q.maxn = r.in(1, 8); q.id = vh::S("q", i); qs.push_back(q); }
  std::vector<Answer> as(qs.size());
  std::vector<std::thread> ts;
  for (size_t i = 0; i < qs.size(); ++i)
    ts.emplace_back([&, i] {
      RequestItem it;
      it.id = qs[i].id;
      it.payload = request_of(qs[i].m, qs[i].think, qs[i].maxn);
      it.payload["model"] = "m";
      it.payload["id"] = qs[i].id;
      svc.requestPool().push(it);
      while (true) {
        auto o = svc.responsePool().pop(qs[i].id);
        if (!o) { as[i].error = "no answer"; return; }
        as[i].text += o->raw;
        if (o->finished) { as[i].last++; if (o->payload["choices"][0]["finish_reason"] != "stop") as[i].error = "finish reason " + o->payload["choices"][0]["finish_reason"].dump(); return; }
      }
    });
  for (auto& t : ts) t.join();
  svc.stop();
  for (size_t i = 0; i < qs.size(); ++i) {
    auto bad = judge(k, probing, qs[i].m, qs[i].think, qs[i].maxn, as[i]);
    if (!bad.empty()) { vh::violation(name + ": requests at once", vh::S(what, " ", request_of(qs[i].m, qs[i].think, qs[i].maxn).dump(), ": ", bad)); return; }
    vh::observe("concurrent");
  }
  auto bad = blocks(*s, k.s.L);
  if (!bad.empty()) { vh::violation(name + ": blocks after requests at once", what + ": " + bad); return; }
  vh::cases(vh::S(name, " service ", qs.size()));
}

// requests that are no requests
static void malformed(vh::Rng& r) {
  auto k = world(r);
  bool ok;
  auto s = session_of<mllm::models::qwen3::Qwen3Session>(k, ok, "session");
  auto t = session_of<mllm::models::qwen3_probing::Qwen3ProbingSession>(k, ok, "session");
  if (!ok) return;
  json bad[] = {json::object(), {{"messages", 3}}, {{"messages", {1, 2}}}, {{"messages", json::array({{{"role", "assistant"}, {"content", "a"}, {"tool_calls", json::array({json::object()})}}})}},
                {{"messages", json::array({{{"role", "user"}, {"content", "a"}}})}, {"max_length", "x"}}, {{"messages", json::array({{{"role", 3}, {"content", "a"}}})}}, json::array(), {{"messages", nullptr}}};
  for (auto& q : bad)
    for (int p = 0; p < 2; ++p) {
      vh::begin("request " + q.dump());
      auto st = vh::in_child([&] { auto cb = [](const json&, bool) {}; if (q.is_object() && !q.contains("max_length")) q["max_length"] = 2; const json c = q; p ? t->streamGenerate(c, cb) : s->streamGenerate(c, cb); }, 60);
      if (st != "ok" && st != "threw") vh::violation(vh::S(p ? "probing session" : "session", ": malformed request ends the process"), vh::S(q.dump(), ": ", st));
      vh::observe("malformed");
    }
}

static void templates(const char* file) {
  std::ifstream f(file);
  std::string line;
  mllm::models::qwen3::Qwen3Session a;
  mllm::models::qwen3_probing::Qwen3ProbingSession b;
  while (std::getline(f, line)) {
    auto j = json::parse(line);
    std::string want = j["want"];
    vh::begin("template " + j["messages"].dump());
    for (int p = 0; p < 2; ++p) {
      std::string got;
      try {
        std::vector<json> tools = j["tools"];
        got = p ? b.applyChatTemplate(j["messages"], tools, j["prompt"], j["think"]) : a.applyChatTemplate(j["messages"], tools, j["prompt"], j["think"]);
      } catch (const std::exception& e) { vh::violation("template throws", j.dump() + ": " + e.what()); continue; }
      if (got != want) vh::violation(vh::S(p ? "probing session" : "session", ": template: ", j["class"].get<std::string>()), vh::S(j["messages"].dump(), ": ", json(got).dump(), " instead of ", json(want).dump()));
      vh::observe("templates");
      vh::cases("template " + j["class"].get<std::string>());
    }
  }
}

int main(int argc, char** argv) {
  ops_setup();
  std::cout.setstate(std::ios::failbit);
  dir = argv[1];
  if (argc > 2) { templates(argv[2]); return vh::finish(); }
  vh::Rng r(vh::seed() * 7919 + 19);
  using P = mllm::models::qwen3::Qwen3Session;
  using Q = mllm::models::qwen3_probing::Qwen3ProbingSession;
  int n = vh::scale(100, 1800);
  for (int c = 0; c < n; ++c) {
    if (r.p(.7)) history<P>(r, false); else history<Q>(r, true);
    if (c % 4 == 0) { if (r.p(.7)) together<P>(r, false); else together<Q>(r, true); }
    if (c % 40 == 0) malformed(r);
    if (c % 20 == 0) ops_trim();
  }
  return vh::finish();
}

// C05: the on-device request service. Each accepted request's responses reach
// whoever asks for its id, each once and in order, and end with exactly one
// last response, whatever the session does.
#include "vh.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <optional>
#include <thread>
#include "mllm/engine/service/Service.hpp"
using namespace mllm::service;
using nlohmann::json;
using ms = std::chrono::milliseconds;

static std::string token_of(uint64_t key, int i) {
  vh::Rng r(key * 64 + i);
  static const char* pieces[] = {"a", "Hello", " world", "\n", "\"quoted\"", "\\", "\t", "\u00e9", "\u4f60\u597d", "\U0001F600", "", "{\"x\":1}", "null", " "};
  std::string s = std::to_string(i) + ":";
  for (int k = r.in(0, 3); k-- > 0;) s += pieces[r.in(0, 13)];
  return s;
}

struct Seen { std::mutex m; std::vector<std::string> order; };
static Seen started;

class Scripted final : public Session {
 public:
  std::string name;
  explicit Scripted(std::string n) : name(std::move(n)) {}
  void streamGenerate(const json& q, const std::function<void(const json&, bool)>& cb) override {
    { std::lock_guard<std::mutex> l(started.m); started.order.push_back(q["id"]); }
    uint64_t key = q["key"];
    int n = q["n"], fail = q["fail"], pace = q["pace"];
    for (int i = 0; i < n; ++i) {
      if (i == fail) {
        switch ((int)q["how"]) {
          case 0: throw std::runtime_error("no memory");
          case 1: throw 7;
          case 2: return;                                 // ends without a last token
          case 3: cb(json::array({1, 2}), false); break;   // not a text
          default: cb(std::string("\xe4\xbd", 2), false);  // half a character
        }
      }
      if (pace) std::this_thread::sleep_for(std::chrono::microseconds(pace * (i % 4)));
      cb(token_of(key, i), i == n - 1);
    }
  }
};

struct Req { std::string id, model; uint64_t key; int n, fail, how; bool known; int readers; };

static std::string check_stream(const Req& q, const std::vector<json>& got) {
  // how 4 (half a character) puts one more response in front of token `fail`.
  for (auto& j : got) {
    if (j.is_null() || !j.contains("finished")) return "a response is not a response object: " + j.dump();
    if (j.contains("error") && !j.contains("choices")) return "a response was replaced by an error: " + j.dump();
    if (!j.contains("id") || j["id"] != q.id) return "a response carries id " + (j.contains("id") ? j["id"].dump() : "none") + ", not " + q.id;
  }
  if (got.empty() || !got.back()["finished"].get<bool>()) return "no last response";
  for (size_t i = 0; i + 1 < got.size(); ++i) if (got[i]["finished"].get<bool>()) return "a last response before the end";
  std::vector<std::string> text;
  for (auto& j : got) text.push_back(j["choices"][0]["delta"]["content"]);
  std::vector<std::string> want;
  bool error = !q.known;
  if (q.known) for (int i = 0; i < q.n; ++i) {
    if (i == q.fail && q.how < 4) { error = true; break; }
    if (i == q.fail) want.push_back("*");
    want.push_back(token_of(q.key, i));
  }
  if (error || q.n == 0) want.push_back("**");
  if (want.size() != text.size()) return vh::S(want.size(), " responses were due, ", text.size(), " came");
  for (size_t i = 0; i < want.size(); ++i) if (want[i][0] != '*' && want[i] != text[i]) return vh::S("response ", i, " is '", text[i], "', not '", want[i], "'");
  auto& fr = got.back()["choices"][0]["finish_reason"];
  if (fr.is_null()) return "the last response has no finish reason";
  if (!error && q.n > 0 && fr != "stop") return "a complete answer ends with reason " + fr.dump();
  if ((error || q.n == 0) && fr == "stop") return "a failed request ends with reason \"stop\"";
  return "";
}

static void scenario(uint64_t sd) {
  vh::Rng r(sd);
  int workers = r.in(1, 4), senders = r.in(1, 3);
  startService(workers);
  std::vector<std::string> models{"m0", "m1", "late"};
  insertSession("m0", std::make_shared<Scripted>("m0"));
  insertSession("m1", std::make_shared<Scripted>("m1"));
  insertSession("m0", std::make_shared<Scripted>("m0 again"));
  std::vector<Req> reqs;
  int n = r.in(3, 24);
  for (int i = 0; i < n; ++i) {
    Req q;
    q.id = vh::S("r", i, r.p(0.1) ? "\u00fc/ \"x\"" : "");
    double x = r.f(0, 1);
    q.known = x < 0.86;
    q.model = x < 0.86 ? models[r.in(0, 1)] : x < 0.91 ? "unknown" : x < 0.95 ? "" : "#number";
    q.key = sd * 1000 + i;
    q.n = r.p(0.05) ? 0 : r.in(1, 30);
    q.fail = r.p(0.3) ? r.in(0, std::max(0, q.n - 1)) : -1;
    q.how = r.in(0, 4);
    q.readers = r.p(0.2) ? 2 : 1;
    reqs.push_back(q);
  }
  std::string cfg = vh::S(workers, " workers, ", senders, " senders, ", n, " requests");
  std::vector<std::vector<json>> got(n);
  std::vector<std::thread> ts;
  std::atomic<int> bad{0}, open{n};
  bool readers_first = r.p(0.5);
  auto reader = [&](int i, int kind) {
    // One reader takes the whole stream; two share one, each taking what it gets.
    static std::mutex gm;
    const Req& q = reqs[i];
    if (q.readers == 1) {
      for (;;) {
        json j = json::parse(getResponse(q.id), nullptr, false);
        if (j.is_discarded()) { vh::violation("response-json", cfg + ": a response is not JSON"); break; }
        got[i].push_back(j);
        if (j.value("finished", true) || got[i].size() > 200) break;
      }
    } else {
      int quota = q.known ? (q.fail >= 0 && q.fail < q.n && q.how < 4 ? q.fail + 1 : q.n + (q.fail >= 0 && q.fail < q.n ? 1 : 0)) : 1;
      if (q.known && q.n == 0) quota = 1;
      int mine = kind ? quota - quota / 2 : quota / 2;
      std::set<std::string> seen;
      for (int k = 0; k < mine; ++k) {
        json j = json::parse(getResponse(q.id), nullptr, false);
        std::lock_guard<std::mutex> l(gm);
        got[i].push_back(j);
      }
    }
    open--;
  };
  auto launch = [&] {
    for (int i = 0; i < n; ++i) for (int k = 0; k < reqs[i].readers; ++k) ts.emplace_back(reader, i, k);
  };
  if (readers_first) launch();
  std::vector<std::thread> snd;
  std::vector<std::vector<std::string>> sent(senders);
  for (int s = 0; s < senders; ++s) snd.emplace_back([&, s] {
    vh::Rng q(sd * 7 + s);
    for (int i = s; i < n; i += senders) {
      json j = {{"id", reqs[i].id}, {"key", reqs[i].key}, {"n", reqs[i].n}, {"fail", reqs[i].fail}, {"how", reqs[i].how}, {"pace", q.in(0, 3) * 20}, {"messages", json::array()}};
      if (reqs[i].model == "#number") j["model"] = 3; else if (!reqs[i].model.empty() || true) j["model"] = reqs[i].model;
      int rc = sendRequest(j.dump());
      if (rc != 0) vh::violation("refused", vh::S(cfg, ": a well-formed request was refused (", rc, ")"));
      if (reqs[i].known) sent[s].push_back(reqs[i].id);
      vh::observe("requests");
      static const char* junk[] = {"", "{", "[1]", "5", "null", "{\"id\": 3, \"model\": \"m0\"}", "\"text\"", "{\"id\":\"x\""};
      if (q.p(0.3)) { const char* t = junk[q.in(0, 7)]; if (sendRequest(t) == 0) vh::violation("accepted", vh::S("an unusable request was accepted: ", t)); vh::observe("refused"); }
      if (q.p(0.1)) insertSession(vh::S("late", i), std::make_shared<Scripted>("late"));
    }
  });
  for (auto& t : snd) t.join();
  if (!readers_first) launch();
  for (auto& t : ts) t.join();
  for (int i = 0; i < n; ++i) {
    const Req& q = reqs[i];
    vh::observe("responses", got[i].size());
    if (q.readers == 2) {
      // As a set: every response once.
      std::multiset<std::string> want, have;
      for (auto& j : got[i]) if (j.is_object() && j.contains("choices")) have.insert(j["choices"][0]["delta"]["content"]); else vh::violation("shared-reader", cfg + ": a reader got " + (j.is_discarded() ? "no JSON" : j.dump()));
      if (q.known) for (int k = 0; k < q.n; ++k) { if (k == q.fail && q.how < 4) break; want.insert(token_of(q.key, k)); }
      for (auto& w : want) { auto it = have.find(w); if (it == have.end()) { vh::violation("shared-lost", cfg + ": with two readers, response '" + w + "' reached neither"); break; } have.erase(it); }
      vh::observe("shared_streams");
      continue;
    }
    auto e = check_stream(q, got[i]);
    if (!e.empty()) vh::violation(vh::S("stream:", !q.known ? "unknown-model" : q.fail >= 0 && q.fail < q.n ? vh::S("fail", q.how) : q.n == 0 ? "no-token" : "plain"), vh::S(cfg, ": request ", q.id, " (model '", q.model, "'): ", e));
    vh::seen("kinds", vh::S(q.known, q.fail >= 0 && q.fail < q.n ? q.how : 9));
  }
  if (workers == 1) for (auto& ss : sent) {
    size_t p = 0;
    for (auto& id : started.order) if (p < ss.size() && id == ss[p]) ++p;
    if (p != ss.size()) vh::violation("order", cfg + ": one worker did not begin a sender's requests in the order sent");
    vh::observe("orders");
  }
  // Stop: responses that are there can still be had, nobody waits for ever.
  Req last{"last", "m0", sd, (int)r.in(1, 12), -1, 0, true, 1};
  bool leave = r.p(0.6);
  if (leave) {
    json j = {{"id", last.id}, {"key", last.key}, {"n", last.n}, {"fail", -1}, {"how", 0}, {"pace", 0}, {"model", "m0"}};
    sendRequest(j.dump());
    for (int k = 0; k < 4000; ++k) { { std::lock_guard<std::mutex> l(started.m); if (!started.order.empty() && started.order.back() == "last") break; } std::this_thread::sleep_for(ms(1)); }
  }
  std::vector<std::thread> idle;
  std::atomic<int> back{0};
  int waiters = r.in(0, 3);
  for (int k = 0; k < waiters; ++k) idle.emplace_back([&, k] { getResponse(vh::S("never", k)); back++; });
  if (r.p(0.5)) std::this_thread::sleep_for(ms(r.in(0, 3)));
  stopService();
  for (auto& t : idle) t.join();
  vh::observe("stops");
  if (leave) {
    std::vector<json> rest;
    for (int k = 0; k < last.n; ++k) rest.push_back(json::parse(getResponse("last"), nullptr, false));
    auto e = check_stream(last, rest);
    if (!e.empty()) vh::violation("after-stop", cfg + ": responses produced before the service stopped: " + e);
  }
  getResponse("last");
  getResponse("never");
  vh::cases(vh::S(workers, senders, n, readers_first, leave, waiters));
}

int main(int argc, char** argv) {
  int n = vh::scale(90, 1500);
  for (int i = 0; i < n; ++i) {
    uint64_t sd = vh::seed() * 100003 + i;
    vh::begin(vh::S("scenario ", sd));
    auto st = vh::in_child([&] { scenario(sd); }, 60);
    if (st == "hang") vh::violation("hang", vh::S("scenario ", sd, ": somebody waits for ever"));
    else if (st != "ok" && st != "sanitizer") vh::violation("ended", vh::S("scenario ", sd, ": the process ended (", st, ")"));
    vh::observe("scenarios");
  }
  // Without a model the fallback session answers.
  auto st = vh::in_child([&] {
    startService(1);
    sendRequest("{\"id\": \"n\"}");
    std::string all;
    for (int k = 0; k < 30; ++k) { json j = json::parse(getResponse("n")); all += j["choices"][0]["delta"]["content"].get<std::string>(); if (j["finished"].get<bool>()) break; }
    if (all != "0123456789") vh::violation("fallback", "a request without model got '" + all + "' from the fallback session");
    stopService();
  }, 60);
  if (st != "ok" && st != "sanitizer") vh::violation("fallback-end", "the fallback session: " + st);
  return vh::finish();
}

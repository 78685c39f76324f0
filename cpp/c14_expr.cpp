// C14: symbolic expressions and configuration files. Reads cases (JSON lines),
// runs the real code and writes what it answered; the oracle is checks/C14.py.
#include "mllm/compile/symbolic_expr/Eval.hpp"
#include "mllm/compile/symbolic_expr/Parser.hpp"
#include "mllm/engine/ConfigFile.hpp"
#include "vh.hpp"
#include <fstream>
#include <sys/resource.h>
#include <signal.h>
#include <nlohmann/json.hpp>
using namespace mllm;
using J = nlohmann::json;

static SymExprDict dict(const J& j) {
  SymExprDict d;
  for (auto& [k, v] : j.items()) d[k] = v.get<float>();
  return d;
}
static SymExpr build(const J& n) {  // ["v",name] ["i",n] ["f",x] ["floor",e] ["+",a,b]
  const std::string k = n[0];
  if (k == "v") return SymExpr(n[1].get<std::string>());
  if (k == "i") return SymExpr(n[1].get<int32_t>());
  if (k == "f") return SymExpr(n[1].get<float>());
  auto a = build(n[1]);
  if (k == "floor") return a.floor();
  if (k == "ceil") return a.ceil();
  if (k == "abs") return a.abs();
  auto b = build(n[2]);
  if (k == "+") return a + b;
  if (k == "-") return a - b;
  if (k == "*") return a * b;
  if (k == "/") return a / b;
  if (k == "%") return a % b;
  vh::harness_error("bad node");
  return a;
}
static J number(float v) { uint32_t u; memcpy(&u, &v, 4); return u; }
static J say(SymExpr& e, const J& c) {
  J r;
  r["str"] = e.str();
  r["static"] = e.isStatic();
  r["v"] = J::array();
  for (auto& d : c["dicts"]) r["v"].push_back(number(e.eval(dict(d))));
  // an expression is a value: asking again in another order answers the same
  r["again"] = J::array();
  for (auto it = c["dicts"].rbegin(); it != c["dicts"].rend(); ++it) r["again"].push_back(number(e.eval(dict(*it))));
  if (c.value("int", false)) { r["int"] = J::array(); for (auto& d : c["dicts"]) r["int"].push_back(e.evalAsInt(dict(d))); }
  return r;
}
// What a call that must be refused did instead.
static std::string fate(const std::function<void()>& f) {
  return vh::in_child([&] { if (!freopen("/dev/null", "w", stdout)) {} f(); }, 20);
}
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string what(const std::function<void()>& f) {
  try { f(); } catch (const std::runtime_error& e) { return "runtime_error"; } catch (const std::exception& e) { return "other"; }
  return "ok";
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  const std::string dir = argv[3];
  std::string line;
  while (std::getline(in, line)) {
    J c = J::parse(line), r;
    const std::string op = c["op"];
    try {
      if (op == "parse") {
        SymExpr e(c["src"].get<std::string>());
        r = say(e, c);
        SymExpr f;
        f.parse(r["str"].get<std::string>());
        r["reparsed"] = say(f, c)["v"];
        r["restr"] = f.str();
      } else if (op == "build") {
        auto e = build(c["tree"]);
        r = say(e, c);
      } else if (op == "lex") {
        SymbolExprLexer l(c["src"].get<std::string>());
        r["t"] = J::array();
        for (int n = 0; n < 500; ++n) {
          auto t = l.getNextToken();
          if (t.type_ == SymbolExprTokenType::Eof) { r["eof"] = true; break; }
          r["t"].push_back(t.name_);
        }
        l.resetWithNewString(c["then"].get<std::string>());
        r["u"] = J::array();
        for (int n = 0; n < 500; ++n) {
          auto t = l.getNextToken();
          if (t.type_ == SymbolExprTokenType::Eof) break;
          r["u"].push_back(t.name_);
        }
      } else if (op == "bad") {
        r["fate"] = fate([&] { SymExpr e(c["src"].get<std::string>()); });
      } else if (op == "badeval") {
        r["fate"] = fate([&] { SymExpr e(c["src"].get<std::string>()); volatile float v = e.eval(dict(c["dict"])); (void)v; });
      } else if (op == "config") {
        const std::string text = c["text"], p1 = dir + "/a.json", p2 = dir + "/b.json";
        { std::ofstream f(p1, std::ios::binary); f << text; }
        ConfigFile a; a.loadString(text);
        ConfigFile b(p1);
        ConfigFile d; d.loadString("{\"old\":[1,2,3]}"); d.load(p1);
        { std::ofstream f(p2, std::ios::binary); f << std::string(100000, ' ') << "}"; }  // a longer file before
        a.save(p2);
        ConfigFile e(p2);
        ConfigFile g; g.loadString(a.dump());
        r["string"] = a.dump(); r["file"] = b.dump(); r["load"] = d.dump(); r["saved"] = slurp(p2); r["again"] = e.dump(); r["dumped"] = g.dump();
        r["same"] = a.data() == b.data() && a.data() == d.data() && a.data() == e.data() && a.data() == g.data();
      } else if (op == "badconfig") {
        const std::string text = c["text"], p1 = dir + "/bad.json";
        { std::ofstream f(p1, std::ios::binary); f << text; }
        r["fates"] = {
            fate([&] { if (what([&] { ConfigFile a(p1); }) == "runtime_error") throw 1; }),
            fate([&] { ConfigFile a; if (what([&] { a.load(p1); }) == "runtime_error") throw 1; }),
            fate([&] { ConfigFile a; if (what([&] { a.loadString(text); }) == "runtime_error") throw 1; })};
      } else if (op == "missing") {
        const std::string p = dir + "/no/such/file";
        r["fates"] = {
            fate([&] { if (what([&] { ConfigFile a(p); }) == "runtime_error") throw 1; }),
            fate([&] { ConfigFile a; if (what([&] { a.load(p); }) == "runtime_error") throw 1; }),
            fate([&] { ConfigFile a; a.loadString("{}"); if (what([&] { a.save(p); }) == "runtime_error") throw 1; })};
      } else if (op == "full") {  // the file system takes only so many bytes
        const std::string text = c["text"], p = dir + "/full.json";
        const long lim = c["limit"];
        r["fate"] = fate([&] {
          signal(SIGXFSZ, SIG_IGN);
          ConfigFile a; a.loadString(text);
          rlimit l{(rlim_t)lim, (rlim_t)lim};
          setrlimit(RLIMIT_FSIZE, &l);
          if (what([&] { a.save(p); }) == "runtime_error") throw 1;
        });
        ConfigFile a; a.loadString(text);
        r["whole"] = slurp(p) == a.dump();
        unlink(p.c_str());
      } else vh::harness_error("unknown op " + op);
    } catch (const std::exception& e) { r = {{"exception", e.what()}}; }
    out << r.dump(-1, ' ', false, J::error_handler_t::replace) << "\n";
    out.flush();
  }
  vh::finish();
  return 0;
}

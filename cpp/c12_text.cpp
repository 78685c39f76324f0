// C12: tokenizers and text conversions of the runtime. Reads cases (one JSON
// object a line), runs the real code and writes what it returned; the oracle is
// in checks/C12.py. Strings travel as hexadecimal bytes.
#include "mllm/mllm.hpp"
#include "vh.hpp"
#include <fstream>
#include <nlohmann/json.hpp>
#include "mllm/preprocessor/tokenizers/AutoTokenizer.hpp"
#include "mllm/preprocessor/tokenizers/BPE.hpp"
#include "mllm/preprocessor/tokenizers/BPEUTF8.hpp"
#include "mllm/preprocessor/tokenizers/Unicode.hpp"
#include "mllm/preprocessor/tokenizers/WordPiece.hpp"
#include "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.h"
#include "mllm/models/qwen3/tokenization_qwen3.hpp"
#include "mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp"
#include "mllm/models/qwen2vl/tokenization_qwen2vl.hpp"
#include "mllm/models/qwen_npu/tokenization_qwen.hpp"
#include "mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp"
#include "mllm/models/llama/tokenization_tiny_llama.hpp"
#include "mllm/models/minicpm4/tokenization_minicpm4.hpp"
#include "mllm/models/smollm3_3B/tokenization_smollm3.hpp"
#include "mllm/models/deepseek_ocr/tokenization_deepseek_ocr.hpp"

using namespace mllm;
using J = nlohmann::json;
namespace pre = mllm::preprocessor;

static std::string unhex(const std::string& h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r.push_back(d[c >> 4]); r.push_back(d[c & 15]); }
  return r;
}
// Wide strings leave as UTF-8 encoded here, not by the code under test.
static std::string w2u(const std::wstring& w) {
  std::string r;
  for (wchar_t x : w) {
    uint32_t c = (uint32_t)x;
    if (c < 0x80) r.push_back((char)c);
    else if (c < 0x800) { r.push_back((char)(0xC0 | c >> 6)); r.push_back((char)(0x80 | (c & 63))); }
    else if (c < 0x10000) { r.push_back((char)(0xE0 | c >> 12)); r.push_back((char)(0x80 | (c >> 6 & 63))); r.push_back((char)(0x80 | (c & 63))); }
    else { r.push_back((char)(0xF0 | (c >> 18 & 7))); r.push_back((char)(0x80 | (c >> 12 & 63))); r.push_back((char)(0x80 | (c >> 6 & 63))); r.push_back((char)(0x80 | (c & 63))); }
  }
  return r;
}
static std::wstring u2w(const std::string& s) {  // of well-formed text
  std::wstring r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    uint32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
    for (int k = 1; k < n; ++k) v = v << 6 | (s[i + k] & 63);
    r.push_back((wchar_t)v);
    i += n;
  }
  return r;
}
static J hexes(const std::vector<std::string>& v) { J j = J::array(); for (auto& s : v) j.push_back(hex(s)); return j; }
static J hexes(const std::vector<std::wstring>& v) { J j = J::array(); for (auto& s : v) j.push_back(hex(w2u(s))); return j; }

static J ids_of(Tensor t) {
  J j = J::array();
  auto* p = t.ptr<int64_t>();
  for (size_t i = 0; i < t.numel(); ++i) j.push_back(p[i]);
  return j;
}

struct Any {
  virtual ~Any() = default;
  virtual J run(const std::string& s) = 0;
  virtual J msg(const std::string&) { return {}; }
};
template<class T> struct Wide : Any {
  T t;
  template<class... A> explicit Wide(A... a) : t(a...) {}
  J run(const std::string& s) override {
    J r;
    auto toks = t.tokenize(s);
    r["tokens"] = hexes(toks);
    J ids = toks.empty() ? J::array() : ids_of(t.convert2Ids(toks));
    r["ids"] = ids;
    J each = J::array(), raw = J::array();
    for (auto& i : ids) {
      each.push_back(hex(w2u(t.detokenize(i.get<int64_t>()))));
      raw.push_back(hex(w2u(t._detokenize(i.get<int64_t>()))));
    }
    r["each"] = each;
    r["raw"] = raw;
    return r;
  }
};
template<class T> struct Utf8 : Any {
  T t;
  explicit Utf8(const std::string& p) : t(p) {}
  J run(const std::string& s) override {
    J r;
    auto toks = t.tokenize(s);
    r["tokens"] = hexes(toks);
    auto ids = t.encode(s);
    r["ids"] = ids;
    r["dec"] = hex(t.decode(ids));
    r["detok"] = hex(t.detokenize(toks));
    return r;
  }
};
template<class T, class M> struct WideMsg : Wide<T> {
  using Wide<T>::Wide;
  J msg(const std::string& s) override {
    M m;
    m.prompt = s;
    auto o = this->t.convertMessage(m);
    J r;
    r["ids"] = ids_of(o.at("sequence"));
    return r;
  }
};

static Any* model(const std::string& name, const std::string& path) {
  static std::map<std::string, Any*> have;
  auto& a = have[name + "|" + path];
  if (a) return a;
  if (name == "qwen3") a = new WideMsg<models::qwen3::Qwen3Tokenizer, models::qwen3::Qwen3Message>(path);
  else if (name == "qwen3_moe") a = new Wide<models::qwen3_moe::Qwen3Tokenizer>(path);
  else if (name == "qwen2vl") a = new Wide<models::qwen2vl::Qwen2VLTokenizer>(path);
  else if (name == "minicpmo") a = new Wide<models::minicpmo::MiniCPMOTokenizer>(path);
  else if (name == "qwen_npu") a = new Wide<models::qwen_npu::QwenTokenizer>(path, path + ".merges");
  else if (name == "tiny_llama") a = new Wide<models::llama::TinyLlamaTokenizer>(path, false);
  else if (name == "minicpm4") a = new Utf8<models::minicpm4::MiniCPM4Tokenizer>(path);
  else if (name == "smollm3") a = new Utf8<models::smollm3::SmolLM3Tokenizer>(path);
  else if (name == "deepseek_ocr") a = new Utf8<models::deepseek_ocr::DpskOcrTokenizer>(path);
  else vh::harness_error("unknown tokenizer " + name);
  return a;
}

static J one(const J& c) {
  std::string op = c["op"];
  J r;
  auto s = unhex(c.value("s", std::string{}));
  if (op == "trie_w") {
    pre::Trie t;
    std::vector<std::wstring> ws;
    for (auto& w : c["words"]) ws.push_back(u2w(unhex(w)));
    if (c.value("upd", false)) t.update(ws); else for (auto& w : ws) t.add(w);
    auto p = t.split(u2w(s));
    r["r"] = hexes(p);
    J sp = J::array();
    for (auto& x : p) sp.push_back(t.isSpecialToken(x));
    r["special"] = sp;
  } else if (op == "trie_u") {
    pre::TrieUTF8 t;
    std::vector<std::string> ws;
    for (auto& w : c["words"]) ws.push_back(unhex(w));
    if (c.value("upd", false)) t.update(ws); else for (auto& w : ws) t.add(w);
    auto p = t.split(s);
    r["r"] = hexes(p);
    J sp = J::array();
    for (auto& x : p) sp.push_back(t.isSpecialToken(x));
    r["special"] = sp;
  } else if (op == "bpe_w" || op == "bpe_u") {
    std::string path = c["tok"];
    J ids = J::array(), inv = J::array();
    if (op == "bpe_w") {
      static std::map<std::string, pre::BPE> have;
      if (!have.count(path)) have[path].initFromSentencePieceJson(path);
      auto& b = have[path];
      auto p = b._bpe(u2w(s));
      r["r"] = hexes(p);
      for (auto& x : p) { auto id = b._lookup_vocab(x); ids.push_back(id); inv.push_back(hex(w2u(b._lookup_inverse_vocab(id)))); }
    } else {
      static std::map<std::string, pre::BPEUTF8> have;
      if (!have.count(path)) have[path].initFromSentencePieceJson(path);
      auto& b = have[path];
      auto p = b._bpe(s);
      r["r"] = hexes(p);
      for (auto& x : p) { auto id = b._lookup_vocab(x); ids.push_back(id); inv.push_back(hex(b._lookup_inverse_vocab(id))); }
    }
    r["ids"] = ids;
    r["inv"] = inv;
  } else if (op == "wide") {
    auto w = pre::utf8string2WideString(s);
    J cp = J::array();
    for (wchar_t x : w) cp.push_back((uint32_t)x);
    r["cps"] = cp;
    r["back"] = hex(pre::wideString2Utf8String(w));
  } else if (op == "cpts") {
    try {
      auto v = unicode_cpts_from_utf8(s);
      r["cps"] = v;
      std::string back;
      for (auto x : v) back += unicode_cpt_to_utf8(x);
      r["back"] = hex(back);
    } catch (const std::exception& e) { r["threw"] = true; }
  } else if (op == "split") {
    std::vector<std::string> ex;
    for (auto& e : c["exprs"]) ex.push_back(e);
    r["r"] = hexes(unicode_regex_split(s, ex));
  } else if (op == "model") {
    r = model(c["name"], c["tok"])->run(s);
  } else if (op == "msg") {
    r = model(c["name"], c["tok"])->msg(s);
  } else if (op == "pad") {
    auto* m = dynamic_cast<Wide<models::qwen_npu::QwenTokenizer>*>(model("qwen_npu", c["tok"]));
    auto [n, t] = c["chunk"].get<bool>() ? m->t.tokenizePaddingByChunk(s, c["len"], c["vocab"]) : m->t.tokenizeWithPadding(s, c["len"], c["vocab"]);
    r["n"] = n;
    r["ids"] = ids_of(t);
  } else if (op == "wp") {
    static std::map<std::string, pre::WordPiece> have;
    std::string path = c["tok"];
    if (!have.count(path)) {
      if (c.value("vocab", false)) have[path].initFromVocabFile(path, c["lower"]);
      else have[path].initFromTokenizerJson(path);
    }
    auto& w = have[path];
    auto t = w.tokenize(s);
    r["r"] = hexes(t);
    r["ids"] = w.convert_tokens_to_ids(t);
    J inv = J::array();
    for (auto& x : r["ids"]) inv.push_back(hex(w.id2token(x.get<int64_t>())));
    r["inv"] = inv;
    r["unk"] = w.unk_token_id();
    r["pad"] = w.pad_token_id();
  } else if (op == "bytes") {
    std::unordered_map<std::wint_t, wchar_t> m;
    pre::makeBytes2UnicodeMap(m);
    J a = J::array(), b = J::array(), d = J::array();
    for (int i = 0; i < 256; ++i) {
      a.push_back(m.count(i) ? (uint32_t)m[i] : 0u);
      b.push_back(hex(unicode_byte_to_utf8((uint8_t)i)));
      d.push_back(unicode_utf8_to_byte(unicode_byte_to_utf8((uint8_t)i)));
    }
    r["wide"] = a; r["utf8"] = b; r["back"] = d; r["n"] = m.size();
  } else if (op == "table") {
    // properties of a range of code points
    J fl = J::array(), low = J::array(), pr = J::array();
    for (uint32_t x = c["lo"]; x < c["hi"].get<uint32_t>(); ++x) {
      auto f = unicode_cpt_flags(x);
      fl.push_back(f.is_number | f.is_letter << 1 | f.is_separator << 2 | f.is_accent_mark << 3 | f.is_punctuation << 4 | f.is_symbol << 5 | f.is_control << 6 | f.is_whitespace << 7);
      low.push_back(unicode_tolower(x));
      pr.push_back((int)pre::isLetter((wchar_t)x) | (int)pre::isDigit((wchar_t)x) << 1);
    }
    r["flags"] = fl; r["lower"] = low; r["pre"] = pr;
  } else if (op == "roundtrip") {
    long n = 0;
    for (uint32_t x = 1; x < 0x110000; ++x) {
      if (x >= 0xD800 && x < 0xE000) continue;
      std::wstring w(1, (wchar_t)x);
      auto ref = w2u(w);
      auto u = pre::wideString2Utf8String(w);
      size_t off = 0;
      bool ok = u == ref && pre::utf8string2WideString(ref) == w && unicode_cpt_to_utf8(x) == ref && unicode_len_utf8(ref[0]) == ref.size();
      ok = ok && unicode_cpt_from_utf8(ref, off) == x && off == ref.size();
      if (!ok) vh::violation("utf8:codepoint", vh::S("code point ", x, " does not survive the conversions"));
      ++n;
    }
    r["n"] = n;
  } else vh::harness_error("unknown op " + op);
  return r;
}

int main(int, char** argv) {
  mllm::initializeContext();
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  int i = 0;
  while (std::getline(in, line)) {
    J c = J::parse(line);
    vh::begin(c["op"].get<std::string>() + " " + std::to_string(i++));
    J r;
    try { r = one(c); } catch (const std::exception& e) { r = J(); r["exception"] = std::string(e.what()).substr(0, 200); }
    out << r.dump(-1, ' ', false, J::error_handler_t::replace) << "\n";
    out.flush();
  }
  return vh::finish();
}

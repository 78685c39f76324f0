// C06: parameter files. What is saved is what is loaded (v1 and v2, mapped or
// read), files written by others (extra segments, gaps, any data order, the
// Python converter) load as written, and a damaged file is refused or loads
// only data that is in it.
#include "vh.hpp"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include "mllm/mllm.hpp"
#include "mllm/core/ParameterFile.hpp"
#include "mllm/core/schema/ModelFileV1.hpp"
#include "mllm/core/schema/ModelFileV2.hpp"
#include "mllm/core/SlicePrimitives.hpp"
using namespace mllm;
namespace fs = std::filesystem;

struct P { int dtype; std::vector<int32_t> shape; std::string data; };
using Params = std::map<std::string, P>;

struct Ty { DataTypes t; int bytes, lanes; };
static const Ty tys[] = {{kFloat32, 4, 1}, {kFloat16, 2, 1}, {kInt8, 1, 1}, {kInt16, 2, 1}, {kInt32, 4, 1}, {kInt64, 8, 1}, {kUInt8, 1, 1}, {kUInt16, 2, 1}, {kUInt32, 4, 1},
                         {kGGUF_Q4_0, 18, 32}, {kGGUF_Q8_0, 34, 32}, {kGGUF_Q4_K, 144, 256}, {kGGUF_Q6_K, 210, 256}, {kGGUF_Q8_K, 292, 256}, {kByte, 1, 1}, {kBool, 1, 1}};
static const Ty& ty(int d) { for (auto& t : tys) if (t.t == d) return t; static Ty x{kFloat32, 1, 1}; return x; }
static int64_t numel(const std::vector<int32_t>& s) { int64_t n = 1; for (auto x : s) n *= x; return n; }

static std::string rname(vh::Rng& r, size_t maxlen) {
  static const char* parts[] = {"model", "layers", "weight", "bias", "q_proj", "visual", "\xc3\xa9", "\xe5\xb1\x82", "0", "17", "norm "};
  std::string s;
  int k = r.in(1, 6);
  for (int i = 0; i < k; ++i) s += (i ? "." : "") + std::string(parts[r.in(0, 10)]);
  if (r.p(0.06)) { size_t want = r.p(0.5) ? maxlen : r.in(1, maxlen); while (s.size() < want) s += 'x'; s.resize(want); }
  return s;
}
static std::string rdata(vh::Rng& r, size_t n) { std::string s(n, 0); for (auto& c : s) c = (char)r.next(); return s; }

static std::vector<int32_t> rshape(vh::Rng& r, const Ty& t) {
  int nd = r.p(0.03) ? 0 : r.p(0.05) ? r.in(5, 16) : r.in(1, 4);
  std::vector<int32_t> s;
  for (int i = 0; i < nd; ++i) s.push_back(nd > 5 ? r.in(1, 2) : r.p(0.2) ? 1 : r.in(1, 12));
  if (t.lanes > 1) { if (s.empty()) s.push_back(1); s.back() = t.lanes * r.in(1, 2); }
  return s;
}

// ---- own reader and writer -------------------------------------------------
template<class T> static void put(std::string& f, T v) { f.append((char*)&v, sizeof v); }
static std::string write1(const std::vector<std::pair<std::string, P>>& ps, vh::Rng& r, bool odd) {
  std::string desc, data;
  size_t dl = 0;
  for (auto& [n, p] : ps) dl += 4 + n.size() + 8 + 8 + 4;
  std::vector<size_t> order(ps.size()), off(ps.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  if (odd) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.in(0, i - 1)]);
  for (auto i : order) { if (odd && r.p(0.4)) data += rdata(r, r.in(1, 40)); off[i] = 12 + dl + data.size(); data += ps[i].second.data; }
  for (size_t i = 0; i < ps.size(); ++i) { put<uint32_t>(desc, ps[i].first.size()); desc += ps[i].first; put<uint64_t>(desc, ps[i].second.data.size()); put<uint64_t>(desc, off[i]); put<int32_t>(desc, ps[i].second.dtype); }
  std::string f;
  put<int32_t>(f, 20012); put<uint64_t>(f, dl);
  return f + desc + data;
}
static std::string write2(const std::vector<std::pair<std::string, P>>& ps, vh::Rng& r, bool odd) {
  std::string extra = odd && r.p(0.5) ? rdata(r, r.in(1, 300)) : "";
  size_t base = 532 + extra.size(), head = base + ps.size() * 352;
  std::string data, desc;
  std::vector<size_t> order(ps.size()), off(ps.size()), sz(ps.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  if (odd) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.in(0, i - 1)]);
  for (auto i : order) {
    if (odd && r.p(0.4)) data += rdata(r, r.in(1, 40));
    off[i] = head + data.size();
    data += ps[i].second.data;
    sz[i] = ps[i].second.data.size();
    if (odd && r.p(0.3)) { int pad = r.in(1, 64); data += rdata(r, pad); sz[i] += pad; }   // room behind the data
  }
  for (size_t i = 0; i < ps.size(); ++i) {
    put<uint32_t>(desc, i); put<uint32_t>(desc, ps[i].second.dtype); put<uint64_t>(desc, sz[i]); put<uint64_t>(desc, off[i]); put<uint64_t>(desc, ps[i].second.shape.size());
    for (int k = 0; k < 16; ++k) put<int32_t>(desc, k < (int)ps[i].second.shape.size() ? ps[i].second.shape[k] : 0);
    std::string n = ps[i].first; n.resize(256, 0); desc += n;
  }
  std::string f;
  put<int32_t>(f, 0x519A); put<int32_t>(f, 2); f.append(512, 0); put<uint32_t>(f, ps.size()); put<uint64_t>(f, base);
  return f + extra + desc + data;
}
struct In { const std::string& f; size_t pos = 0; bool bad = false;
  template<class T> T get() { T v{}; if (pos + sizeof v > f.size()) { bad = true; return v; } memcpy(&v, f.data() + pos, sizeof v); pos += sizeof v; return v; } };
// "" and the parameters, or why not. Ranges of data must be disjoint when `strict`.
static std::string parse(const std::string& f, int ver, Params& out, bool strict) {
  In in{f};
  std::vector<std::pair<size_t, size_t>> used;
  auto take = [&](const std::string& name, int dt, std::vector<int32_t> shape, size_t off, size_t len, size_t room) -> std::string {
    if (off > f.size() || room > f.size() - off) return "data of " + name + " lies outside the file";
    if (out.count(name)) return "two parameters named " + name;
    out[name] = {dt, shape, f.substr(off, len)};
    if (len) used.push_back({off, off + len});
    return "";
  };
  if (ver == 1) {
    if (in.get<int32_t>() != 20012) return "magic";
    uint64_t dl = in.get<uint64_t>();
    size_t end = 12 + dl;
    if (in.bad || end > f.size()) return "descriptors lie outside the file";
    while (in.pos < end) {
      uint32_t nl = in.get<uint32_t>();
      if (in.pos + nl > end) return "a name runs over the descriptors";
      std::string name = f.substr(in.pos, nl);
      in.pos += nl;
      uint64_t len = in.get<uint64_t>(), off = in.get<uint64_t>();
      int dt = in.get<int32_t>();
      if (in.bad || in.pos > end) return "a descriptor is cut";
      auto& t = ty(dt);
      auto e = take(name, dt, {(int32_t)(len / t.bytes * t.lanes)}, off, len, len);
      if (!e.empty()) return e;
    }
    used.push_back({0, end});
  } else {
    if (in.get<int32_t>() != 0x519A) return "magic";
    if (in.get<int32_t>() != 2) return "version";
    in.pos += 512;
    uint32_t n = in.get<uint32_t>();
    uint64_t off = in.get<uint64_t>();
    if (in.bad || off > f.size() || (uint64_t)n * 352 > f.size() - off) return "descriptors lie outside the file";
    for (uint32_t i = 0; i < n; ++i) {
      in.pos = off + i * 352 + 4;
      int dt = in.get<uint32_t>();
      uint64_t sz = in.get<uint64_t>(), o = in.get<uint64_t>(), sl = in.get<uint64_t>();
      if (sl > 16) return "shape";
      std::vector<int32_t> shape;
      __int128 ne = 1;
      for (int k = 0; k < 16; ++k) { int32_t d = in.get<int32_t>(); if (k < (int)sl) { if (d < 0) return "a negative dimension"; shape.push_back(d); ne *= d; if (ne > ((__int128)1 << 100)) return "too large"; } }
      const char* np = f.data() + in.pos;
      std::string name(np, strnlen(np, 256));
      auto& t = ty(dt);
      if (ne % t.lanes) return "a part of a block";
      __int128 len = ne / t.lanes * t.bytes;
      if (len > (__int128)sz) return "data shorter than the shape";
      auto e = take(name, dt, shape, o, (size_t)len, sz);
      if (!e.empty()) return e;
    }
    used.push_back({0, 532});
    if (n) used.push_back({off, off + (uint64_t)n * 352});
  }
  if (strict) { std::sort(used.begin(), used.end()); for (size_t i = 1; i < used.size(); ++i) if (used[i].first < used[i - 1].second) return "two parts of the file overlap"; }
  return "";
}

static std::string cmp(const ParameterFile::ptr_t& pf, const Params& want, int ver) {
  if (pf->dict().size() != want.size()) return vh::S(pf->dict().size(), " parameters instead of ", want.size());
  for (auto& [n, p] : want) {
    if (!pf->has(n)) return "parameter '" + n + "' is missing";
    Tensor t = pf->pull(n);
    if (t.dtype() != p.dtype) return vh::S("'", n, "' has type ", (int)t.dtype(), ", not ", p.dtype);
    if (ver == 2 && t.shape() != p.shape) return vh::S("'", n, "' has shape ", vh::L(t.shape()), ", not ", vh::L(p.shape));
    if ((int64_t)t.numel() != numel(p.shape)) return vh::S("'", n, "' has ", t.numel(), " elements, not ", numel(p.shape));
    if (t.name() != n) return "'" + n + "' is called '" + t.name() + "'";
    if (p.data.size() && memcmp(t.ptr<char>(), p.data.data(), p.data.size())) return vh::S("the data of '", n, "' differs");
  }
  return "";
}
static std::string slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); return {std::istreambuf_iterator<char>(i), {}}; }
static void spill(const std::string& p, const std::string& d) { std::ofstream o(p, std::ios::binary); o << d; }
static ParameterFile::ptr_t ld(const std::string& p, int ver, bool mm) { return mllm::load(p, ver == 1 ? ModelFileVersion::kV1 : ModelFileVersion::kV2, kCPU, mm); }

static Tensor make(const P& p) { Tensor t = Tensor::empty(p.shape, (DataTypes)p.dtype, kCPU).alloc(); memcpy(t.ptr<char>(), p.data.data(), p.data.size()); return t; }

static void roundtrip(uint64_t sd, const std::string& dir) {
  vh::Rng r(sd);
  int ver = r.in(1, 2);
  auto pf = ParameterFile::create(ver == 1 ? ModelFileVersion::kV1 : ModelFileVersion::kV2);
  Params want;
  int n = r.in(0, 24), views = 0;
  for (int i = 0; i < n; ++i) {
    std::string name = rname(r, ver == 1 ? 2000 : 256);
    if (want.count(name)) continue;
    const Ty& t = tys[r.in(0, 15)];
    P p{t.t, rshape(r, t), ""};
    p.data = rdata(r, numel(p.shape) / t.lanes * t.bytes);
    Tensor x = make(p);
    if (r.p(0.3)) x.setName("other name");
    if (r.p(0.25) && p.shape.size() >= 2 && p.shape.size() <= 4 && t.lanes == 1) {
      // A view of a tensor: its elements are what must be saved.
      int d0 = r.in(0, p.shape.size() - 1), d1 = r.in(0, p.shape.size() - 1);
      int kind = r.in(0, 1);
      if (kind == 0 && d0 != d1) {
        x = x.transpose(d0, d1);
      } else {
        std::vector<SliceIndicesPair> sl(p.shape.size(), SliceIndicesPair(kAll));
        int a = r.in(0, p.shape[d0] - 1), b = r.in(a + 1, p.shape[d0]);
        sl[d0] = SliceIndicesPair(a, b);
        x = x[sl];
      }
      // The elements of the view, by stride, without mllm's own copying.
      P q{p.dtype, x.shape(), ""};
      auto st = x.stride();
      auto sh = x.shape();
      std::vector<int> ix(sh.size(), 0);
      for (int64_t k = 0; k < numel(sh); ++k) {
        int64_t o = 0;
        for (size_t d = 0; d < sh.size(); ++d) o += (int64_t)ix[d] * st[d];
        q.data.append(x.ptr<char>() + o * t.bytes, t.bytes);
        for (int d = sh.size() - 1; d >= 0; --d) { if (++ix[d] < sh[d]) break; ix[d] = 0; }
      }
      p = q;
      views++;
    }
    pf->push(name, x);
    want[name] = p;
  }
  std::string path = dir + "/rt.mllm", cfg = vh::S("v", ver, ", ", want.size(), " parameters", views ? ", views among them" : "");
  mllm::save(path, pf, ver == 1 ? ModelFileVersion::kV1 : ModelFileVersion::kV2, kCPU);
  Params got;
  auto e = parse(slurp(path), ver, got, true);
  if (!e.empty()) { vh::violation(vh::S("file:v", ver), cfg + ": the file saved is not well-formed: " + e); return; }
  for (int mm = 0; mm < 2; ++mm) {
    auto e2 = cmp(ld(path, ver, mm), want, ver);
    if (!e2.empty()) vh::violation(vh::S("roundtrip:v", ver, views ? ":views" : "", mm ? ":mapped" : ":read"), cfg + ": after save and load, " + e2);
  }
  vh::observe("roundtrips");
  vh::observe("parameters", want.size());
  if (views) vh::observe("view_files");
  vh::cases(vh::S("rt", ver, want.size(), views));
}

static std::vector<std::pair<std::string, P>> some(vh::Rng& r, int ver, int lo, int hi) {
  std::vector<std::pair<std::string, P>> ps;
  std::set<std::string> names;
  for (int k = r.in(lo, hi); k-- > 0;) {
    std::string n = rname(r, 250);
    if (!names.insert(n).second) continue;
    const Ty& t = tys[r.in(0, 13)];
    P p{t.t, rshape(r, t), ""};
    if (ver == 1) p.shape = {(int32_t)numel(p.shape)};
    p.data = rdata(r, numel(p.shape) / t.lanes * t.bytes);
    ps.push_back({n, p});
  }
  return ps;
}

static void foreign(uint64_t sd, const std::string& dir) {
  vh::Rng r(sd);
  int ver = r.in(1, 2);
  auto ps = some(r, ver, 0, 16);
  std::string path = dir + "/f.mllm";
  spill(path, ver == 1 ? write1(ps, r, true) : write2(ps, r, true));
  Params want(ps.begin(), ps.end());
  for (int mm = 0; mm < 2; ++mm) {
    auto e = cmp(ld(path, ver, mm), want, ver);
    if (!e.empty()) vh::violation(vh::S("foreign:v", ver, mm ? ":mapped" : ":read"), vh::S("a well-formed v", ver, " file with gaps and shuffled data: ", e));
  }
  vh::observe("foreign_files");
  vh::cases(vh::S("foreign", ver, ps.size(), sd % 50));
}

static void damaged(uint64_t sd, const std::string& dir) {
  vh::Rng r(sd);
  int ver = r.in(1, 2);
  auto ps = some(r, ver, 1, 6);
  std::string f = ver == 1 ? write1(ps, r, r.p(0.5)) : write2(ps, r, r.p(0.5));
  std::string how;
  if (r.p(0.35)) { f.resize(r.p(0.3) ? r.in(0, 12) : r.in(0, f.size() - 1)); how = "cut"; }
  else {
    int k = r.in(1, 2);
    for (int i = 0; i < k; ++i) {
      static const uint64_t bad[] = {0, 1, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0xfffffffffffffff0ull, 1ull << 32, 4096, 1ull << 40};
      uint64_t v = bad[r.in(0, 11)];
      size_t head = ver == 1 ? 12 : 532, span = f.size() > head ? std::min<size_t>(f.size() - head, ver == 1 ? 120 : 352 * ps.size()) : 0;
      size_t pos;
      int w = r.p(0.5) ? 4 : 8;
      if (ver == 1) pos = r.p(0.3) ? (r.p(0.5) ? 4 : 0) : r.p(0.5) ? 12 : 12 + r.in(0, std::max<int64_t>(0, span - 1));
      else { static const int fld[] = {4, 8, 16, 24, 32, 36, 40, 96, 100}; pos = r.p(0.3) ? (r.p(0.5) ? 520 : 524) : 532 + 352 * r.in(0, ps.size() - 1) + fld[r.in(0, 8)]; }
      if (r.p(0.3) && pos + w <= f.size()) { uint64_t old = 0; memcpy(&old, f.data() + pos, w); v = old + r.in(-9, 40); }
      if (pos + w <= f.size()) memcpy(f.data() + pos, &v, w);
      how += vh::S(i ? ", " : "", "field at ", pos, " (", w, "B) = ", (int64_t)v);
    }
  }
  std::string path = dir + "/d.mllm";
  spill(path, f);
  Params want;
  auto why = parse(f, ver, want, false);
  for (int mm = 0; mm < 2; ++mm) {
    vh::begin(vh::S("damaged v", ver, " ", how));
    auto st = vh::in_child([&] {
      auto pf = ld(path, ver, mm);
      auto mf = pf->getMappedFile();
      uint64_t sum = 0;
      for (auto& [n, t] : *pf) {
        char* p = t.ptr<char>();
        size_t b = t.bytes();
        if (mm && b && mf && (p < (char*)mf->data() || p + b > (char*)mf->data() + mf->size())) vh::violation(vh::S("outside:v", ver), vh::S("a damaged file (", how, ") loads a parameter that lies outside the file"));
        else if (b && b < (64u << 20)) for (size_t i = 0; i < b; i += 97) sum += (uint8_t)p[i];
      }
      vh::seen("sums", std::to_string(sum % 97));
      if (why.empty()) { auto e = cmp(pf, want, ver); if (!e.empty() && e.find("called") == std::string::npos) vh::violation(vh::S("damaged-other:v", ver, mm ? ":mapped" : ":read"), vh::S("file with ", how, ": ", e)); }
      else vh::violation(vh::S("accepted:v", ver, ":", mm ? "mapped:" : "read:", why.substr(0, why.find(" of ") == std::string::npos ? 30 : why.find(" of "))), vh::S("a damaged file was loaded (", how, "): ", why));
    });
    vh::observe(st == "refused" || st == "threw" ? "damaged_refused" : "damaged_loaded");
    if (st != "ok" && st != "refused" && st != "threw" && st != "sanitizer") vh::violation(vh::S("damaged:", st, ":v", ver), vh::S("loading a damaged file (", how, mm ? ", mapped" : ", read", ") ended with ", st));
    if ((st == "refused" || st == "threw") && why.empty()) {
      // Refusing a file that is still well-formed is allowed only for what mllm cannot represent.
      bool odd = false;
      for (auto& [n, p] : want) { bool known = false; for (auto& t : tys) known |= t.t == p.dtype; odd |= !known || p.data.empty() || n.find('\0') != std::string::npos; }
      if (!odd && how == "cut") vh::violation("refused-good", "a file that is still well-formed was refused: " + how);
    }
  }
  vh::cases(vh::S("damaged", ver, how.substr(0, 12), why.substr(0, 20)));
  vh::seen("damage", why.substr(0, 40));
}

// Two parameters whose long names differ only at the end.
static void longnames(const std::string& dir) {
  for (size_t len : {255, 256, 257, 300}) {
    std::string path = dir + "/l.mllm", a(len, 'n'), b = a;
    b[len - 1] = 'm';
    Params want;
    auto st = vh::in_child([&] {
      auto pf = ParameterFile::create(ModelFileVersion::kV2);
      int k = 0;
      for (auto& n : {a, b}) { P p{kInt8, {4}, std::string(4, (char)++k)}; want[n] = p; pf->push(n, make(p)); }
      mllm::save(path, pf, ModelFileVersion::kV2, kCPU);
      for (int mm = 0; mm < 2; ++mm) { auto e = cmp(ld(path, 2, mm), want, 2); if (!e.empty()) vh::violation("long-name", vh::S("names of ", len, " bytes: ", e)); }
    });
    if (st == "refused" && len <= 256) vh::violation("long-name-refused", vh::S("names of ", len, " bytes cannot be saved and loaded"));
    vh::observe("long_names");
  }
}

int main(int argc, char** argv) {
  mllm::initializeContext();
  char tmpl[] = "/tmp/vh-c06-XXXXXX";
  std::string dir = mkdtemp(tmpl);
  if (argc > 1) {
    // Files of the Python converter, with their manifest: see checks/P26.py.
    std::ifstream in(argv[1]);
    nlohmann::json man = nlohmann::json::parse(in);
    for (auto& e : man) {
      vh::begin(e["path"]);
      Params want;
      for (auto& p : e["params"]) {
        std::string hex = p["hex"], data;
        for (size_t i = 0; i + 1 < hex.size(); i += 2) data += (char)std::stoi(hex.substr(i, 2), nullptr, 16);
        want[p["name"]] = {p["dtype"], p["shape"].get<std::vector<int32_t>>(), data};
      }
      for (int mm = 0; mm < 2; ++mm) {
        auto st = vh::in_child([&] {
          auto x = cmp(ld(e["path"], 2, mm), want, 2);
          if (!x.empty()) vh::violation("python:" + e["kind"].get<std::string>(), "a file the Python converter wrote (" + e["kind"].get<std::string>() + "), loaded: " + x);
        });
        if (st != "ok" && st != "sanitizer") vh::violation("python-refused:" + e["kind"].get<std::string>(), "a file the Python converter wrote (" + e["kind"].get<std::string>() + ") cannot be loaded: " + st);
      }
      vh::observe("converter_files");
      vh::observe("converter_params", want.size());
      vh::cases(e["path"]);
    }
  } else {
    for (int i = 0; i < vh::scale(400, 6000); ++i) { vh::begin(vh::S("roundtrip ", i)); roundtrip(vh::seed() * 100003 + i, dir); }
    for (int i = 0; i < vh::scale(300, 4000); ++i) { vh::begin(vh::S("foreign ", i)); foreign(vh::seed() * 100019 + i, dir); }
    longnames(dir);
    for (int i = 0; i < vh::scale(700, 12000); ++i) damaged(vh::seed() * 100043 + i, dir);
  }
  fs::remove_all(dir);
  return vh::finish();
}

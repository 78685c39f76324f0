// C07: what a tensor denotes. A shadow keeps, for every tensor, its shape and
// the cell behind each element; views share cells, copies get new ones. After
// each operation shape and elements of the result are read (by address from
// the strides, and through at()) and compared; writes through one tensor must
// show in every tensor that shares the cell and in no other.
#include "vh.hpp"
#include <algorithm>
#include <numeric>
#include <sys/mman.h>
#include "mllm/mllm.hpp"
#include "mllm/core/aops/PadOp.hpp"
#include "mllm/nn/Functional.hpp"
#include "mllm/core/aops/CausalMaskOp.hpp"
#include "mllm/engine/Context.hpp"
using namespace mllm;
namespace F = mllm::nn::functional;
typedef std::vector<int32_t> Sh;

static int out_fd;
static long said_at = 0;
static void said_reset() { fflush(stdout); said_at = lseek(out_fd, 0, SEEK_END); }
static bool said(const char* what) {
  fflush(stdout);
  long end = lseek(out_fd, 0, SEEK_END);
  if (end <= said_at) return false;
  std::string s(end - said_at, 0);
  pread(out_fd, s.data(), s.size(), said_at);
  return s.find(what) != std::string::npos;
}

static std::vector<uint64_t> cell;
struct T {
  Tensor t;
  DataTypes dt;
  Sh sh;
  std::vector<int> c;   // cell of each element, row-major
  std::string how;
  size_t n() const { size_t x = 1; for (auto v : sh) x *= v; return x; }
  bool contig() const { return t.isContiguous(); }
};
static size_t esz(DataTypes d) { return d == kInt64 || d == kUInt64 ? 8 : d == kFloat32 || d == kInt32 || d == kUInt32 ? 4 : d == kFloat16 || d == kInt16 || d == kUInt16 ? 2 : 1; }
static uint64_t bits(DataTypes d, double v) {
  uint64_t x = 0;
  switch (d) {
    case kFloat32: { float f = v; memcpy(&x, &f, 4); break; }
    case kFloat16: { half_float::half f(v); memcpy(&x, &f, 2); break; }
    case kInt64: { int64_t f = v; memcpy(&x, &f, 8); break; }
    case kUInt64: { uint64_t f = v; memcpy(&x, &f, 8); break; }
    case kInt32: { int32_t f = v; memcpy(&x, &f, 4); break; }
    case kUInt32: { uint32_t f = v; memcpy(&x, &f, 4); break; }
    case kInt16: { int16_t f = v; memcpy(&x, &f, 2); break; }
    case kUInt16: { uint16_t f = v; memcpy(&x, &f, 2); break; }
    case kInt8: { int8_t f = v; memcpy(&x, &f, 1); break; }
    default: { uint8_t f = v; memcpy(&x, &f, 1); }
  }
  return x;
}
static double val(DataTypes d, uint64_t x) {
  switch (d) {
    case kFloat32: { float f; memcpy(&f, &x, 4); return f; }
    case kFloat16: { half_float::half f; memcpy(&f, &x, 2); return (float)f; }
    case kInt64: { int64_t f; memcpy(&f, &x, 8); return f; }
    case kUInt64: return x;
    case kInt32: { int32_t f; memcpy(&f, &x, 4); return f; }
    case kUInt32: return (uint32_t)x;
    case kInt16: { int16_t f; memcpy(&f, &x, 2); return f; }
    case kUInt16: return (uint16_t)x;
    case kInt8: { int8_t f; memcpy(&f, &x, 1); return f; }
    default: return (uint8_t)x;
  }
}
static Sh unrank(size_t i, const Sh& s) { Sh r(s.size()); for (int d = (int)s.size() - 1; d >= 0; --d) { r[d] = i % s[d]; i /= s[d]; } return r; }
static size_t rankOf(const Sh& ix, const Sh& s) { size_t r = 0; for (size_t d = 0; d < s.size(); ++d) r = r * s[d] + ix[d]; return r; }
static size_t num(const Sh& s) { size_t x = 1; for (auto v : s) x *= v; return x; }
static char* addr(const Tensor& t, const Sh& ix, DataTypes d) {
  auto st = t.stride();
  int64_t o = 0;
  for (size_t k = 0; k < ix.size(); ++k) o += (int64_t)ix[k] * st[k];
  return t.ptr<char>() + o * (int64_t)esz(d);
}
static uint64_t peek(const char* p, DataTypes d) { uint64_t x = 0; memcpy(&x, p, esz(d)); return x; }
static bool same(DataTypes d, uint64_t a, uint64_t b) {
  if (d == kFloat32 || d == kFloat16) { double x = val(d, a), y = val(d, b); return x == y || (std::isnan(x) && std::isnan(y)); }
  return a == b;
}
static const char* dn(DataTypes d) { switch (d) { case kFloat32: return "f32"; case kFloat16: return "f16"; case kInt64: return "i64"; case kInt32: return "i32"; case kInt16: return "i16"; case kInt8: return "i8"; case kUInt8: return "u8"; case kUInt16: return "u16"; case kUInt32: return "u32"; default: return "u64"; } }

// The first difference between what the tensor holds and its shadow, or "".
static std::string diff(const T& x) {
  if (x.t.isNil()) return "the result is nil";
  if (x.t.shape() != x.sh) return vh::S("shape ", vh::L(x.t.shape()), " expected ", vh::L(x.sh));
  if (x.t.dtype() != x.dt) return "element type changed";
  if (x.t.numel() != x.n()) return "numel() is not the product of the shape";
  size_t n = x.n();
  Tensor t = x.t;
  for (size_t i = 0; i < n; ++i) {
    auto ix = unrank(i, x.sh);
    char* p = addr(t, ix, x.dt);
    if (!same(x.dt, peek(p, x.dt), cell[x.c[i]])) return vh::S("element ", vh::L(ix), " is ", val(x.dt, peek(p, x.dt)), ", expected ", val(x.dt, cell[x.c[i]]), " (shape ", vh::L(x.sh), ", strides ", vh::L(x.t.stride()), ")");
    if (!ix.empty() && t.offsettedPtr<char>(ix) != p) return vh::S("at(", vh::L(ix), ") is not the element the strides give");
  }
  return "";
}

static int* flag;
static double uniq = 1;
struct World {
  vh::Rng r;
  std::vector<T> live;
  std::string hist;
  explicit World(uint64_t s) : r(s) {}

  double fresh(DataTypes d) {
    uniq += 1;
    if (d == kFloat16) return (int64_t)uniq % 2003;
    if (d == kFloat32) return (int64_t)uniq % 1000003 * (r.p(.5) ? 1 : -.5);
    if (esz(d) == 1) return d == kInt8 ? int((int64_t)(uniq * 7) % 255) - 127 : (int64_t)(uniq * 7) % 251;
    if (esz(d) == 2) return (int64_t)(uniq * 3) % 32003;
    return (int64_t)uniq * 3;
  }
  T base(Sh sh, DataTypes d) {
    T x;
    x.t = Tensor::empty(sh, d, kCPU).alloc();
    x.dt = d;
    x.sh = sh;
    for (size_t i = 0, n = num(sh); i < n; ++i) {
      cell.push_back(bits(d, fresh(d)));
      x.c.push_back(cell.size() - 1);
      memcpy(x.t.ptr<char>() + i * esz(d), &cell.back(), esz(d));
    }
    return x;
  }
  Sh shape(int lo = 1, int hi = 5) {
    Sh s(r.in(lo, hi));
    size_t n = 1;
    for (auto& v : s) { v = r.p(.2) ? 1 : r.in(1, s.size() > 3 ? 6 : 11); n *= v; if (n > 3000) v = 1, n = 1; }
    return s;
  }
  DataTypes dtype() { static std::vector<DataTypes> a{kFloat32, kFloat32, kFloat32, kFloat16, kInt32, kInt64, kInt16, kInt8, kUInt8, kUInt32}; return r.pick(a); }
  static T fresh_like(const Tensor& t, DataTypes d, const Sh& sh, const std::vector<uint64_t>& v) {
    T x; x.t = t; x.dt = d; x.sh = sh;
    for (auto b : v) { cell.push_back(b); x.c.push_back(cell.size() - 1); }
    return x;
  }

  // Run op; the results must be as `expect` says (given the tensors). The first
  // try is in a child when something in it may make the op refuse.
  bool run(const std::string& op, const std::string& cls, bool child, const std::function<std::vector<Tensor>()>& f,
           const std::function<std::vector<T>(const std::vector<Tensor>&)>& expect) {
    hist += " " + op + "/" + cls;
    std::string detail = hist.size() > 900 ? hist.substr(hist.size() - 900) : hist;
    vh::cases(op + "/" + cls);
    auto body = [&](bool keep) -> int {   // 0 fine, 1 not implemented, 2 wrong
      said_reset();
      auto out = f();
      if (said("[NYI]")) return 1;
      auto ex = expect(out);
      if (ex.size() != out.size()) { vh::violation(op + ":" + cls, vh::S(op, " gave ", out.size(), " results, expected ", ex.size()), detail); return 2; }
      for (size_t i = 0; i < ex.size(); ++i) {
        auto d = diff(ex[i]);
        if (!d.empty()) { vh::violation(op + ":" + cls, op + " (" + cls + "): " + d, detail); return 2; }
      }
      for (auto& x : live) {
        auto d = diff(x);
        if (!d.empty()) { vh::violation(op + ":" + cls + ":bystander", "after " + op + " (" + cls + ") another tensor (" + x.how + ") changed: " + d, detail); return 2; }
      }
      if (keep) for (auto& e : ex) { e.how = op; live.push_back(e); while (live.size() > 14) live.erase(live.begin() + r.in(0, live.size() - 1)); }
      return 0;
    };
    // A class that has come through before runs here at once: a crash is seen all the same.
    static std::map<std::string, int> passed;
    static const std::set<std::string> may_refuse{"view", "flatten", "squeeze", "unsqueeze", "maskedScatter", "index", "split"};
    if (child && (may_refuse.count(op) || passed[op + "/" + cls] < 2)) {
      *flag = -1;
      auto st = vh::in_child([&] { *flag = body(false); });
      if (st == "threw" || st == "refused") { vh::observe("refused"); vh::seen("refusals", op + "/" + cls); return false; }
      if (st != "ok") { vh::violation(op + ":" + cls, op + " (" + cls + ") ended in " + st, detail); return false; }
      if (*flag == 1) { vh::observe("not_implemented"); vh::seen("refusals", op + "/" + cls); return false; }
      if (*flag) return false;
    }
    int x = body(true);
    if (x == 1) { vh::observe("not_implemented"); vh::seen("refusals", op + "/" + cls); }
    if (x == 0) { ++passed[op + "/" + cls]; vh::observe("ops"); vh::observe("ok_" + op); vh::seen("variants", op + "/" + cls); }
    return x == 0;
  }
  std::string cls(const T& x) { return std::string(x.contig() ? (x.t.bytes() == x.n() * esz(x.dt) ? "whole" : "part") : "strided") + "-" + dn(x.dt); }
  bool risky(const T& x) { return !x.contig() || x.t.bytes() != x.n() * esz(x.dt) || x.dt != kFloat32; }
  int norm(int d, int n) { return d < 0 ? d + n : d; }
  int dimOf(const T& x) { int n = x.sh.size(); return r.in(-n, n - 1); }

  void step() {
    if (live.size() < 3 || r.p(.1)) { T x = base(shape(), dtype()); x.how = "new"; live.push_back(x); return; }
    size_t pick = r.in(0, live.size() - 1);
    T x = live[pick];
    int nd = x.sh.size();
    switch (r.in(0, 25)) {
      case 0: case 1: case 2: case 3: {   // slice
        SliceIndices ix;
        Sh ns;
        std::vector<std::array<int, 2>> ss;
        for (int d = 0; d < nd; ++d) {
          int n = x.sh[d], s = r.in(0, n - 1), e = r.in(s + 1, n), st = r.p(.7) ? 1 : r.in(1, 3);
          int k = r.in(0, 7);
          if (k < 2) { s = 0; e = n; st = 1; ix.push_back(kAll); }
          else if (k == 2) { e = s + 1; st = 1; ix.push_back(r.p(.5) ? s : s - n); }
          else if (k == 3) { s = 0; ix.push_back({kAll, e, st}); }
          else if (k == 4) { e = n; ix.push_back({r.p(.5) ? s : s - n, kAll, st}); }
          else if (k == 5 && e < n) { ix.push_back({s - n, e - n, st}); }
          else if (k == 6 && e < n) { ix.push_back({s, e - n, st}); }
          else ix.push_back({s, e, st});
          ns.push_back((e - s + st - 1) / st);
          ss.push_back({s, st});
        }
        run("slice", cls(x), false, [&] { return std::vector<Tensor>{x.t[ix]}; }, [&](const std::vector<Tensor>& o) {
          T y; y.t = o[0]; y.dt = x.dt; y.sh = ns;
          for (size_t i = 0, n = num(ns); i < n; ++i) { auto q = unrank(i, ns); for (int d = 0; d < nd; ++d) q[d] = ss[d][0] + q[d] * ss[d][1]; y.c.push_back(x.c[rankOf(q, x.sh)]); }
          return std::vector<T>{y};
        });
        return;
      }
      case 4: {   // a slice that leaves the tensor
        SliceIndices ix(nd, SliceIndicesPair(kAll));
        int d = r.in(0, nd - 1), n = x.sh[d];
        int k = r.in(0, 2);
        if (k == 0) ix[d] = {0, n + (int)r.in(1, 3)};
        else if (k == 1) ix[d] = SliceIndicesPair(n + (int)r.in(0, 3));
        else ix[d] = {-n - (int)r.in(1, 3), kAll};
        hist += " outside";
        vh::cases("outside");
        *flag = 0;
        auto st = vh::in_child([&] {
          auto y = x.t[ix];
          std::set<char*> own;
          for (size_t j = 0; j < x.n(); ++j) own.insert(addr(x.t, unrank(j, x.sh), x.dt));
          // Allowed: fewer elements (as Python clamps). Not allowed: elements that are not the tensor's.
          for (size_t i = 0; i < y.numel(); ++i) {
            char* p = addr(y, unrank(i, y.shape()), x.dt);
            if (!own.count(p)) { *flag = 1; return; }
          }
        });
        if (*flag == 1 || (st != "ok" && st != "refused" && st != "threw")) vh::violation("slice:outside", vh::S("a slice [", ix[d].start_, ",", ix[d].end_, ") of a dimension of size ", n, " denotes elements outside the tensor (", st, ")"), hist);
        vh::observe("outside");
        return;
      }
      case 5: case 6: {   // view / flatten / squeeze / unsqueeze
        int k = r.in(0, 3);
        if (k == 0) {
          Sh f;
          size_t n = x.n();
          std::vector<int> ps;
          for (size_t m = n, p = 2; m > 1; ) { if (m % p == 0) { ps.push_back(p); m /= p; } else ++p; }
          for (int p : ps) { if (f.empty() || (r.p(.5) && f.size() < 6)) f.push_back(p); else r.pick(f) *= p; }
          if (f.empty() || r.p(.3)) f.insert(f.begin() + r.in(0, f.size()), 1);
          if (f.size() > 7) return;
          Sh q = f;
          if (r.p(.4)) q[r.in(0, q.size() - 1)] = -1;
          run("view", cls(x), true, [&] { return std::vector<Tensor>{x.t.view(q)}; }, [&](const std::vector<Tensor>& o) { T y = x; y.t = o[0]; y.sh = f; return std::vector<T>{y}; });
        } else if (k == 1) {
          int d = r.p(.3) ? 0x7fffffff : dimOf(x);
          Sh f;
          if (d == 0x7fffffff) f = {(int)x.n()};
          else { int dd = norm(d, nd); for (int i = 0; i < dd; ++i) f.push_back(x.sh[i]); int m = 1; for (int i = dd; i < nd; ++i) m *= x.sh[i]; f.push_back(m); }
          run("flatten", cls(x), true, [&] { return std::vector<Tensor>{x.t.flatten(d)}; }, [&](const std::vector<Tensor>& o) { T y = x; y.t = o[0]; y.sh = f; return std::vector<T>{y}; });
        } else if (k == 2) {
          if (nd >= 7) return;
          int d = r.in(-nd - 1, nd);
          Sh f = x.sh;
          f.insert(f.begin() + (d < 0 ? d + nd + 1 : d), 1);
          run("unsqueeze", cls(x), true, [&] { return std::vector<Tensor>{x.t.unsqueeze(d)}; }, [&](const std::vector<Tensor>& o) { T y = x; y.t = o[0]; y.sh = f; return std::vector<T>{y}; });
        } else {
          int d = r.p(.3) ? 0x7fffffff : dimOf(x);
          Sh f;
          if (d == 0x7fffffff) { for (auto v : x.sh) if (v != 1) f.push_back(v); if (f.empty()) f.push_back(1); }
          else { f = x.sh; int dd = norm(d, nd); if (f[dd] == 1 && nd > 1) f.erase(f.begin() + dd); else if (f[dd] == 1) return; }
          run("squeeze", cls(x), true, [&] { return std::vector<Tensor>{x.t.squeeze(d)}; }, [&](const std::vector<Tensor>& o) { T y = x; y.t = o[0]; y.sh = f; return std::vector<T>{y}; });
        }
        return;
      }
      case 7: {   // split / chunk
        int d = dimOf(x), dd = norm(d, nd), n = x.sh[dd];
        std::vector<int> sec;
        bool even = r.p(.5);
        if (even) { std::vector<int> ds; for (int k = 1; k <= n; ++k) if (n % k == 0) ds.push_back(k); int k = r.pick(ds); for (int i = 0; i < n / k; ++i) sec.push_back(k); }
        else { int m = n; while (m > 0) { int k = r.in(1, m); sec.push_back(k); m -= k; } if (sec.size() < 2) return; }
        auto ex = [&](const std::vector<Tensor>& o) {
          std::vector<T> v;
          int at = 0;
          for (size_t k = 0; k < sec.size() && k < o.size(); ++k) {
            T y; y.t = o[k]; y.dt = x.dt; y.sh = x.sh; y.sh[dd] = sec[k];
            for (size_t i = 0, m = num(y.sh); i < m; ++i) { auto q = unrank(i, y.sh); q[dd] += at; y.c.push_back(x.c[rankOf(q, x.sh)]); }
            at += sec[k];
            v.push_back(y);
          }
          return v;
        };
        if (even) run("split", cls(x), false, [&] { return F::split(x.t, sec[0], d); }, ex);
        else run("split", cls(x) + "-sections", false, [&] { return F::split(x.t, sec, d); }, ex);
        return;
      }
      case 8: case 9: case 10: {   // contiguous / clone / toVector
        auto ex = [&](const std::vector<Tensor>& o) {
          std::vector<uint64_t> v;
          for (int k : x.c) v.push_back(cell[k]);
          return std::vector<T>{fresh_like(o[0], x.dt, x.sh, v)};
        };
        int k = r.in(0, 2);
        if (k == 0) run("contiguous", cls(x), risky(x), [&] { return std::vector<Tensor>{x.t.contiguous()}; }, ex);
        else if (k == 1) run("clone", cls(x), risky(x), [&] { return std::vector<Tensor>{x.t.clone()}; }, ex);
        else if (x.dt == kFloat32) {
          hist += " toVector";
          vh::cases("toVector/" + cls(x));
          *flag = 0;
          auto st = vh::in_child([&] {
            auto v = x.t.toVector<float>();
            if (v.size() != x.n()) { *flag = 1; return; }
            for (size_t i = 0; i < v.size(); ++i) if (v[i] != (float)val(x.dt, cell[x.c[i]])) { *flag = 2; return; }
          });
          vh::observe("to_vector");
          if (*flag || (st != "ok" && st != "refused")) vh::violation("toVector:" + cls(x), "toVector of a " + cls(x) + " tensor does not give its elements", hist);
        }
        return;
      }
      case 11: case 12: {   // write through one tensor
        if (!x.n()) return;
        for (int k = r.in(1, 5); k > 0; --k) {
          size_t i = r.in(0, x.n() - 1);
          cell[x.c[i]] = bits(x.dt, fresh(x.dt));
          memcpy(x.t.offsettedPtr<char>(unrank(i, x.sh)), &cell[x.c[i]], esz(x.dt));
        }
        hist += " write";
        vh::observe("writes");
        for (auto& y : live) { auto d = diff(y); if (!d.empty()) { vh::violation("write", "after a write to a " + x.how + " tensor, a " + y.how + " tensor: " + d, hist); return; } }
        return;
      }
      case 13: case 14: {   // copy2: this into the argument
        // A destination of x's shape that shares nothing with it: a view of a new tensor.
        Sh big = x.sh;
        SliceIndices ix;
        std::vector<std::array<int, 2>> ss;
        bool plain = r.p(.3);
        for (int d = 0; d < nd; ++d) {
          int off = plain ? 0 : r.in(0, 2), st = plain || r.p(.8) ? 1 : 2, tail = plain ? 0 : r.in(0, 2);
          ss.push_back({off, st});
          big[d] = off + (x.sh[d] - 1) * st + 1 + tail;
          ix.push_back({off, off + (x.sh[d] - 1) * st + 1, st});
        }
        if (num(big) > 20000) return;
        T w = base(big, x.dt);
        w.how = "copy2-target";
        T y; y.t = w.t[ix]; y.dt = x.dt; y.sh = x.sh;
        for (size_t i = 0, n = num(y.sh); i < n; ++i) { auto q = unrank(i, y.sh); for (int d = 0; d < nd; ++d) q[d] = ss[d][0] + q[d] * ss[d][1]; y.c.push_back(w.c[rankOf(q, w.sh)]); }
        live.push_back(w);
        std::string cl = cls(x) + "-into-" + cls(y);
        auto old = cell;
        bool ok = run("copy2", cl, true, [&] { x.t.copy2(y.t); return std::vector<Tensor>{y.t}; }, [&](const std::vector<Tensor>& o) {
          for (size_t i = 0; i < y.c.size(); ++i) cell[y.c[i]] = cell[x.c[i]];
          return std::vector<T>{y};
        });
        if (!ok) { cell = old; for (size_t i = 0; i < live.size(); ++i) if (live[i].how == "copy2-target" && live[i].t.ptr<char>() == w.t.ptr<char>()) { live.erase(live.begin() + i); break; } }
        return;
      }
      case 15: {   // concat
        int d = dimOf(x), dd = norm(d, nd);
        std::vector<T> in{x};
        std::string cl = cls(x);
        bool child = risky(x);
        for (int k = r.in(1, 3); k > 0; --k) {
          Sh s = x.sh;
          s[dd] = r.in(1, 5);
          T y = base(s, x.dt);
          if (r.p(.3)) {
            // A strided one: every second along the last dimension.
            Sh b = s;
            b[nd - 1] *= 2;
            T w = base(b, x.dt);
            SliceIndices ix(nd, SliceIndicesPair(kAll));
            ix[nd - 1] = {0, b[nd - 1], 2};
            y.t = w.t[ix];
            y.c.clear();
            for (size_t i = 0, n = num(s); i < n; ++i) { auto q = unrank(i, s); q[nd - 1] *= 2; y.c.push_back(w.c[rankOf(q, b)]); }
            child = true;
            cl += "+strided";
          }
          if (r.p(.5)) in.push_back(y); else in.insert(in.begin(), y);
        }
        std::vector<Tensor> ts;
        for (auto& y : in) ts.push_back(y.t);
        run("concat", cl, child, [&] { return std::vector<Tensor>{F::concat(ts, d)}; }, [&](const std::vector<Tensor>& o) {
          Sh s = x.sh;
          s[dd] = 0;
          for (auto& y : in) s[dd] += y.sh[dd];
          std::vector<uint64_t> v(num(s));
          int at = 0;
          for (auto& y : in) { for (size_t i = 0; i < y.n(); ++i) { auto q = unrank(i, y.sh); q[dd] += at; v[rankOf(q, s)] = cell[y.c[i]]; } at += y.sh[dd]; }
          return std::vector<T>{fresh_like(o[0], x.dt, s, v)};
        });
        return;
      }
      case 16: {   // stack
        if (nd >= 6) return;
        int d = r.in(-nd - 1, nd), dd = d < 0 ? d + nd + 1 : d, k = r.in(1, 3);
        std::vector<T> in{x};
        for (int i = 0; i < k; ++i) in.push_back(base(x.sh, x.dt));
        std::vector<Tensor> ts;
        for (auto& y : in) ts.push_back(y.t);
        run("stack", cls(x), risky(x), [&] { return std::vector<Tensor>{F::stack(ts, d)}; }, [&](const std::vector<Tensor>& o) {
          Sh s = x.sh;
          s.insert(s.begin() + dd, in.size());
          std::vector<uint64_t> v(num(s));
          for (size_t j = 0; j < in.size(); ++j) for (size_t i = 0; i < x.n(); ++i) { auto q = unrank(i, x.sh); q.insert(q.begin() + dd, j); v[rankOf(q, s)] = cell[in[j].c[i]]; }
          return std::vector<T>{fresh_like(o[0], x.dt, s, v)};
        });
        return;
      }
      case 17: {   // repeat (each element of the dimension, m times)
        int d = dimOf(x), dd = norm(d, nd), m = r.in(2, 4);
        run("repeat", cls(x), risky(x), [&] { return std::vector<Tensor>{x.t.repeat(m, d)}; }, [&](const std::vector<Tensor>& o) {
          Sh s = x.sh;
          s[dd] *= m;
          std::vector<uint64_t> v;
          for (size_t i = 0, n = num(s); i < n; ++i) { auto q = unrank(i, s); q[dd] /= m; v.push_back(cell[x.c[rankOf(q, x.sh)]]); }
          return std::vector<T>{fresh_like(o[0], x.dt, s, v)};
        });
        return;
      }
      case 18: {   // gather
        int d = dimOf(x), dd = norm(d, nd);
        Sh is = shape(1, nd > 4 ? 1 : 2);
        bool fl = r.p(.3);
        T ix = base(is, fl ? kFloat32 : kInt32);
        std::vector<int> id;
        for (size_t i = 0; i < ix.n(); ++i) {
          int k = r.in(-x.sh[dd], x.sh[dd] - 1);
          id.push_back(norm(k, x.sh[dd]));
          if (fl) ix.t.ptr<float>()[i] = k; else ix.t.ptr<int32_t>()[i] = k;
        }
        run("gather", cls(x), risky(x), [&] { return std::vector<Tensor>{F::gather(x.t, d, ix.t)}; }, [&](const std::vector<Tensor>& o) {
          Sh s(x.sh.begin(), x.sh.begin() + dd);
          s.insert(s.end(), is.begin(), is.end());
          s.insert(s.end(), x.sh.begin() + dd + 1, x.sh.end());
          std::vector<uint64_t> v;
          for (size_t i = 0, n = num(s); i < n; ++i) {
            auto q = unrank(i, s);
            Sh w(q.begin() + dd, q.begin() + dd + is.size());
            Sh p(q.begin(), q.begin() + dd);
            p.push_back(id[rankOf(w, is)]);
            p.insert(p.end(), q.begin() + dd + is.size(), q.end());
            v.push_back(cell[x.c[rankOf(p, x.sh)]]);
          }
          return std::vector<T>{fresh_like(o[0], x.dt, s, v)};
        });
        return;
      }
      case 19: {   // indexing with lists and tensors
        ComplexIndexingList ix;
        std::vector<std::vector<int>> sel;
        Sh os;
        bool one = false, neg = false;
        for (int d = 0; d < nd; ++d) {
          int n = x.sh[d], k = r.in(0, 2);
          if (d == nd - 1 && !one) k = r.in(1, 2);
          std::vector<int> w;
          if (k == 0) {
            int s = r.in(0, n - 1), e = r.in(s + 1, n), st = r.in(1, 2);
            if (r.p(.4)) { s = 0; e = n; st = 1; ix.emplace_back(SliceIndicesPair(kAll)); }
            else if (r.p(.3) && e < n) { neg = true; ix.emplace_back(SliceIndicesPair(s, e - n, st)); }
            else ix.emplace_back(SliceIndicesPair(s, e, st));
            for (int i = s; i < e; i += st) w.push_back(i);
            os.push_back(w.size());
          } else {
            one = true;
            for (int i = r.in(1, 4); i > 0; --i) w.push_back(r.in(0, n - 1));
            if (k == 1) ix.emplace_back(std::vector<int32_t>(w));
            else { T y = base({(int)w.size()}, kInt32); for (size_t i = 0; i < w.size(); ++i) y.t.ptr<int32_t>()[i] = w[i]; ix.emplace_back(y.t); }
            os.push_back(w.size());
          }
          sel.push_back(w);
        }
        run("index", cls(x) + (neg ? "-neg" : ""), true, [&] { return std::vector<Tensor>{x.t[ix]}; }, [&](const std::vector<Tensor>& o) {
          std::vector<uint64_t> v;
          for (size_t i = 0, n = num(os); i < n; ++i) { auto q = unrank(i, os); for (int d = 0; d < nd; ++d) q[d] = sel[d][q[d]]; v.push_back(cell[x.c[rankOf(q, x.sh)]]); }
          return std::vector<T>{fresh_like(o[0], x.dt, os, v)};
        });
        return;
      }
      case 20: {   // pad
        std::vector<int32_t> pad;
        auto mode = (aops::PadMode)r.in(0, 3);
        bool refl = mode == aops::PadMode::kReflect;
        int k = r.in(1, nd);
        Sh s = x.sh, before(nd, 0);
        for (int i = 0; i < k; ++i) {
          int d = nd - 1 - i, hi = refl ? std::min(4, x.sh[d] - 1) : 4, a = r.in(0, hi), b = r.in(0, hi);
          pad.push_back(a); pad.push_back(b);
          s[d] += a + b;
          before[d] = a;
        }
        if (num(s) > 20000) return;
        float cv = r.in(-3, 3);
        run("pad", cls(x) + "-mode" + std::to_string((int)mode), risky(x), [&] { return std::vector<Tensor>{F::pad(x.t, pad, mode, cv)}; }, [&](const std::vector<Tensor>& o) {
          std::vector<uint64_t> v;
          for (size_t i = 0, n = num(s); i < n; ++i) {
            auto q = unrank(i, s);
            bool out = false;
            for (int d = 0; d < nd; ++d) {
              int n2 = x.sh[d], z = q[d] - before[d];
              if (z < 0 || z >= n2) {
                if (mode == aops::PadMode::kConstant) out = true, z = 0;
                else if (mode == aops::PadMode::kReflect) z = z < 0 ? -z : 2 * (n2 - 1) - z;
                else if (mode == aops::PadMode::kReplicate) z = z < 0 ? 0 : n2 - 1;
                else z = ((z % n2) + n2) % n2;
              }
              q[d] = z;
            }
            v.push_back(out ? bits(x.dt, cv) : cell[x.c[rankOf(q, x.sh)]]);
          }
          return std::vector<T>{fresh_like(o[0], x.dt, s, v)};
        });
        return;
      }
      case 21: {   // topk / argsort
        // With equal values the order among them is free.
        T y = x;
        if (r.p(.5) && x.contig()) {   // ties
          y = base(x.sh, x.dt);
          for (size_t i = 0; i < y.n(); ++i) { cell[y.c[i]] = bits(y.dt, r.in(0, 3)); memcpy(y.t.ptr<char>() + i * esz(y.dt), &cell[y.c[i]], esz(y.dt)); }
        }
        int d = dimOf(y), dd = norm(d, nd), n = y.sh[dd];
        bool desc = r.p(.5), sorted = r.p(.7), top = r.p(.5);
        int k = top ? r.in(1, n) : n;
        Sh s = y.sh;
        s[dd] = k;
        auto check = [&](const Tensor& val_t, const Tensor& idx) -> std::string {
          if (idx.shape() != s || idx.dtype() != kInt32) return "shape or type of the indices";
          for (size_t i = 0, m = num(s); i < m; ++i) {
            auto q = unrank(i, s);
            if (q[dd]) continue;
            std::vector<double> got, all;
            std::set<int> seen;
            for (int j = 0; j < k; ++j) {
              q[dd] = j;
              int at = *(int32_t*)addr(idx, q, kInt32);
              if (at < 0 || at >= n || !seen.insert(at).second) return vh::S("index ", at, " out of range or repeated");
              auto p = q;
              p[dd] = at;
              double v = val(y.dt, cell[y.c[rankOf(p, y.sh)]]);
              if (top && val(y.dt, peek(addr(val_t, q, y.dt), y.dt)) != v) return vh::S("value at ", vh::L(q), " is not the one its index names");
              got.push_back(v);
            }
            for (int j = 0; j < n; ++j) { auto p = q; p[dd] = j; all.push_back(val(y.dt, cell[y.c[rankOf(p, y.sh)]])); }
            std::sort(all.begin(), all.end());
            if (desc) std::reverse(all.begin(), all.end());
            if (top && !sorted) { std::sort(got.begin(), got.end()); if (desc) std::reverse(got.begin(), got.end()); }
            for (int j = 0; j < k; ++j) if (got[j] != all[j]) return vh::S("rank ", j, " has ", got[j], ", expected ", all[j]);
          }
          return "";
        };
        std::string op = top ? "topk" : "argsort", cl = cls(y);
        hist += " " + op + "/" + cl;
        vh::cases(op + "/" + cl + (desc ? "-desc" : "") + (sorted ? "-sorted" : ""));
        *flag = 0;
        auto st = vh::in_child([&] {
          said_reset();
          std::array<Tensor, 2> o;
          if (top) o = y.t.topk(k, d, desc, sorted); else o[1] = y.t.argsort(d, desc);
          if (said("[NYI]")) { *flag = 1; return; }
          auto e = check(o[0], o[1]);
          if (!e.empty()) { *flag = 2; vh::violation(op + ":" + cl, op + " of " + cl + " along " + std::to_string(d) + ": " + e, hist); }
        });
        if (st != "ok" && st != "refused" && st != "threw") vh::violation(op + ":" + cl, op + " ended in " + st, hist);
        if (st == "ok" && !*flag) vh::observe("ok_" + op);
        return;
      }
      case 22: case 23: case 25: {   // transpose / permute
        if (r.p(.5) && nd > 1) {
          if (x.dt != kFloat32 && x.dt != kInt64 && r.p(.7)) { x = base(x.sh, r.p(.6) ? kFloat32 : kInt64); }   // the types that have a kernel
          int a = dimOf(x), b = dimOf(x), aa = norm(a, nd), bb = norm(b, nd);
          if (aa == bb) return;
          run("transpose", cls(x) + "-r" + std::to_string(nd), risky(x), [&] { return std::vector<Tensor>{x.t.transpose(a, b)}; }, [&](const std::vector<Tensor>& o) {
            Sh s = x.sh;
            std::swap(s[aa], s[bb]);
            std::vector<uint64_t> v;
            for (size_t i = 0, n = num(s); i < n; ++i) { auto q = unrank(i, s); std::swap(q[aa], q[bb]); v.push_back(cell[x.c[rankOf(q, x.sh)]]); }
            return std::vector<T>{fresh_like(o[0], x.dt, s, v)};
          });
        } else {
          Sh p(nd), s(nd);
          std::iota(p.begin(), p.end(), 0);
          for (int i = nd - 1; i > 0; --i) std::swap(p[i], p[r.in(0, i)]);
          for (int i = 0; i < nd; ++i) s[i] = x.sh[p[i]];
          run("permute", cls(x), risky(x), [&] { return std::vector<Tensor>{x.t.permute(p)}; }, [&](const std::vector<Tensor>& o) {
            std::vector<uint64_t> v;
            for (size_t i = 0, n = num(s); i < n; ++i) { auto q = unrank(i, s); Sh w(nd); for (int d = 0; d < nd; ++d) w[p[d]] = q[d]; v.push_back(cell[x.c[rankOf(w, x.sh)]]); }
            return std::vector<T>{fresh_like(o[0], x.dt, s, v)};
          });
        }
        return;
      }
      case 24: {
        int k = r.in(0, 3);
        if (k == 0) {   // scatter to shards
          int d = r.in(0, nd - 1);
          Sh s = x.sh;
          s.erase(s.begin() + d);
          if (s.empty()) s = {1};
          std::vector<T> dst;
          std::vector<int64_t> ps;
          for (int i = 0; i < x.sh[d]; ++i) { dst.push_back(base(s, x.dt)); ps.push_back((int64_t)dst.back().t.ptr<char>()); }
          auto pt = Tensor::fromVector<int64_t>(ps, {(int)ps.size()}, kInt64);
          auto old = cell;
          bool ok = run("scatter2Shards", cls(x) + "-d" + (d == 0 ? "first" : d == nd - 1 ? "last" : "mid"), true, [&] {
            F::scatter2Shards(x.t, pt, d);
            std::vector<Tensor> o;
            for (auto& y : dst) o.push_back(y.t);
            return o; }, [&](const std::vector<Tensor>& o) {
            for (size_t j = 0; j < dst.size(); ++j) for (size_t i = 0; i < dst[j].n(); ++i) {
              auto q = unrank(i, s);
              if (nd == 1) q.clear();
              q.insert(q.begin() + d, j);
              cell[dst[j].c[i]] = cell[x.c[rankOf(q, x.sh)]];
            }
            return dst; });
          if (!ok) cell = old;
        } else if (k == 1) {   // masked scatter: the masked elements, in order, from the source's elements in order
          Sh ms = x.sh;
          if (r.p(.5)) ms[r.in(0, nd - 1)] = 1;
          T m = base(ms, kInt8);
          for (size_t i = 0; i < m.n(); ++i) m.t.ptr<int8_t>()[i] = r.p(.4);
          std::vector<size_t> at;
          for (size_t i = 0; i < x.n(); ++i) { auto q = unrank(i, x.sh); for (int d = 0; d < nd; ++d) if (ms[d] == 1) q[d] = 0; if (m.t.ptr<int8_t>()[rankOf(q, ms)]) at.push_back(i); }
          if (at.empty()) return;
          int w = 1;
          if (nd > 1 && ms[nd - 1] == 1 && at.size() % x.sh[nd - 1] == 0) w = x.sh[nd - 1];
          T src = base({(int)at.size() / w, w}, x.dt);
          auto old = cell;
          bool ok = run("maskedScatter", cls(x), true, [&] { F::maskedScatter(x.t, m.t, src.t); return std::vector<Tensor>{x.t}; }, [&](const std::vector<Tensor>&) {
            for (size_t i = 0; i < at.size(); ++i) cell[x.c[at[i]]] = cell[src.c[i]];
            return std::vector<T>{x}; });
          if (!ok) cell = old;
        } else if (k == 2) {   // causal mask
          int B = r.in(1, 2), H = r.in(1, 3), S = r.p(.2) ? 1 : r.in(1, 21), D = r.p(.4) ? S : S + r.in(0, 20), win = r.in(1, 8);
          bool sw = r.p(.5);
          DataTypes d = r.p(.6) ? kFloat32 : kFloat16;
          T y = base({B, H, S, D}, d);
          aops::CausalMaskOpOptions co;
          co.sliding_window = sw;
          co.window_size = win;
          std::string cl = vh::S(dn(d), sw ? "-window" : "", S == 1 ? "-one" : "", D == S ? "-square" : "-past");
          run("causalMask", cl, true, [&] { return Context::instance().buildOpAndSubmitTask(OpTypes::kCausalMask, co, {y.t}); }, [&](const std::vector<Tensor>& o) {
            std::vector<uint64_t> v;
            double m = d == kFloat32 ? -1e10 : -65500.;
            for (size_t i = 0; i < y.n(); ++i) { auto q = unrank(i, y.sh); int pos = D - S + q[2]; bool see = q[3] <= pos && (!sw || q[3] > pos - win); v.push_back(see ? cell[y.c[i]] : bits(d, m)); }
            return std::vector<T>{fresh_like(o[0], d, y.sh, v)};
          });
        } else {   // fills
          Sh s = shape();
          DataTypes d = dtype();
          int f = r.in(0, 2);
          if (f < 2) {
            run(f ? "ones" : "zeros", dn(d), false, [&] { return std::vector<Tensor>{f ? Tensor::ones(s, d) : Tensor::zeros(s, d)}; },
                [&](const std::vector<Tensor>& o) { return std::vector<T>{fresh_like(o[0], d, s, std::vector<uint64_t>(num(s), bits(d, f)))}; });
          } else {
            int a = r.in(0, 20), st = r.in(1, 4), n = r.in(1, 40);
            if (esz(d) == 1) { a = r.in(0, 5); st = 1; }
            run("arange", dn(d), false, [&] { return std::vector<Tensor>{Tensor::arange(a, a + n * st, st, d)}; }, [&](const std::vector<Tensor>& o) {
              std::vector<uint64_t> v;
              for (int i = 0; i < n; ++i) v.push_back(bits(d, a + i * st));
              return std::vector<T>{fresh_like(o[0], d, {n}, v)}; });
          }
        }
        return;
      }
    }
  }
};

int main() {
  out_fd = memfd_create("out", 0);
  dup2(out_fd, 1);
  flag = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  initializeContext();
  Logger::level() = LogLevel::kFatal;
  uint64_t s = vh::seed();
  int worlds = vh::scale(60, 700);
  for (int i = 0; i < worlds; ++i) {
    vh::begin(vh::S("tensors, history ", i));
    cell.clear();
    World w(s * 7919 + i);
    for (int k = 0; k < 90; ++k) w.step();
    if (i < 2) vh::sample(w.hist.substr(0, 280));
    vh::observe("histories");
    ftruncate(out_fd, 0);
    lseek(out_fd, 0, SEEK_SET);
  }
  return vh::finish();
}

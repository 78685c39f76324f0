// Shared by the operator drivers: tensors in many layouts, element access through
// strides, and the comparison of a result with a reference in double precision.
#pragma once
#include <sys/mman.h>
#include "vh.hpp"
#include "mllm/mllm.hpp"
#include "qref.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/engine/DispatcherManager.hpp"
#include "mllm/engine/Task.hpp"
#include "mllm/nn/Functional.hpp"
using namespace mllm;
typedef std::vector<int32_t> Sh;

static int out_fd;
static long said_at = 0;
static void said_reset() { fflush(stdout); said_at = lseek(out_fd, 0, SEEK_END); }
static bool said(const char* what) {
  fflush(stdout);
  long end = lseek(out_fd, 0, SEEK_END);
  if (end <= said_at) return false;
  std::string s(end - said_at, 0);
  if (pread(out_fd, s.data(), s.size(), said_at) < 0) return false;
  return s.find(what) != std::string::npos;
}

template<class F> static void each(const Sh& sh, F f) {
  for (int d : sh) if (d <= 0) return;
  Sh ix(sh.size(), 0);
  for (;;) {
    f(ix);
    int i = (int)sh.size() - 1;
    for (; i >= 0; --i) { if (++ix[i] < sh[i]) break; ix[i] = 0; }
    if (i < 0) return;
  }
}
static size_t num(const Sh& s) { size_t n = 1; for (auto v : s) n *= v; return n; }
static int64_t off(const Tensor& t, const Sh& ix) {
  auto st = t.stride();
  int64_t o = 0;
  for (size_t i = 0; i < ix.size(); ++i) o += (int64_t)ix[i] * st[i];
  return o;
}
static size_t esz(DataTypes d) { return d == kInt64 || d == kUInt64 ? 8 : d == kFloat32 || d == kInt32 || d == kUInt32 ? 4 : d == kFloat16 || d == kInt16 || d == kUInt16 ? 2 : 1; }
static const char* tn(DataTypes d) {
  switch (d) { case kFloat32: return "f32"; case kFloat16: return "f16"; case kInt64: return "i64"; case kInt32: return "i32"; case kInt16: return "i16"; case kInt8: return "i8";
    case kUInt64: return "u64"; case kUInt32: return "u32"; case kUInt16: return "u16"; case kUInt8: return "u8"; default: return "other"; }
}
static double rd(const char* p, DataTypes d) {
  switch (d) { case kFloat32: return *(float*)p; case kFloat16: return h2f(*(mllm_fp16_t*)p); case kInt64: return (double)*(int64_t*)p; case kInt32: return *(int32_t*)p; case kInt16: return *(int16_t*)p;
    case kInt8: return *(int8_t*)p; case kUInt64: return (double)*(uint64_t*)p; case kUInt32: return *(uint32_t*)p; case kUInt16: return *(uint16_t*)p; default: return *(uint8_t*)p; }
}
static void wr(char* p, DataTypes d, double v) {
  switch (d) { case kFloat32: *(float*)p = (float)v; break; case kFloat16: *(mllm_fp16_t*)p = f2h((float)v); break; case kInt64: *(int64_t*)p = (int64_t)v; break; case kInt32: *(int32_t*)p = (int32_t)v; break;
    case kInt16: *(int16_t*)p = (int16_t)v; break; case kInt8: *(int8_t*)p = (int8_t)v; break; case kUInt64: *(uint64_t*)p = (uint64_t)v; break; case kUInt32: *(uint32_t*)p = (uint32_t)v; break;
    case kUInt16: *(uint16_t*)p = (uint16_t)v; break; default: *(uint8_t*)p = (uint8_t)v; }
}
static double get(const Tensor& t, const Sh& ix) { return rd(t.ptr<char>() + off(t, ix) * esz(t.dtype()), t.dtype()); }

struct Val {
  Tensor t = Tensor::nil(), whole = Tensor::nil();
  std::string lay;
  std::vector<double> v;          // row-major values of t
  std::vector<char> before;       // bytes of whole
  double at(const Sh& ix) const { auto sh = t.shape(); size_t o = 0; for (size_t i = 0; i < ix.size(); ++i) o = o * sh[i] + ix[i]; return v[o]; }
};
static std::vector<char> bytes(const Tensor& w) { return {w.ptr<char>(), w.ptr<char>() + w.numel() * esz(w.dtype())}; }

// a tensor of this shape, plain, or a view: a slice along one dimension, or two dimensions swapped
template<class G> static Val make(vh::Rng& r, const Sh& sh, DataTypes dt, G gen, double pview) {
  Val v;
  int n = sh.size();
  auto fill = [&](const Sh& s) {
    Tensor w = Tensor::empty(s, dt, kCPU).alloc();
    for (size_t i = 0; i < num(s); ++i) wr(w.ptr<char>() + i * esz(dt), dt, gen());
    return w;
  };
  v.lay = "plain";
  if (r.p(pview)) {
    if (n >= 2 && r.p(.5)) {
      int a = r.in(0, n - 2), b = r.in(a + 1, n - 1);
      auto s2 = sh;
      std::swap(s2[a], s2[b]);
      v.whole = fill(s2);
      v.t = v.whole.transpose(a, b);
      if (v.t.shape() == sh && v.t.ptr<char>() == v.whole.ptr<char>()) v.lay = v.t.isContiguous() ? "plain" : "swapped";
      else { v.whole = fill(sh); v.t = v.whole; }
    } else if (n >= 1) {
      int d = r.in(0, n - 1), a = r.in(0, 2), b = r.in(0, 2);
      auto s2 = sh;
      s2[d] += a + b;
      v.whole = fill(s2);
      SliceIndices si;
      for (int i = 0; i < n; ++i) si.push_back(i == d ? SliceIndicesPair(a, a + sh[d]) : SliceIndicesPair(kAll));
      v.t = v.whole[si];
      if (v.t.shape() == sh) v.lay = v.t.isContiguous() ? (a || b ? "slice0" : "plain") : vh::S("slice");
      else { v.whole = fill(sh); v.t = v.whole; }
    }
  }
  if (v.t.isNil()) { v.whole = fill(sh); v.t = v.whole; }
  each(sh, [&](auto& ix) { v.v.push_back(get(v.t, ix)); });
  v.before = bytes(v.whole);
  return v;
}
static std::vector<Tensor> run1(const std::shared_ptr<BaseOp>& op, const std::vector<Tensor>& in) {
  auto task = Task::createExecuteOpTask(op, in, {});
  Context::instance().dispatcherManager()->submit((int)kCPU, task);
  return task->outputs;
}
template<class O> static std::vector<Tensor> op(OpTypes t, const O& o, const std::vector<Tensor>& in, const std::vector<std::pair<std::string, Tensor>>& params = {}) {
  auto p = Context::instance().getBackend(kCPU)->createOp(t, o);
  if (!params.empty()) {
    auto pf = ParameterFile::create();
    for (auto& [n, w] : params) pf->push("op." + n, w);
    p->setName("op");
    p->load(pf);
  }
  return run1(p, in);
}
static Tensor param(const char* n, const Sh& sh, DataTypes dt) { return Tensor::empty(sh, dt, kCPU).setName(n).setMemType(kGlobal).alloc(); }

// every input is as it was, but for the elements of `written`
static void untouched(const std::string& cl, const std::string& what, const Val& v, const Tensor* written = nullptr) {
  auto now = bytes(v.whole);
  if (!written) { if (now != v.before) vh::violation(cl + "_input", what + ": an input, or what is around it, changed"); return; }
  std::set<int64_t> mine;
  size_t e = esz(v.t.dtype());
  each(written->shape(), [&](auto& ix) { mine.insert((written->ptr<char>() - v.whole.ptr<char>()) / (int64_t)e + off(*written, ix)); });
  for (size_t i = 0; i < now.size() / e; ++i)
    if (!mine.count(i) && memcmp(&now[i * e], &v.before[i * e], e)) { vh::violation(cl + "_around", what + ": storage outside of the view written in place changed"); return; }
}
// want(ix) -> {value, tolerance}
template<class W> static bool compare(const std::string& cl, const std::string& what, const Tensor& y, const Sh& sh, DataTypes dt, W want) {
  if (y.shape() != sh) { vh::violation(cl + "_shape", vh::S(what, ": result has shape ", vh::L(y.shape()), ", expected ", vh::L(sh))); return false; }
  if (y.dtype() != dt) { vh::violation(cl + "_type", vh::S(what, ": result has type ", nameOfType(y.dtype()))); return false; }
  bool bad = false;
  each(sh, [&](auto& ix) {
    if (bad) return;
    auto [w, tol] = want(ix);
    double g = get(y, ix);
    if (std::isinf(tol) || w == g || (std::isnan(w) && std::isnan(g))) return;
    if (!(fabs(g - w) <= tol)) { bad = true; vh::violation(cl, vh::S(what, ": element ", vh::L(ix), " is ", g, ", expected ", w)); }
  });
  return !bad;
}
static double eps(DataTypes dt) { return dt == kFloat16 ? 0x1p-10 : dt == kFloat32 ? 3e-7 : 0; }
static Sh rshape(vh::Rng& r, int lo, int hi, int cap) {
  int n = r.in(lo, hi);
  Sh s(n);
  for (auto& d : s) d = r.p(.15) ? 1 : r.p(.12) ? r.in(9, cap) : r.in(2, 6);
  while (num(s) > 4000) for (auto& d : s) if (d > 2) d = d / 2;
  return s;
}
// run a case in this process, or (one that may stop the program) in a child
static void guarded(bool risky, const std::string& cl, const std::string& what, const std::function<void()>& f) {
  vh::begin(what);
  if (!risky) { f(); return; }
  auto st = vh::in_child(f, 60);
  if (st == "refused" || st == "threw") vh::observe("stopped");
  else if (st != "ok") vh::violation(cl + "_" + (st == "hang" ? "hang" : "crash"), what + ": " + st);
}

// standard output goes to a memory file, where refusals are looked for
static void ops_setup() {
  out_fd = memfd_create("out", 0);
  dup2(out_fd, 1);
  mllm::initializeContext();
  Logger::level() = LogLevel::kFatal;
}
static void ops_trim() { if (ftruncate(out_fd, 0)) exit(9); lseek(out_fd, 0, SEEK_SET); }

// C10: matrix products of the CPU backend: the llamafile kernels, the x86 ones,
// and the MatMul and Linear operators over them. Every element of every result
// is compared with the product in double precision of what the operands hold.
#include "qref.hpp"
#include <thread>
#include "mllm/mllm.hpp"
#include "mllm/core/ParameterFile.hpp"
#include "mllm/core/aops/LinearOp.hpp"
#include "mllm/core/aops/MatMulOp.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/engine/DispatcherManager.hpp"
#include "mllm/engine/Task.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/vec_dot_type.hpp"
#include "mllm/backends/cpu/kernels/common/llamafile/llamafile_sgemm.hpp"
#include "mllm/backends/cpu/kernels/x86/mllm_blas/mllm_blas_sgemm.hpp"
using namespace mllm;

static const Fmt* bfmt(DataTypes d) { for (auto& f : FMTS) if (f.dt == d) return &f; return nullptr; }
static std::string nm(DataTypes d) { return d == kFloat32 ? "f32" : d == kFloat16 ? "f16" : d == kGGUF_Q8_0 ? "q8_0" : d == kGGUF_Q4_0 ? "q4_0" : bfmt(d) ? bfmt(d)->name : "?"; }

// rows of `ld` units (elements or blocks), of which k hold the operand
struct Mat {
  DataTypes dt; int rows, k; int64_t ld;
  std::vector<uint8_t> bytes;          // exactly what the kernel may read
  std::vector<double> v, mass;         // rows x k
};
static float val(vh::Rng& r, int kind) {
  switch (kind) {
    case 0: return r.f(-1, 1);
    case 1: return r.in(-3, 3);
    case 2: return r.p(.7) ? 0.f : (float)r.f(-2, 2);
    case 3: return (float)(exp(r.f(-8, 6)) * (r.p(.5) ? 1 : -1));
    default: return (float)r.f(0, 2);
  }
}
static Mat mat(vh::Rng& r, DataTypes dt, int rows, int k, int pad) {
  Mat m{dt, rows, k, 0, {}, {}, {}};
  int kind = r.in(0, 4);
  m.v.resize((size_t)rows * k); m.mass.resize((size_t)rows * k);
  if (dt == kFloat32 || dt == kFloat16) {
    size_t e = dt == kFloat32 ? 4 : 2;
    m.ld = k + pad;
    m.bytes.assign(((rows - 1) * m.ld + k) * e, 0);
    for (int64_t i = 0; i < (int64_t)(m.bytes.size() / e); ++i) {
      float x = i % m.ld < k ? val(r, kind) : NAN;
      if (dt == kFloat32) memcpy(&m.bytes[i * 4], &x, 4);
      else { auto h = f2h(x); x = h2f(h); memcpy(&m.bytes[i * 2], &h, 2); }
      if (i % m.ld < k) { size_t o = (i / m.ld) * k + i % m.ld; m.v[o] = x; m.mass[o] = fabs(x); }
    }
  } else {
    auto& f = *bfmt(dt);
    int kb = k / f.lanes, pb = pad / 8;
    m.ld = kb + pb;
    m.bytes = raw(f, (rows - 1) * m.ld + kb, r);
    for (int i = 0; i < rows; ++i) for (int b = 0; b < kb; ++b)
      deq_block(dt, m.bytes.data() + (i * m.ld + b) * f.bytes, &m.v[(size_t)i * k + b * f.lanes], &m.mass[(size_t)i * k + b * f.lanes]);
  }
  return m;
}
static bool close(double g, double w, double mass, int k) { return fabs(g - w) <= (3e-7 * (8 + sqrt((double)k))) * mass + 1e-30; }

static void sgemm(vh::Rng& r) {
  static const DataTypes P[][2] = {{kFloat32, kFloat32}, {kFloat16, kFloat32}, {kGGUF_Q8_0, kGGUF_Q8_0}, {kGGUF_Q4_0, kGGUF_Q8_0},
                                   {kGGUF_Q8_0, kGGUF_Q4_0}, {kFloat32, kFloat16}, {kGGUF_Q4_K, kGGUF_Q8_K}};
  auto& p = P[r.p(.85) ? r.in(0, 3) : r.in(4, 6)];
  bool q = bfmt(p[0]) || bfmt(p[1]);
  int lanes = std::max(bfmt(p[0]) ? bfmt(p[0])->lanes : 1, bfmt(p[1]) ? bfmt(p[1])->lanes : 1);
  int m = r.p(.3) ? r.in(1, 4) : r.in(1, r.p(.1) ? 70 : 24), n = r.p(.3) ? r.in(1, 4) : r.in(1, r.p(.1) ? 70 : 24);
  int k = q ? lanes * r.in(1, 4) : r.p(.7) ? 8 * r.in(1, 14) : r.in(1, 100);
  Mat A = mat(r, p[0], m, k, r.p(.5) ? r.in(0, 20) : 0), B = mat(r, p[1], n, k, r.p(.5) ? r.in(0, 20) : 0);
  int64_t ldc = m + (r.p(.5) ? r.in(0, 9) : 0);
  std::vector<float> C((size_t)(n - 1) * ldc + m, -777.f), bias(m);
  for (auto& b : bias) b = r.f(-3, 3);
  bool wb = r.p(.4);
  int nth = r.p(.4) ? 1 : r.in(2, 8);
  int64_t kk = q ? k / lanes : k;
  std::string cl = nm(p[0]) + "x" + nm(p[1]), what = vh::S(cl, " m=", m, " n=", n, " k=", k, " lda=", A.ld, " ldb=", B.ld, " ldc=", ldc, " threads=", nth, wb ? " bias" : "");
  vh::begin("sgemm " + what);
  std::vector<int> ok(nth, -1);
  auto part = [&](int i) { ok[i] = cpu::llamafile_sgemm(m, n, kk, A.bytes.data(), A.ld, B.bytes.data(), B.ld, C.data(), ldc, i, nth, p[0], p[1], kFloat32, wb ? bias.data() : nullptr, kFloat32); };
  if (r.p(.5)) { std::vector<std::thread> th; for (int i = 0; i < nth; ++i) th.emplace_back(part, i); for (auto& t : th) t.join(); }
  else { std::vector<int> o(nth); for (int i = 0; i < nth; ++i) o[i] = i; for (int i = nth - 1; i > 0; --i) std::swap(o[i], o[r.in(0, i)]); for (int i : o) part(i); }
  bool chk = cpu::check_llamafile_sgemm(m, n, kk, p[0], p[1], kFloat32, A.ld, B.ld, ldc);
  for (int i = 0; i < nth; ++i) if (ok[i] != (int)chk) vh::violation("sgemm_check:" + cl, vh::S(what, ": the check says ", chk, ", thread ", i, " returned ", ok[i]));
  if (!chk) {
    for (float c : C) if (c != -777.f) { vh::violation("sgemm_refused_writes:" + cl, what + ": refused, yet the result was written"); break; }
    vh::observe("sgemm_refused");
    return;
  }
  for (int j = 0; j < n; ++j) for (int64_t i = 0; i < ldc; ++i) {
    if (j == n - 1 && i >= m) break;
    float g = C[j * ldc + i];
    if (i >= m) { if (g != -777.f) { vh::violation("sgemm_padding:" + cl, vh::S(what, ": wrote beyond row ", j, " of the result")); return; } continue; }
    double w = wb ? bias[i] : 0, ms = fabs(w);
    for (int l = 0; l < k; ++l) { w += A.v[i * k + l] * B.v[(size_t)j * k + l]; ms += A.mass[i * k + l] * B.mass[(size_t)j * k + l]; }
    if (!close(g, w, ms, k)) { vh::violation("sgemm:" + cl, vh::S(what, ": element (", j, ",", i, ") is ", g, ", expected ", w)); return; }
  }
  vh::observe("sgemm"); vh::observe("sgemm_" + cl); vh::observe("elements", (long)m * n);
  vh::cases(vh::S("sgemm ", cl, " ", m, "x", n, " ", nth));
  vh::seen("tile", vh::S(cl, " ", m % 12, " ", n % 12));
}

static void blas(vh::Rng& r) {
  int M = r.p(.4) ? 1 : r.in(1, 20), N = r.in(1, r.p(.2) ? 80 : 24), K = r.p(.3) ? r.in(1, 8) : r.in(1, 100), Bn = r.p(.5) ? 1 : r.in(2, 4), nth = r.p(.5) ? 1 : r.in(2, 4);
  bool tb = r.p(.5), bias = (tb || M == 1) && r.p(.4);
  int ea = r.p(.3) ? r.in(1, 9) : 0, eb = r.p(.3) ? r.in(1, 9) : 0, ed = r.p(.3) ? r.in(1, 9) : 0;
  if (Bn == 1) ea = eb = ed = 0;
  int sa = M * K + ea, sb = r.p(.2) ? 0 : N * K + eb, sd = M * N + ed;
  std::vector<float> A((size_t)sa * (Bn - 1) + M * K), B((size_t)sb * (Bn - 1) + N * K), C(N), D((size_t)sd * (Bn - 1) + M * N, -777.f);
  int ka = r.in(0, 4), kb = r.in(0, 4);
  for (auto& x : A) x = val(r, ka);
  for (auto& x : B) x = val(r, kb);
  for (auto& x : C) x = val(r, 0);
  std::string what = vh::S("x86 product M=", M, " N=", N, " K=", K, " batch=", Bn, tb ? " transposed" : "", bias ? " bias" : "", " threads=", nth);
  vh::begin(what);
  if (Bn == 1) cpu::x86::mllm_blas_matmul_fp32(M, K, N, D.data(), A.data(), B.data(), bias ? C.data() : nullptr, false, tb, nth);
  else cpu::x86::mllm_blas_batch_matmul_fp32(Bn, M, K, N, sd, sa, sb, 0, D.data(), A.data(), B.data(), bias ? C.data() : nullptr, false, tb, nth);
  for (int b = 0; b < Bn; ++b) for (int i = 0; i < sd; ++i) {
    if (b == Bn - 1 && i >= M * N) break;
    float g = D[(size_t)b * sd + i];
    if (i >= M * N) { if (g != -777.f) { vh::violation("blas_padding", what + ": wrote between two batches of the result"); return; } continue; }
    int y = i / N, x = i % N;
    double w = bias ? C[x] : 0, ms = fabs(w);
    for (int l = 0; l < K; ++l) { double t = (double)A[(size_t)b * sa + y * K + l] * B[(size_t)b * sb + (tb ? x * K + l : l * N + x)]; w += t; ms += fabs(t); }
    if (!close(g, w, ms, K)) { vh::violation(vh::S("blas:", M == 1 ? "gemv" : "gemm", tb ? "_t" : "_nt"), vh::S(what, ": element (", y, ",", x, ") of batch ", b, " is ", g, ", expected ", w)); return; }
  }
  vh::observe("blas"); vh::cases(vh::S("blas ", tb, " ", M, " ", N % 8, " ", K % 32, " ", Bn)); vh::observe("elements", (long)M * N * Bn);
}

// ---- operators ------------------------------------------------------------
static float get(const Tensor& t, const std::vector<int32_t>& ix) {
  auto st = t.stride();
  int64_t o = 0;
  for (size_t i = 0; i < ix.size(); ++i) o += (int64_t)ix[i] * st[i];
  return t.ptr<float>()[o];
}
static void put(const Tensor& t, const std::vector<int32_t>& ix, float v) {
  auto st = t.stride();
  int64_t o = 0;
  for (size_t i = 0; i < ix.size(); ++i) o += (int64_t)ix[i] * st[i];
  t.ptr<float>()[o] = v;
}
template<class F> static void each(const std::vector<int32_t>& sh, F f) {
  std::vector<int32_t> ix(sh.size(), 0);
  for (;;) {
    f(ix);
    int i = sh.size() - 1;
    for (; i >= 0; --i) { if (++ix[i] < sh[i]) break; ix[i] = 0; }
    if (i < 0) return;
  }
}
// a float tensor: plain, or a view (slice of a bigger one, or transposed)
static Tensor tens(vh::Rng& r, std::vector<int32_t> sh, std::string& layout, double pview) {
  int kind = r.in(0, 4);
  Tensor t;
  layout = "plain";
  int n = sh.size();
  if (r.p(pview)) {
    int how = r.in(0, 2);
    if (how == 0 && n >= 2) {   // two dimensions swapped
      int a = r.in(0, n - 2), b = r.in(a + 1, n - 1);
      auto s2 = sh;
      std::swap(s2[a], s2[b]);
      Tensor base = Tensor::empty(s2, kFloat32, kCPU).alloc();
      t = base.transpose(a, b);
      if (!t.isContiguous() && t.shape() == sh && t.ptr<float>() == base.ptr<float>()) { layout = "swapped"; each(sh, [&](auto& ix) { put(t, ix, val(r, kind)); }); return t; }
    } else {
      int d = how == 1 ? n - 1 : r.in(0, n - 1), a = r.in(0, 3), b = r.in(0, 3);
      auto s2 = sh;
      s2[d] += a + b;
      Tensor base = Tensor::empty(s2, kFloat32, kCPU).alloc();
      each(s2, [&](auto& ix) { put(base, ix, 1e6f); });
      SliceIndices si;
      for (int i = 0; i < n; ++i) si.push_back(i == d ? SliceIndicesPair(a, a + sh[d]) : SliceIndicesPair(kAll));
      t = base[si];
      if (t.shape() == sh) { layout = vh::S("slice", d == n - 1 ? "_last" : d == n - 2 ? "_row" : "_batch"); each(sh, [&](auto& ix) { put(t, ix, val(r, kind)); }); return t; }
    }
    layout = "plain";
  }
  t = Tensor::empty(sh, kFloat32, kCPU).alloc();
  each(sh, [&](auto& ix) { put(t, ix, val(r, kind)); });
  return t;
}
static std::vector<Tensor> run1(const std::shared_ptr<BaseOp>& op, const std::vector<Tensor>& in) {
  auto task = Task::createExecuteOpTask(op, in, {});
  Context::instance().dispatcherManager()->submit((int)kCPU, task);
  return task->outputs;
}
// Runs in a child where the input is one the operator may refuse.
template<class F> static void attempt(const std::string& cl, const std::string& what, bool mayRefuse, F f) {
  if (!mayRefuse) { f(); return; }
  auto s = vh::in_child(f, 30);
  if (s == "ok") vh::observe("view_ok");
  else if (s == "refused" || s == "threw") vh::observe("view_refused");
  else if (s != "sanitizer") vh::violation(cl + "_view:" + s, what + ": " + s);
}

static void matmul(vh::Rng& r) {
  int nb = r.p(.25) ? 0 : r.in(1, 2);
  std::vector<int32_t> a, b;
  for (int i = 0; i < nb; ++i) a.push_back(r.in(1, 3));
  b = a;
  int M = r.p(.3) ? 1 : r.in(1, 12), N = r.in(1, 20), K = r.p(.4) ? 8 * r.in(1, 8) : r.in(1, 70);
  bool tb = r.p(.5);
  a.push_back(M); a.push_back(K);
  b.push_back(tb ? N : K); b.push_back(tb ? K : N);
  aops::MatMulOpOptions o;
  o.transpose_b = tb;
  auto mt = r.in(0, 3);
  o.matmul_type = mt <= 1 ? aops::MatMulOpType::kDefault : mt == 2 && tb ? aops::MatMulOpType::kGGUF : aops::MatMulOpType::kMllmBlas;
  int nth = r.p(.5) ? 1 : r.in(2, 4);
  o.setThreads(nth);
  std::string la, lb;
  Tensor x = tens(r, a, la, .25), y = tens(r, b, lb, .25);
  bool view = !x.isContiguous() || !y.isContiguous();
  if (!view) la = lb = "plain";
  if (view) o.setThreads(nth = 1);     // a forked child has no OpenMP threads
  std::string cl = vh::S("matmul:", o.matmul_type == aops::MatMulOpType::kDefault ? "default" : o.matmul_type == aops::MatMulOpType::kGGUF ? "gguf" : "blas", tb ? "_t" : "_nt");
  std::string what = vh::S(cl, " ", vh::L(a), "(", la, ") x ", vh::L(b), "(", lb, ") threads=", nth);
  vh::begin(what);
  auto body = [&] {
    auto op = Context::instance().getBackend(kCPU)->createOp(OpTypes::kMatMul, o);
    auto out = run1(op, {x, y});
    if (out.size() != 1) { vh::violation(cl, what + ": no result"); return; }
    auto sh = a; sh.back() = N;
    if (out[0].shape() != sh) { vh::violation(cl + "_shape", vh::S(what, ": shape ", vh::L(out[0].shape()), ", expected ", vh::L(sh))); return; }
    bool bad = false;
    each(sh, [&](auto& ix) {
      if (bad) return;
      auto p = ix, q = ix;
      int n = sh.size(), i = ix[n - 1];
      double w = 0, ms = 0;
      for (int l = 0; l < K; ++l) { p[n - 1] = l; if (tb) { q[n - 2] = i; q[n - 1] = l; } else { q[n - 2] = l; q[n - 1] = i; } double t = (double)get(x, p) * get(y, q); w += t; ms += fabs(t); }
      float g = get(out[0], ix);
      if (!close(g, w, ms, K)) { bad = true; vh::violation(cl + (view ? "_view" : ""), vh::S(what, ": element ", vh::L(ix), " is ", g, ", expected ", w)); }
    });
  };
  attempt(cl, what, view, body);
  vh::observe("matmul"); if (view) vh::observe("matmul_views");
  vh::cases(vh::S(cl, nb, " ", M, " ", N % 8, " ", K % 8, la, lb));
}

static void linear(vh::Rng& r) {
  static const DataTypes W[] = {kFloat32, kFloat32, kFloat16, kGGUF_Q4_0, kGGUF_Q8_0, kGGUF_Q4_K, kGGUF_Q6_K, kGGUF_Q2_K, kGGUF_Q3_K};
  DataTypes wt = W[r.in(0, 8)];
  auto f = bfmt(wt);
  int nb = r.p(.4) ? 0 : r.in(1, 2);
  int M = r.p(.3) ? 1 : r.in(1, 10), N = r.in(1, r.p(.2) ? 60 : 20), K = f ? f->lanes * r.in(1, f->lanes == 32 ? 6 : 2) : wt == kFloat16 ? 8 * r.in(1, 9) : r.p(.2) ? r.in(1, 3) : r.in(4, 80);
  bool bias = r.p(.5), direct = r.p(.4);
  int nth = r.p(.5) ? 1 : r.in(2, 4);
  aops::LinearOpOptions o{.in_channels = K, .out_channels = N, .bias = bias, .impl_type = direct || (f && r.p(.5)) ? aops::LinearImplTypes::kGGUF : aops::LinearImplTypes::kDefault};
  if (wt == kFloat32 && r.p(.2)) o.impl_type = aops::LinearImplTypes::kMllmBlas;
  o.setThreads(nth);
  std::vector<int32_t> sh;
  for (int i = 0; i < nb; ++i) sh.push_back(r.in(1, 3));
  sh.push_back(M); sh.push_back(K);
  std::string lay;
  Tensor x = tens(r, sh, lay, .15);
  bool view = !x.isContiguous();
  if (!view) lay = "plain";
  if (view) o.setThreads(nth = 1);
  Mat w = mat(r, wt, N, K, 0);
  std::string cl = vh::S("linear:", nm(wt), o.impl_type == aops::LinearImplTypes::kGGUF ? "_gguf" : o.impl_type == aops::LinearImplTypes::kMllmBlas ? "_blas" : "");
  std::string what = vh::S(cl, " input ", vh::L(sh), "(", lay, ") weight [", N, ",", K, "]", bias ? " bias" : "", " threads=", nth);
  vh::begin(what);
  Tensor wtens = Tensor::empty({N, K}, wt, kCPU).setName("lin.weight").setMemType(kGlobal).alloc();
  memcpy(wtens.ptr<mllm_byte_t>(), w.bytes.data(), w.bytes.size());
  auto pf = ParameterFile::create();
  pf->push("lin.weight", wtens);
  std::vector<float> bv(N, 0.f);
  if (bias) {
    Tensor bt = Tensor::empty({N}, kFloat32, kCPU).setName("lin.bias").setMemType(kGlobal).alloc();
    for (int i = 0; i < N; ++i) { bv[i] = r.f(-2, 2); put(bt, {i}, bv[i]); }
    pf->push("lin.bias", bt);
  }
  auto body = [&] {
    auto op = Context::instance().getBackend(kCPU)->createOp(OpTypes::kLinear, o);
    op->setName("lin");
    op->load(pf);
    auto out = run1(op, {x});
    if (out.size() != 1) { vh::violation(cl, what + ": no result"); return; }
    auto so = sh; so.back() = N;
    if (out[0].shape() != so) { vh::violation(cl + "_shape", vh::S(what, ": shape ", vh::L(out[0].shape()), ", expected ", vh::L(so))); return; }
    bool bad = false;
    auto vd = cpu::ggml::getRuntimeTypeTraits(wt).vec_dot_type;
    auto vf = bfmt(vd);
    auto rows = sh; rows.pop_back();
    each(rows, [&](auto& ix) {
      if (bad) return;
      // how far the activations may be rounded: half a step of their block
      std::vector<double> a(K), e(K, 0.);
      auto p = ix; p.push_back(0);
      for (int l = 0; l < K; ++l) { p.back() = l; a[l] = get(x, p); }
      if (f && vf) for (int b = 0; b < K; b += vf->lanes) {
        double am = 0;
        for (int l = 0; l < vf->lanes; ++l) am = std::max(am, fabs(a[b + l]));
        double st = vd == kGGUF_Q8_0 ? am / 127 * .5 + am * 0x1p-11 + 127 * 0x1p-25 : am / 127 * .5 + am * 1e-6;
        for (int l = 0; l < vf->lanes; ++l) e[b + l] = st;
      }
      for (int i = 0; i < N && !bad; ++i) {
        double s = bv[i], ms = fabs(s), sl = 0;
        for (int l = 0; l < K; ++l) { s += a[l] * w.v[(size_t)i * K + l]; ms += fabs(a[l]) * w.mass[(size_t)i * K + l]; sl += e[l] * fabs(w.v[(size_t)i * K + l]); ms += e[l] * w.mass[(size_t)i * K + l]; }
        p.back() = i;
        float g = get(out[0], p);
        if (!(fabs(g - s) <= sl * 1.0001 + (3e-7 * (8 + sqrt((double)K))) * ms + 1e-30)) { bad = true; vh::violation(cl + (view ? "_view" : ""), vh::S(what, ": element ", vh::L(p), " is ", g, ", expected ", s, f ? vh::S(" within ", sl) : "")); }
      }
    });
  };
  attempt(cl, what, view, body);
  vh::observe("linear"); vh::observe("linear_" + nm(wt)); if (view) vh::observe("linear_views");
  vh::cases(vh::S(cl, nb, " ", M, " ", N % 8, " ", K, lay, bias));
}

int main() {
  initializeContext();
  vh::Rng r(vh::seed());
  int T = vh::scale(1500, 40000);
  for (int i = 0; i < T; ++i) { sgemm(r); blas(r); }
  for (int i = 0; i < T / 2; ++i) { matmul(r); linear(r); }
  vh::sample("products of every kernel and operator against double precision");
  return vh::finish();
}

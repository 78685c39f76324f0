// C11: rotary embeddings, spectral transforms and interpolation of the CPU
// backend, each against a reference in double precision written from the definition.
#include <complex>
#include "vh.hpp"
#include "mllm/mllm.hpp"
#include "qref.hpp"
#include "mllm/core/aops/ISTFTOp.hpp"
#include "mllm/core/aops/InterpolateOp.hpp"
#include "mllm/core/aops/MultimodalRoPEOp.hpp"
#include "mllm/core/aops/RoPEOp.hpp"
#include "mllm/core/aops/STFTOp.hpp"
#include "mllm/core/aops/VisionRoPEOp.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/engine/DispatcherManager.hpp"
#include "mllm/engine/Task.hpp"
using namespace mllm;
typedef std::vector<int32_t> Sh;

template<class F> static void each(const Sh& sh, F f) {
  for (int d : sh) if (d <= 0) return;
  Sh ix(sh.size(), 0);
  for (;;) {
    f(ix);
    int i = sh.size() - 1;
    for (; i >= 0; --i) { if (++ix[i] < sh[i]) break; ix[i] = 0; }
    if (i < 0) return;
  }
}
static int64_t off(const Tensor& t, const Sh& ix) {
  auto st = t.stride();
  int64_t o = 0;
  for (size_t i = 0; i < ix.size(); ++i) o += (int64_t)ix[i] * st[i];
  return o;
}
static double get(const Tensor& t, const Sh& ix) { return t.dtype() == kFloat16 ? (double)h2f(t.ptr<mllm_fp16_t>()[off(t, ix)]) : t.ptr<float>()[off(t, ix)]; }
static void put(const Tensor& t, const Sh& ix, float v) { if (t.dtype() == kFloat16) t.ptr<mllm_fp16_t>()[off(t, ix)] = f2h(v); else t.ptr<float>()[off(t, ix)] = v; }
static std::vector<Tensor> run1(const std::shared_ptr<BaseOp>& op, const std::vector<Tensor>& in) {
  auto task = Task::createExecuteOpTask(op, in, {});
  Context::instance().dispatcherManager()->submit((int)kCPU, task);
  return task->outputs;
}
template<class O> static std::vector<Tensor> op(OpTypes t, const O& o, const std::vector<Tensor>& in) {
  return run1(Context::instance().getBackend(kCPU)->createOp(t, o), in);
}
// in place: the outputs are the inputs, but the input storage stays valid
static Tensor fresh(vh::Rng& r, const Sh& sh, DataTypes dt, double lo, double hi) {
  Tensor t = Tensor::empty(sh, dt, kCPU).alloc();
  each(sh, [&](auto& ix) { put(t, ix, (float)r.f(lo, hi)); });
  return t;
}
// a tensor of this shape: plain, a slice along one dimension, or two middle dimensions swapped
static Tensor tens(vh::Rng& r, const Sh& sh, DataTypes dt, double lo, double hi, std::string& lay, double pview, Tensor* whole = nullptr) {
  lay = "plain";
  int n = sh.size();
  if (r.p(pview) && n == 4) {
    if (r.p(.5)) {
      auto s2 = sh;
      std::swap(s2[1], s2[2]);
      Tensor b = fresh(r, s2, dt, lo, hi), t = b.transpose(1, 2);
      if (t.shape() == sh && t.ptr<char>() == b.ptr<char>()) { lay = t.isContiguous() ? "plain" : "swapped"; if (whole) *whole = b; return t; }
    } else {
      int d = r.in(0, n - 1), a = r.in(0, 2), b = r.in(0, 2);
      auto s2 = sh;
      s2[d] += a + b;
      Tensor w = fresh(r, s2, dt, lo, hi);
      SliceIndices si;
      for (int i = 0; i < n; ++i) si.push_back(i == d ? SliceIndicesPair(a, a + sh[d]) : SliceIndicesPair(kAll));
      Tensor t = w[si];
      if (t.shape() == sh) { lay = vh::S("slice", d); if (whole) *whole = w; return t; }
    }
  }
  Tensor t = fresh(r, sh, dt, lo, hi);
  if (whole) *whole = t;
  return t;
}
static std::vector<double> all(const Tensor& t) { std::vector<double> v; each(t.shape(), [&](auto& ix) { v.push_back(get(t, ix)); }); return v; }

// ---- rotary embeddings ----------------------------------------------------
static void rope(vh::Rng& r) {
  int kind = r.in(0, 4);      // 0-2 RoPE, 3 multimodal, 4 vision
  DataTypes dt = r.p(.4) ? kFloat16 : kFloat32;
  int B = r.in(1, 3), S = r.in(1, 7), H = r.in(1, 4), half = r.p(.5) ? 4 * r.in(1, 6) : r.in(1, 13), D = 2 * half;
  bool bshd = kind == 4 || r.p(.5), inplace = kind < 3 && r.p(.3);
  int part = -1;
  if (kind < 3 && r.p(.4)) { D = half * 2 + r.in(0, 9); part = half * 2; }
  Sh sh = bshd ? Sh{B, S, H, D} : Sh{B, H, S, D};
  std::string lay, ls;
  Tensor whole = Tensor::nil();
  Tensor x = tens(r, sh, dt, -3, 3, lay, .35, &whole);
  int w = kind < 3 && r.p(.5) ? std::max(D, half) : half;
  Sh ss = kind < 3 ? Sh{B, S, w} : Sh{S, w};
  Tensor sn = fresh(r, ss, dt, -1, 1), cs = fresh(r, ss, dt, -1, 1);
  auto xs = all(x), s0 = all(sn), c0 = all(cs), w0 = all(whole);
  const char* nm = kind < 3 ? "rope" : kind == 3 ? "mrope" : "vrope";
  std::string cl = vh::S(nm, ":", dt == kFloat16 ? "f16" : "f32", bshd ? "_bshd" : "_bhsd");
  std::string what = vh::S(cl, " ", vh::L(sh), " (", lay, ") partial ", part, inplace ? " in place" : "", " sin ", vh::L(ss));
  vh::begin(what);
  std::vector<Tensor> out;
  if (kind < 3) {
    aops::RoPEOpOptions o;
    o.input_type = bshd ? aops::RoPEOpOptionsInputType::kBSHD : aops::RoPEOpOptionsInputType::kBHSD;
    o.partial_dim = part;
    o.setInplace(inplace);
    out = op(OpTypes::kRoPE, o, {x, sn, cs});
  } else if (kind == 3) {
    aops::MultimodalRoPEOpOptions o(aops::MultimodalRoPEOpOptionsType::kQwen2VL, aops::Qwen2VLMultimodalRoPEOpOptions{10000.f, 4096, {2, 1, 1}},
                                    bshd ? aops::MultimodalRoPEOpOptionsInputType::kBSHD : aops::MultimodalRoPEOpOptionsInputType::kBHSD);
    out = op(OpTypes::kMultimodalRoPE, o, {x, sn, cs});
  } else {
    aops::VisionRoPEOpOptions o{.type = aops::VisionRoPEOpOptionsType::kQwen2VL, .qwen2vl_rope_op_options = {.dims = D, .spatial_merge_size = 2, .theta = 10000.f}};
    out = op(OpTypes::kVisionRoPE, o, {x, sn, cs});
  }
  if (out.size() != 1 || out[0].shape() != sh || out[0].dtype() != dt) { vh::violation(cl + "_shape", what + ": wrong number, shape or type of results"); return; }
  Tensor y = out[0];
  if (inplace && y.ptr<char>() != x.ptr<char>()) vh::violation(cl + "_inplace", what + ": the result of an operation in place is elsewhere");
  size_t n = 0;
  bool bad = false;
  each(sh, [&](auto& ix) {
    int d = ix[3], b = ix[0], s = bshd ? ix[1] : ix[2];
    size_t me = n++;
    if (bad) return;
    double want, mass;
    if (d >= 2 * half) { want = xs[me]; mass = 0; }
    else {
      int j = d % half;
      size_t si = kind < 3 ? ((size_t)b * S + s) * w + j : (size_t)s * w + j;
      double a = xs[me - d + j], c = xs[me - d + j + half];
      want = d < half ? a * c0[si] - c * s0[si] : a * s0[si] + c * c0[si];
      mass = d < half ? fabs(a * c0[si]) + fabs(c * s0[si]) : fabs(a * s0[si]) + fabs(c * c0[si]);
    }
    double g = get(y, ix), tol = dt == kFloat16 ? mass * 0x1p-9 + 1e-7 : mass * 4e-7;
    if (!(fabs(g - want) <= tol)) { bad = true; vh::violation(cl, vh::S(what, ": element ", vh::L(ix), " is ", g, ", expected ", want)); }
  });
  if (all(sn) != s0 || all(cs) != c0) vh::violation(cl + "_tables", what + ": the tables of sines and cosines changed");
  if (!inplace && all(whole) != w0) vh::violation(cl + "_input", what + ": the input changed");
  if (inplace && lay != "plain") {   // everything around the view
    auto w1 = all(whole);
    size_t diff = 0;
    std::set<int64_t> mine;
    each(sh, [&](auto& ix) { mine.insert(x.ptr<char>() - whole.ptr<char>() + off(x, ix) * (dt == kFloat16 ? 2 : 4)); });
    size_t k = 0;
    each(whole.shape(), [&](auto& ix) { if (w1[k] != w0[k] && !mine.count(off(whole, ix) * (dt == kFloat16 ? 2 : 4))) diff++; k++; });
    if (diff) vh::violation(cl + "_inplace", vh::S(what, ": ", diff, " elements outside of the view changed"));
  }
  vh::observe("rope"); vh::observe(nm); vh::observe(vh::S(nm, dt == kFloat16 ? "_f16" : "_f32")); if (lay != "plain") vh::observe("rope_views"); if (inplace) vh::observe("rope_inplace"); if (part > 0) vh::observe("rope_partial");
  vh::observe("elements", (long)n);
  vh::cases(vh::S(cl, half, " ", D - 2 * half, lay, inplace));
}

// ---- spectra --------------------------------------------------------------
typedef std::complex<double> C;
static std::vector<float> window(vh::Rng& r, int n) {
  std::vector<float> w(n);
  int k = r.in(0, 2);
  for (int i = 0; i < n; ++i) w[i] = k == 0 ? 1.f : k == 1 ? .5f - .5f * cosf(2 * M_PI * (i + .5) / n) + .01f : (float)r.f(.1, 1);
  return w;
}
static int pick_nfft(vh::Rng& r) {
  switch (r.in(0, 5)) {
    case 0: return 1 << r.in(1, 7);
    case 1: return r.in(2, 40);
    case 2: return 1 << r.in(1, 5);
    case 3: return r.in(41, 150);
    case 4: return r.p(.2) ? (r.p(.5) ? 400 : 512) : r.in(2, 24);
    default: return r.in(3, 33);
  }
}
static void stft(vh::Rng& r) {
  int nf = pick_nfft(r), win = r.p(.75) ? nf : r.in(1, nf), hop = r.p(.2) ? 0 : r.in(1, nf), B = r.in(1, 3);
  if (hop == 0 && nf < 4) hop = 1;
  bool center = r.p(.5), cplx = r.p(.5), one = B == 1 && r.p(.5);
  int refl = r.in(0, 1), L = r.p(.06) ? r.in(1, nf) : nf + r.in(0, 3 * nf);
  aops::STFTOpOptions o;
  o.n_fft = nf; o.hop_length = hop; o.win_length = win == nf && r.p(.5) ? 0 : win; o.center = center; o.pad_mode = refl ? "reflect" : "constant"; o.return_complex = cplx;
  int hp = hop ? hop : nf / 4, pad = center ? nf / 2 : 0;
  std::vector<float> w = window(r, win);
  Tensor wt = Tensor::empty({win}, kFloat32, kCPU).alloc();
  memcpy(wt.ptr<float>(), w.data(), win * 4);
  Tensor x = fresh(r, one ? Sh{L} : Sh{B, L}, kFloat32, -1, 1);
  std::string cl = vh::S("stft:", (nf & (nf - 1)) ? "any" : "pow2", center ? refl ? "_reflect" : "_constant" : "");
  std::string what = vh::S(cl, " n_fft ", nf, " window ", win, " hop ", hp, " signal ", B, "x", L, cplx ? " complex" : "");
  vh::begin(what);
  bool impossible = (center && refl && pad >= L) || L + 2 * pad < win;
  auto body = [&] {
    auto out = op(OpTypes::kSTFT, o, {x, wt});
    if (impossible) return;
    int T = 1 + (L + 2 * pad - win) / hp, F = nf / 2 + 1;
    Sh want = cplx ? Sh{B, F, T} : Sh{B, F, T, 2};
    if (out.size() != 1 || out[0].shape() != want || out[0].dtype() != (cplx ? kComplexFloat32 : kFloat32)) { vh::violation("stft_shape", vh::S(what, ": shape ", out.empty() ? "" : vh::L(out[0].shape()), ", expected ", vh::L(want))); return; }
    auto src = [&](int b, int i) -> double {
      i -= pad;
      if (i < 0 || i >= L) { if (!center || !refl) return 0; if (i < 0) i = -i; if (i >= L) i = 2 * L - 2 - i; }
      return x.ptr<float>()[(size_t)b * L + i];
    };
    std::vector<C> tw(nf);
    for (int i = 0; i < nf; ++i) tw[i] = std::polar(1., -2 * M_PI * i / nf);
    for (int b = 0; b < B; ++b) for (int t = 0; t < T; ++t) {
      std::vector<double> f(win);
      double l1 = 0;
      for (int i = 0; i < win; ++i) { f[i] = src(b, t * hp + i) * w[i]; l1 += fabs(f[i]); }
      for (int k = 0; k < F; ++k) {
        C s = 0;
        for (int i = 0; i < win; ++i) s += f[i] * tw[(int64_t)i * k % nf];
        C g = cplx ? C(out[0].ptr<std::complex<float>>()[off(out[0], {b, k, t})]) : C(get(out[0], {b, k, t, 0}), get(out[0], {b, k, t, 1}));
        if (!(std::abs(g - s) <= l1 * (2e-6 + nf * 4e-6) + 1e-6)) { vh::violation(cl, vh::S(what, ": bin ", k, " of frame ", t, " of signal ", b, " is ", g, ", expected ", s)); return; }
      }
    }
    vh::observe("bins", (long)B * T * F);
  };
  if (impossible) {
    auto s = vh::in_child(body, 30);
    if (s != "refused" && s != "threw") { if (s != "sanitizer") vh::violation("stft_short", what + ": a signal too short for one frame is not refused: " + s); }
    vh::observe("stft_short"); return;
  }
  body();
  vh::observe("stft"); if (B > 1) vh::observe("stft_batch"); vh::observe((nf & (nf - 1)) ? "stft_any" : "stft_pow2");
  vh::cases(vh::S(cl, nf, " ", win == nf, " ", hp, " ", B, cplx));
}
static void istft(vh::Rng& r) {
  int nf = pick_nfft(r), win = r.p(.8) ? nf : r.in(1, nf), B = r.in(1, 3), T = r.in(1, 9);
  int mode = r.in(0, 2);     // 0 no padding, 1 center, 2 same
  if (mode == 2) win = nf;
  int hop = r.in(1, std::max(1, win / (r.p(.7) ? 2 : 1)));
  bool cplx = r.p(.5);
  aops::ISTFTOpOptions o;
  o.n_fft = nf; o.hop_length = hop; o.win_length = win == nf && r.p(.5) ? 0 : win; o.center = mode == 1; o.pad_mode = mode == 2 ? "same" : "constant";
  int full = (T - 1) * hop + nf, pad = mode == 1 ? nf / 2 : mode == 2 ? (win - hop) / 2 : 0, L = full - 2 * pad, F = nf / 2 + 1;
  if (L < 1) return;
  std::vector<float> w = window(r, win);
  Tensor wt = Tensor::empty({win}, kFloat32, kCPU).alloc();
  memcpy(wt.ptr<float>(), w.data(), win * 4);
  std::string cl = vh::S("istft:", (nf & (nf - 1)) ? "any" : "pow2", mode == 1 ? "_center" : mode == 2 ? "_same" : "");
  std::string what = vh::S(cl, " n_fft ", nf, " window ", win, " hop ", hop, " frames ", B, "x", T, cplx ? " complex" : "");
  vh::begin(what);
  Sh sh = cplx ? Sh{B, F, T} : Sh{B, F, T, 2};
  Tensor x = Tensor::empty(sh, cplx ? kComplexFloat32 : kFloat32, kCPU).alloc();
  float* p = x.ptr<float>();
  for (size_t i = 0; i < (size_t)B * F * T * 2; ++i) p[i] = r.f(-1, 1);
  auto out = op(OpTypes::kISTFT, o, {x, wt});
  if (out.size() != 1 || out[0].shape() != Sh{B, L}) { vh::violation("istft_shape", vh::S(what, ": shape ", out.empty() ? "" : vh::L(out[0].shape()), ", expected [", B, ",", L, "]")); return; }
  std::vector<C> tw(nf);
  for (int i = 0; i < nf; ++i) tw[i] = std::polar(1., 2 * M_PI * i / nf);
  for (int b = 0; b < B; ++b) {
    std::vector<double> y(full, 0.), e(full, 0.), m(full, 0.);
    for (int t = 0; t < T; ++t) {
      std::vector<C> X(nf);
      double l1 = 0;
      for (int k = 0; k < F; ++k) { size_t i = (((size_t)b * F + k) * T + t) * 2; X[k] = C(p[i], p[i + 1]); }
      for (int k = F; k < nf; ++k) X[k] = std::conj(X[nf - k]);
      for (auto& c : X) l1 += std::abs(c);
      for (int i = 0; i < win; ++i) {
        C s = 0;
        for (int k = 0; k < nf; ++k) s += X[k] * tw[(int64_t)i * k % nf];
        y[t * hop + i] += s.real() / nf * w[i]; e[t * hop + i] += (double)w[i] * w[i]; m[t * hop + i] += l1 / nf * w[i];
      }
    }
    for (int i = 0; i < L; ++i) {
      double v = y[i + pad], ms = m[i + pad], en = e[i + pad];
      if (en > 1e-9) { v /= en; ms /= en; } else if (en > 1e-11) continue;
      double g = out[0].ptr<float>()[(size_t)b * L + i];
      if (!(fabs(g - v) <= ms * (2e-6 + nf * 4e-6) + 1e-6)) { vh::violation(cl, vh::S(what, ": sample ", i, " of signal ", b, " is ", g, ", expected ", v)); return; }
    }
  }
  vh::observe("istft"); vh::observe("samples", (long)B * L); vh::observe(mode == 0 ? "istft_plain" : mode == 1 ? "istft_center" : "istft_same");
  vh::cases(vh::S(cl, nf, " ", win == nf, " ", hop, " ", B, cplx));
}

// ---- interpolation --------------------------------------------------------
static double pos(int o, int in, int out, bool ac) { return ac ? (out == 1 ? 0. : (double)o * (in - 1) / (out - 1)) : (o + .5) * in / out - .5; }
static void interp(vh::Rng& r) {
  using M = aops::InterpolateOpMode;
  M mode = (M)r.in(0, 4);
  int sp = mode == M::kNearest ? r.in(1, 3) : mode == M::kLinear ? 1 : mode == M::kTrilinear ? 3 : 2;
  Sh sh{(int)r.in(1, 2), (int)r.in(1, 3)}, so;
  for (int i = 0; i < sp; ++i) sh.push_back(r.in(1, sp == 3 ? 6 : 14));
  so = sh;
  aops::InterpolateOpOptions o;
  o.mode = mode;
  o.align_corners = mode != M::kNearest && r.p(.5);
  o.antialias = (mode == M::kBilinear || mode == M::kBicubic) && r.p(.35);
  bool fac = r.p(.3);
  if (fac) { static const float fs[] = {.5f, 1.f, 2.f, 1.5f, 3.f, .25f, 2.25f}; for (int i = 0; i < sp; ++i) { float f = fs[r.in(0, 6)]; if ((int)(sh[2 + i] * f) < 1) f = 1.f; o.scale_factor.push_back(f); so[2 + i] = (int)(sh[2 + i] * f); } }
  else for (int i = 0; i < sp; ++i) { int d = r.p(.2) ? 1 : r.in(1, sp == 3 ? 8 : 20); o.size.push_back(d); so[2 + i] = d; }
  static const char* nm[] = {"nearest", "linear", "bilinear", "bicubic", "trilinear"};
  std::string cl = vh::S("interpolate:", nm[(int)mode], o.align_corners ? "_corners" : "", o.antialias ? "_antialias" : "");
  std::string what = vh::S(cl, " ", vh::L(sh), " to ", vh::L(so));
  vh::begin(what);
  Tensor x = fresh(r, sh, kFloat32, -2, 2);
  auto x0 = all(x);
  auto out = op(OpTypes::kInterpolate, o, {x});
  if (out.size() != 1 || out[0].shape() != so) { vh::violation("interpolate_shape", vh::S(what, ": shape ", out.empty() ? "" : vh::L(out[0].shape()), ", expected ", vh::L(so))); return; }
  int dim[3] = {1, 1, 1}, od[3] = {1, 1, 1};
  for (int i = 0; i < sp; ++i) { dim[3 - sp + i] = sh[2 + i]; od[3 - sp + i] = so[2 + i]; }
  std::vector<double> src = x0;
  if (o.antialias) {   // smoothed by a Gaussian of half the larger scale when shrinking
    double sc[2];
    for (int i = 0; i < 2; ++i) { int in = dim[1 + i], ou = od[1 + i]; sc[i] = o.align_corners ? (ou == 1 ? 0. : (double)(in - 1) / (ou - 1)) : (double)in / ou; }
    if (sc[0] > 1 || sc[1] > 1) {
      double sg = .5 * std::max(sc[0], sc[1]);
      int rad = std::max(1, (int)ceil((float)(3 * (float)sg)));
      std::vector<double> k(2 * rad + 1);
      double sum = 0;
      for (int i = -rad; i <= rad; ++i) sum += k[i + rad] = exp(-(double)i * i / (2 * sg * sg));
      for (auto& v : k) v /= sum;
      for (int ax = 2; ax >= 1; --ax) {
        auto t = src;
        for (int c = 0; c < sh[0] * sh[1]; ++c) for (int h = 0; h < dim[1]; ++h) for (int w = 0; w < dim[2]; ++w) {
          double a = 0;
          for (int i = -rad; i <= rad; ++i) { int hh = ax == 1 ? std::clamp(h + i, 0, dim[1] - 1) : h, ww = ax == 2 ? std::clamp(w + i, 0, dim[2] - 1) : w; a += k[i + rad] * t[((size_t)c * dim[1] + hh) * dim[2] + ww]; }
          src[((size_t)c * dim[1] + h) * dim[2] + w] = a;
        }
      }
    }
  }
  // candidates of nearest per axis; weights of the others
  bool bad = false;
  auto at = [&](int c, int a, int b, int d) { return src[(((size_t)c * dim[0] + std::clamp(a, 0, dim[0] - 1)) * dim[1] + std::clamp(b, 0, dim[1] - 1)) * dim[2] + std::clamp(d, 0, dim[2] - 1)]; };
  for (int c = 0; c < sh[0] * sh[1] && !bad; ++c) for (int a = 0; a < od[0] && !bad; ++a) for (int b = 0; b < od[1] && !bad; ++b) for (int d = 0; d < od[2] && !bad; ++d) {
    int o3[3] = {a, b, d};
    std::vector<std::pair<int, double>> w[3];
    std::vector<int> near[3];
    for (int i = 0; i < 3; ++i) {
      double p = pos(o3[i], dim[i], od[i], o.align_corners);
      int f = (int)floor(p);
      double t = p - f;
      if (mode == M::kNearest) { if (t <= .5 + 1e-4) near[i].push_back(f); if (t >= .5 - 1e-4) near[i].push_back(f + 1); }
      else if (i < 3 - sp) w[i] = {{0, 1.}};
      else if (mode == M::kBicubic) {
        double t2 = t * t, t3 = t2 * t;
        w[i] = {{f - 1, -.5 * t3 + t2 - .5 * t}, {f, 1.5 * t3 - 2.5 * t2 + 1}, {f + 1, -1.5 * t3 + 2 * t2 + .5 * t}, {f + 2, .5 * t3 - .5 * t2}};
      } else w[i] = {{f, 1 - t}, {f + 1, t}};
    }
    double g = out[0].ptr<float>()[(((size_t)c * od[0] + a) * od[1] + b) * od[2] + d], want = 0;
    bool ok;
    if (mode == M::kNearest) { ok = false; for (int i : near[0]) for (int j : near[1]) for (int k : near[2]) { want = at(c, i, j, k); if ((float)want == (float)g) ok = true; } }
    else {
      for (auto& [i, u] : w[0]) for (auto& [j, v] : w[1]) for (auto& [k, z] : w[2]) want += u * v * z * at(c, i, j, k);
      ok = fabs(g - want) <= 2e-4;
    }
    if (!ok) { bad = true; vh::violation(cl, vh::S(what, ": channel ", c, " at (", a, ",", b, ",", d, ") is ", g, ", expected ", want)); }
  }
  if (all(x) != x0) vh::violation(cl + "_input", what + ": the input changed");
  vh::observe("interpolate"); vh::observe(vh::S("interp_", nm[(int)mode]));
  vh::cases(vh::S(cl, vh::L(sh), vh::L(so)));
}

int main() {
  mllm::initializeContext();
  vh::Rng r(vh::seed());
  int n = vh::scale(1500, 40000);
  for (int i = 0; i < n; ++i) {
    rope(r); rope(r); stft(r); istft(r); interp(r); interp(r);
  }
  return vh::finish();
}

// C09: the block-quantised number formats of the CPU backend. References (in
// qref.hpp) are written from the block layouts, not from the kernels.
#include "qref.hpp"
#include "mllm/mllm.hpp"
#include "mllm/core/DataTypes.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/vec_dot.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/vec_dot_type.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q2.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q3.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q4.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q6.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.hpp"
static void quantizers(vh::Rng& r, const Fmt& f, int iters) {
  auto tt = cpu::ggml::getRuntimeTypeTraits(f.dt);
  if (!tt.from_float || f.dt == kGGUF_IQ2_XXS) return;
  for (int it = 0; it < iters; ++it) {
    int nb = r.in(1, 5), n = nb * f.lanes;
    std::string kind;
    auto x = row(n, r, kind);
    if (f.dt == kGGUF_Q8_0 && r.p(.1)) { kind = "ints127"; for (auto& e : x) e = r.in(-127, 127); for (int b = 0; b < nb; ++b) x[b * 32 + r.in(0, 31)] = r.p(.5) ? 127 : -127; }
    if (f.dt == kGGUF_Q4_0 && r.p(.1)) { kind = "ints8"; for (auto& e : x) e = r.in(-7, 7); for (int b = 0; b < nb; ++b) x[b * 32 + r.in(0, 31)] = -8; }
    auto keep = x;
    std::vector<uint8_t> q(nb * f.bytes, 0xAA), q1(nb * f.bytes, 0xAA);
    vh::begin(vh::S("quantize ", f.name, " ", kind, " n=", n));
    tt.from_float(x.data(), q.data(), n);
    if (memcmp(x.data(), keep.data(), n * 4)) vh::violation(vh::S("quantize_input:", f.name), vh::S(f.name, ": quantising a row changes the row"), kind);
    for (int b = 0; b < nb; ++b) { std::vector<float> xb(x.begin() + b * f.lanes, x.begin() + (b + 1) * f.lanes); tt.from_float(xb.data(), q1.data() + b * f.bytes, f.lanes); }
    auto D = deq(f, q), D1 = deq(f, q1);
    for (int i = 0; i < n; ++i) if (D.v[i] != D1.v[i]) { vh::violation(vh::S("quantize_block:", f.name), vh::S(f.name, ": a block of a longer row is quantised differently from the same block alone (element ", i, ": ", D.v[i], " and ", D1.v[i], ")"), kind); break; }
    std::vector<float> y(n, NAN);
    tt.to_float(q.data(), y.data(), n);
    for (int i = 0; i < n; ++i) {
      double tol = 2e-6 * D.mass[i] + 1e-30;
      if (!(fabs(y[i] - D.v[i]) <= tol)) { vh::violation(vh::S("dequantize:", f.name), vh::S(f.name, ": element ", i, " of a quantised row reads ", y[i], ", its block says ", D.v[i]), kind); break; }
    }
    // how far a value may be from what its block can hold
    double ss = 0, se = 0;
    for (int b = 0; b < nb; ++b) {
      const float* xb = x.data() + b * f.lanes;
      int g = f.dt == kGGUF_Q4_K ? 32 : f.lanes == 32 ? 32 : f.dt == kGGUF_Q8_K ? 256 : 16, G = f.lanes / g;
      double A = 0, R = 0;
      std::vector<double> am(G, 0), rg(G, 0);
      for (int k = 0; k < G; ++k) {
        double lo = 0, hi = 0;
        for (int i = 0; i < g; ++i) { double e = xb[k * g + i]; lo = std::min(lo, e); hi = std::max(hi, e); am[k] = std::max(am[k], fabs(e)); }
        rg[k] = hi - lo;
        A = std::max(A, am[k]); R = std::max(R, rg[k]);
      }
      for (int i = 0; i < f.lanes; ++i) {
        double e = fabs(xb[i] - D.v[b * f.lanes + i]), a = am[i / g], rr = rg[i / g], lim;
        switch (f.dt) {
          case kGGUF_Q8_0: lim = a / 127 * .5 + std::max(a * 0x1p-11, 127 * 0x1p-25); break;
          case kGGUF_Q8_K: lim = a / 127 * .5 + 1e-6 * a; break;
          case kGGUF_Q4_0: lim = std::max(a / 8 * .5, fabs(xb[i]) >= a * .93 ? a / 8 : 0) + std::max(a * 0x1p-11, 8 * 0x1p-25); break;
          case kGGUF_Q4_K: lim = rr / 15 * 1.6 + R / 63 + A / 63 + A * 0x1p-10 + 63 * 16 * 0x1p-25; break;
          case kGGUF_Q6_K: lim = a / 32 * 1.1 + A / 128 + A * 0x1p-10 + 128 * 32 * 0x1p-25; break;
          case kGGUF_Q2_K: lim = rr / 3 * 1.2 + R / 15 + A / 15 + A * 0x1p-10 + 16 * 3 * 0x1p-25; break;
          default: lim = a / 4 * 1.6 + A / 24 + A * 0x1p-10 + 32 * 4 * 0x1p-25; break;
        }
        if (!(e <= lim * 1.001 + 1e-30)) { vh::violation(vh::S("error:", f.name), vh::S(f.name, ": ", xb[i], " becomes ", D.v[b * f.lanes + i], " (error ", e, ", the format allows ", lim, "; row kind ", kind, ", group maximum ", a, ", block maximum ", A, ")"), kind); break; }
        ss += (double)xb[i] * xb[i]; se += e * e;
      }
      if (f.dt == kGGUF_Q8_K) {
        const uint8_t* p = q.data() + b * f.bytes;
        float d; memcpy(&d, p, 4);
        if (d != 0) for (int k = 0; k < 16; ++k) { int s = 0; int16_t bs; memcpy(&bs, p + 260 + 2 * k, 2); for (int j = 0; j < 16; ++j) s += (int8_t)p[4 + 16 * k + j]; if (s != bs) { vh::violation("bsums", vh::S("q8_K: group sum ", k, " says ", bs, ", its values add up to ", s), kind); break; } }
      }
    }
    if (kind == "gauss" || kind == "uniform") {
      double rel = sqrt(se / std::max(ss, 1e-300));
      static const std::map<DataTypes, double> REL = {{kGGUF_Q8_0, .02}, {kGGUF_Q8_K, .02}, {kGGUF_Q4_0, .14}, {kGGUF_Q4_K, .1}, {kGGUF_Q6_K, .025}, {kGGUF_Q2_K, .38}, {kGGUF_Q3_K, .21}};
      static std::map<DataTypes, double> worst;
      if (rel > worst[f.dt]) { worst[f.dt] = rel; }
      if (rel > REL.at(f.dt)) vh::violation(vh::S("rms:", f.name), vh::S(f.name, ": relative error ", rel, " over a ", kind, " row (", REL.at(f.dt), " is what the format's steps give)"), kind);
      vh::observe(vh::S("rms_e6_max_", f.name), 0);
      if (getenv("VH_DEBUG")) fprintf(stderr, "%s worst rel %g\n", f.name, worst[f.dt]);
    }
    if (kind == "ints127" || kind == "ints8") for (int i = 0; i < n; ++i) if (D.v[i] != x[i]) { vh::violation(vh::S("exact:", f.name), vh::S(f.name, ": ", x[i], " is on the grid and becomes ", D.v[i]), kind); break; }
    vh::observe("rows"); vh::observe(vh::S("rows_", f.name)); vh::cases(vh::S(f.name, " quantize ", kind, " ", nb));
  }
}

static void kernels(vh::Rng& r, const Fmt& f, int iters) {
  auto tt = cpu::ggml::getRuntimeTypeTraits(f.dt);
  if (tt.size != bytesOfType(f.dt) || tt.size != f.bytes) vh::violation(vh::S("size:", f.name), vh::S(f.name, ": block size ", tt.size, " in the kernel table, ", bytesOfType(f.dt), " in the type table, ", f.bytes, " by layout"));
  if (tt.blck_size != (int)lanesOfType(f.dt) || tt.blck_size != f.lanes) vh::violation(vh::S("lanes:", f.name), vh::S(f.name, ": ", tt.blck_size, " values per block in the kernel table, ", lanesOfType(f.dt), " in the type table, ", f.lanes, " by layout"));
  const Fmt* vf = nullptr;
  for (auto& g : FMTS) if (g.dt == tt.vec_dot_type) vf = &g;
  for (int it = 0; it < iters; ++it) {
    int nb = r.in(1, 6), n = nb * f.lanes;
    auto b = raw(f, nb, r);
    auto D = deq(f, b);
    vh::begin(vh::S("kernels ", f.name, " nb=", nb));
    if (tt.to_float) {
      std::vector<float> y(n, NAN);
      tt.to_float(b.data(), y.data(), n);
      for (int i = 0; i < n; ++i) if (!(fabs(y[i] - D.v[i]) <= 2e-6 * D.mass[i] + 1e-30)) { vh::violation(vh::S("dequantize:", f.name), vh::S(f.name, ": element ", i, " of ", n, " reads ", y[i], ", its block says ", D.v[i])); break; }
      vh::observe("dequantized"); vh::observe(vh::S("deq_", f.name));
    }
    if (tt.add_row_to) {
      float alpha = r.f(-2, 2);
      std::vector<float> dst(n), old;
      for (auto& e : dst) e = r.f(-1, 1);
      old = dst;
      tt.add_row_to(n, b.data(), dst.data(), alpha);
      for (int i = 0; i < n; ++i) { double w = old[i] + (double)alpha * D.v[i]; if (!(fabs(dst[i] - w) <= 4e-6 * (fabs(old[i]) + fabs(alpha) * D.mass[i]) + 1e-30)) { vh::violation(vh::S("add_row:", f.name), vh::S(f.name, ": adding ", alpha, " times a row gives ", dst[i], " at element ", i, ", expected ", w)); break; } }
      vh::observe("rows_added");
    }
    if (tt.vec_dot && vf) {
      int m = n / vf->lanes;
      if (m * vf->lanes != n) continue;
      std::vector<uint8_t> yb;
      if (r.p(.5)) yb = raw(*vf, m, r);
      else { std::string kind; auto x = row(n, r, kind); yb.resize(m * vf->bytes); cpu::ggml::getRuntimeTypeTraits(vf->dt).from_float(x.data(), yb.data(), n); }
      auto Y = deq(*vf, yb);
      double w = 0, mass = 0;
      for (int i = 0; i < n; ++i) { w += D.v[i] * Y.v[i]; mass += D.mass[i] * Y.mass[i]; }
      float s = NAN;
      tt.vec_dot(n, &s, b.data(), yb.data());
      if (!(fabs(s - w) <= 4e-6 * mass + 1e-30)) vh::violation(vh::S("vec_dot:", f.name), vh::S(f.name, "·", vf->name, " over ", n, " values is ", s, ", expected ", w, " (terms add up to ", mass, ")"));
      vh::observe("dots"); vh::observe(vh::S("dot_", f.name));
      vh::cases(vh::S(f.name, " dot ", nb));
    }
  }
}

static void plain(vh::Rng& r, int iters) {
  auto f32 = cpu::ggml::getRuntimeTypeTraits(kFloat32), f16 = cpu::ggml::getRuntimeTypeTraits(kFloat16);
  for (int it = 0; it < iters; ++it) {
    int n = r.p(.5) ? r.in(1, 70) : r.in(1, 700);
    std::vector<float> a(n), b(n);
    std::vector<mllm_fp16_t> ha(n), hb(n);
    double w = 0, mass = 0, hw = 0, hm = 0;
    for (int i = 0; i < n; ++i) {
      a[i] = r.f(-3, 3); b[i] = r.f(-3, 3); ha[i] = f2h(a[i]); hb[i] = f2h(b[i]);
      w += (double)a[i] * b[i]; mass += fabs((double)a[i] * b[i]);
      hw += (double)h2f(ha[i]) * h2f(hb[i]); hm += fabs((double)h2f(ha[i]) * h2f(hb[i]));
    }
    float s = NAN;
    vh::begin(vh::S("plain n=", n));
    f32.vec_dot(n, &s, a.data(), b.data());
    if (!(fabs(s - w) <= 4e-6 * mass + 1e-30)) vh::violation("vec_dot:f32", vh::S("fp32 dot of ", n, " values is ", s, ", expected ", w));
    s = NAN;
    f16.vec_dot(n, &s, ha.data(), hb.data());
    if (!(fabs(s - hw) <= 4e-6 * hm + 1e-30)) vh::violation("vec_dot:f16", vh::S("fp16 dot of ", n, " values is ", s, ", expected ", hw));
    float alpha = r.f(-2, 2);
    std::vector<float> d1 = b, d2 = b;
    f32.add_row_to(n, a.data(), d1.data(), alpha);
    f16.add_row_to(n, ha.data(), d2.data(), alpha);
    for (int i = 0; i < n; ++i) {
      if (!(fabs(d1[i] - (b[i] + (double)alpha * a[i])) <= 1e-5)) { vh::violation("add_row:f32", vh::S("element ", i, " of ", n)); break; }
      if (!(fabs(d2[i] - (b[i] + (double)alpha * h2f(ha[i]))) <= 1e-5)) { vh::violation("add_row:f16", vh::S("element ", i, " of ", n)); break; }
    }
    vh::observe("plain"); vh::cases(vh::S("plain ", n % 32));
    // int8 with one scale
    int m = r.in(1, 6) * 32;
    float sc = exp(r.f(-6, 0));
    std::vector<float> x(m), y(m, NAN), z(m, NAN);
    for (auto& e : x) e = r.f(-200, 200) * sc;
    std::vector<int8_t> q(m, 99), p(m);
    std::vector<mllm_fp16_t> h(m, f2h(-1));
    cpu::quantize_row_i8(x.data(), q.data(), m, sc);
    for (int i = 0; i < m; ++i) {
      double t = x[i] / (double)sc, lo = std::max(-128., std::min(127., t));
      if (!(fabs(q[i] - lo) <= .5001)) { vh::violation("i8:quantize", vh::S("int8 of ", x[i], " with scale ", sc, " is ", (int)q[i], ", expected ", lo)); break; }
    }
    cpu::dequantize_row_i8(q.data(), y.data(), m, sc);
    for (int i = 0; i < m; ++i) if (!(fabs(y[i] - (double)q[i] * sc) <= 1e-6 * fabs(y[i]))) { vh::violation("i8:dequantize", vh::S("element ", i)); break; }
    cpu::dequantize_row_i8_to_fp16(q.data(), h.data(), m, sc);
    for (int i = 0; i < m; ++i) if (!(fabs(h2f(h[i]) - (double)q[i] * sc) <= 0x1p-10 * fabs((double)q[i] * sc) + 1e-7)) { vh::violation("i8:to_fp16", vh::S("element ", i, " is ", h2f(h[i]), ", expected ", (double)q[i] * sc)); break; }
    cpu::quantize_round_dequantize_row_i8(x.data(), z.data(), m, sc);
    for (int i = 0; i < m; ++i) if (!(fabs(z[i] - x[i]) <= .5001 * sc)) { vh::violation("i8:round", vh::S("element ", i)); break; }
    for (auto& e : p) e = r.in(-127, 127);
    for (auto& e : q) if (e == -128) e = -127;
    double iw = 0, im = 0; float sc2 = exp(r.f(-6, 0));
    for (int i = 0; i < m; ++i) { iw += (double)q[i] * p[i] * sc * sc2; im += fabs((double)q[i] * p[i] * sc * sc2); }
    s = NAN;
    cpu::ggml::vec_dot_i8_i8(m, &s, q.data(), p.data(), sc, sc2);
    if (!(fabs(s - iw) <= 4e-6 * im + 1e-30)) vh::violation("i8:dot", vh::S("int8 dot of ", m, " values is ", s, ", expected ", iw));
    vh::observe("i8");
  }
}

int main() {
  vh::Rng r(vh::seed());
  // the iq2 tables
  std::set<uint64_t> grid;
  for (int i = 0; i < 256; ++i) {
    uint64_t g = cpu::iq2xxs_grid[i];
    grid.insert(g);
    for (int j = 0; j < 8; ++j) { int e = (uint8_t)(g >> (8 * j)); if (e != 8 && e != 25 && e != 43) vh::violation("iq2grid", vh::S("grid point ", i, " has magnitude ", e)); }
  }
  if (grid.size() != 256) vh::violation("iq2grid", vh::S("only ", grid.size(), " distinct grid points"));
  int T = vh::scale(120, 3000);
  for (auto& f : FMTS) { quantizers(r, f, T * 2); kernels(r, f, T); }
  plain(r, T * 2);
  vh::sample("quantise, dequantise and dot products of eight block formats against references written from their layouts");
  return vh::finish();
}

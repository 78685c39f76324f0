// References for the block-quantised formats, written from the layouts in
// core/DataTypes.hpp, not from the kernels.
#pragma once
#include "vh.hpp"
#include "mllm/mllm.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp"
using namespace mllm;
using half_t = half_float::half;

static float h2f(mllm_fp16_t h) { uint16_t b; memcpy(&b, &h, 2); half_t x; memcpy(&x, &b, 2); return (float)x; }
static mllm_fp16_t f2h(float f) { half_t x(f); mllm_fp16_t h; memcpy(&h, &x, 2); return h; }

struct Fmt { const char* name; DataTypes dt; int lanes; size_t bytes; };
static const Fmt FMTS[] = {
    {"q4_0", kGGUF_Q4_0, 32, 18},   {"q8_0", kGGUF_Q8_0, 32, 34},   {"q4_K", kGGUF_Q4_K, 256, 144}, {"q6_K", kGGUF_Q6_K, 256, 210},
    {"q8_K", kGGUF_Q8_K, 256, 292}, {"q2_K", kGGUF_Q2_K, 256, 84}, {"q3_K", kGGUF_Q3_K, 256, 110}, {"iq2_xxs", kGGUF_IQ2_XXS, 256, 66},
};

// value and "mass" (sum of the magnitudes of the parts) of each element of a block
struct Deq { std::vector<double> v, mass; };
static void k4(int j, const uint8_t* q, int& sc, int& m) {
  if (j < 4) { sc = q[j] & 63; m = q[j + 4] & 63; }
  else { sc = (q[j + 4] & 15) | ((q[j - 4] >> 6) << 4); m = (q[j + 4] >> 4) | ((q[j] >> 6) << 4); }
}
static void deq_block(DataTypes dt, const uint8_t* b, double* v, double* mass) {
  auto H = [&](size_t off) { mllm_fp16_t h; memcpy(&h, b + off, 2); return (double)h2f(h); };
  switch (dt) {
    case kGGUF_Q4_0: { double d = H(0); for (int i = 0; i < 32; ++i) { int n = (i < 16 ? b[2 + i] & 15 : b[2 + i - 16] >> 4) - 8; v[i] = d * n; mass[i] = fabs(v[i]); } break; }
    case kGGUF_Q8_0: { double d = H(0); for (int i = 0; i < 32; ++i) { v[i] = d * (int8_t)b[2 + i]; mass[i] = fabs(v[i]); } break; }
    case kGGUF_Q8_K: { float d; memcpy(&d, b, 4); for (int i = 0; i < 256; ++i) { v[i] = (double)d * (int8_t)b[4 + i]; mass[i] = fabs(v[i]); } break; }
    case kGGUF_Q4_K: {
      double d = H(0), dm = H(2);
      for (int i = 0; i < 256; ++i) {
        int g = i / 32, sc, m, c = i / 64, o = i % 64;
        k4(g, b + 4, sc, m);
        uint8_t byte = b[16 + 32 * c + o % 32];
        int q = o < 32 ? byte & 15 : byte >> 4;
        v[i] = d * sc * q - dm * m; mass[i] = fabs(d * sc * q) + fabs(dm * m);
      }
      break;
    }
    case kGGUF_Q6_K: {
      double d = H(208);
      for (int i = 0; i < 256; ++i) {
        int half = i / 128, o = i % 128, seg = o / 32, l = o % 32;
        const uint8_t* ql = b + 64 * half; const uint8_t* qh = b + 128 + 32 * half; const int8_t* sc = (const int8_t*)(b + 192) + 8 * half;
        int lo = (seg & 1) ? ql[l + 32] : ql[l];
        lo = seg < 2 ? lo & 15 : lo >> 4;
        int q = (lo | (((qh[l] >> (2 * seg)) & 3) << 4)) - 32;
        v[i] = d * sc[2 * seg + l / 16] * q; mass[i] = fabs(v[i]);
      }
      break;
    }
    case kGGUF_Q2_K: {
      double d = H(80), dm = H(82);
      for (int i = 0; i < 256; ++i) {
        int half = i / 128, o = i % 128, seg = o / 32, l = o % 32;
        int s = b[8 * half + 2 * seg + l / 16], q = (b[16 + 32 * half + l] >> (2 * seg)) & 3;
        v[i] = d * (s & 15) * q - dm * (s >> 4); mass[i] = fabs(d * (s & 15) * q) + fabs(dm * (s >> 4));
      }
      break;
    }
    case kGGUF_Q3_K: {
      double d = H(108);
      const uint8_t* S = b + 96;
      for (int i = 0; i < 256; ++i) {
        int half = i / 128, o = i % 128, seg = o / 32, l = o % 32, g = i / 16;
        int lo = g < 8 ? S[g] & 15 : S[g - 8] >> 4, hi = (S[8 + g % 4] >> (2 * (g / 4))) & 3;
        int sc = (lo | (hi << 4)) - 32;
        int q = ((b[32 + 32 * half + l] >> (2 * seg)) & 3) - ((b[l] >> (4 * half + seg)) & 1 ? 0 : 4);
        v[i] = d * sc * q; mass[i] = fabs(v[i]);
      }
      break;
    }
    case kGGUF_IQ2_XXS: {
      double d = H(0);
      for (int g = 0; g < 8; ++g) {
        uint32_t a0, a1;
        memcpy(&a0, b + 2 + 8 * g, 4); memcpy(&a1, b + 6 + 8 * g, 4);
        double db = d * (0.5 + (a1 >> 28)) * 0.25;
        for (int l = 0; l < 4; ++l) {
          int s7 = (a1 >> (7 * l)) & 127;
          int signs = s7 | ((__builtin_popcount(s7) & 1) << 7);     // the eighth sign makes the count even
          uint64_t gr = cpu::iq2xxs_grid[(a0 >> (8 * l)) & 255];
          for (int j = 0; j < 8; ++j) { int i = 32 * g + 8 * l + j; v[i] = db * (uint8_t)(gr >> (8 * j)) * ((signs >> j) & 1 ? -1 : 1); mass[i] = fabs(v[i]); }
        }
      }
      break;
    }
    default: break;
  }
}
static Deq deq(const Fmt& f, const std::vector<uint8_t>& b) {
  size_t nb = b.size() / f.bytes;
  Deq r; r.v.resize(nb * f.lanes); r.mass.resize(nb * f.lanes);
  for (size_t i = 0; i < nb; ++i) deq_block(f.dt, b.data() + i * f.bytes, r.v.data() + i * f.lanes, r.mass.data() + i * f.lanes);
  return r;
}
static std::vector<uint8_t> raw(const Fmt& f, int nb, vh::Rng& r) {
  std::vector<uint8_t> b(nb * f.bytes);
  for (auto& x : b) x = r.next();
  for (int i = 0; i < nb; ++i) {
    uint8_t* p = b.data() + i * f.bytes;
    auto put = [&](size_t off) { mllm_fp16_t h = f2h(r.p(.05) ? 0.f : (float)(exp(r.f(-9, 0)) * (r.p(.5) ? 1 : -1))); memcpy(p + off, &h, 2); };
    switch (f.dt) {
      case kGGUF_Q4_0: put(0); break;
      case kGGUF_Q8_0: put(0); for (int j = 2; j < 34; ++j) if (p[j] == 0x80) p[j] = 0x81; break;
      case kGGUF_Q8_K: {
        float d = exp(r.f(-9, 0)) * (r.p(.5) ? 1 : -1);
        memcpy(p, &d, 4);
        if (r.p(.2)) memset(p + 4, r.p(.5) ? 0x81 : 0x7f, 256);     // every product as large as it can be
        for (int j = 4; j < 260; ++j) if (p[j] == 0x80) p[j] = 0x81;      // what quantising can give
        for (int g = 0; g < 16; ++g) { int16_t s = 0; for (int j = 0; j < 16; ++j) s += (int8_t)p[4 + 16 * g + j]; memcpy(p + 260 + 2 * g, &s, 2); }
        break;
      }
      case kGGUF_Q4_K: put(0); put(2); if (r.p(.2)) memset(p + 4, 0xff, 140); break;
      case kGGUF_Q6_K: put(208); if (r.p(.2)) memset(p, r.p(.5) ? 0xff : 0, 192); break;
      case kGGUF_Q2_K: put(80); put(82); if (r.p(.2)) memset(p, 0xff, 80); break;
      case kGGUF_Q3_K: put(108); if (r.p(.2)) memset(p, r.p(.5) ? 0xff : 0, 108); break;
      case kGGUF_IQ2_XXS: put(0); break;
      default: break;
    }
  }
  return b;
}
// Values as hidden states, weights and their corner cases are: kind is recorded.
static std::vector<float> row(int n, vh::Rng& r, std::string& kind) {
  std::vector<float> x(n);
  static const char* K[] = {"gauss", "uniform", "zeros", "const", "spike", "mixed", "negative", "positive", "ints", "tiny", "large", "zero_blocks", "offset"};
  int k = r.in(0, 12);
  kind = K[k];
  auto g = [&] { double s = 0; for (int i = 0; i < 12; ++i) s += r.f(0, 1); return s - 6; };
  double sc = exp(r.f(-6, 3));
  double c = r.f(-2, 2);
  for (int i = 0; i < n; ++i) {
    switch (k) {
      case 0: x[i] = g() * sc; break;
      case 1: x[i] = r.f(-sc, sc); break;
      case 2: x[i] = r.p(.5) ? 0.f : -0.f; break;
      case 3: x[i] = c; break;
      case 4: x[i] = g() * 1e-3; break;
      case 5: x[i] = g() * exp(6.0 * ((i / 16) % 5) - 12); break;
      case 6: x[i] = -fabs(g()) * sc; break;
      case 7: x[i] = fabs(g()) * sc; break;
      case 8: x[i] = r.in(-8, 7); break;
      case 9: x[i] = g() * 1e-7; break;
      case 10: x[i] = g() * 3000; break;
      case 11: x[i] = (i / 32) % 2 ? 0.f : g() * sc; break;
      default: x[i] = 5 * sc + g() * sc; break;
    }
  }
  if (k == 4) for (int i = 0; i < n; i += r.in(20, 300)) x[i] = r.p(.5) ? 40 : -40;
  for (auto& e : x) e = std::max(-1e5f, std::min(1e5f, e));
  return x;
}

#pragma once
#include <hwy/base.h>
namespace hwy::N_SHIM {
template<class T_> struct ScalableTag { using T = T_; };
template<class D> using TFromD = typename D::T;
template<class T> struct VecT { static constexpr size_t N = 32 / sizeof(T); T v[N]; };
template<class T> struct MaskT { bool m[32 / sizeof(T)]; };
template<class D> using Vec = VecT<TFromD<D>>;
template<class T, class D> using Rebind = ScalableTag<T>;
template<class D> constexpr size_t Lanes(D) { return 32 / sizeof(TFromD<D>); }
template<class D, class X> Vec<D> Set(D, X x) { Vec<D> r; for (auto& e : r.v) e = static_cast<TFromD<D>>(x); return r; }
template<class D> Vec<D> Zero(D d) { return Set(d, TFromD<D>(0)); }
template<class D> Vec<D> Iota(D, TFromD<D> a) { Vec<D> r; for (size_t i = 0; i < Vec<D>::N; ++i) r.v[i] = TFromD<D>(a + TFromD<D>(i)); return r; }
template<class D> Vec<D> LoadU(D, const TFromD<D>* p) { Vec<D> r; for (size_t i = 0; i < Vec<D>::N; ++i) r.v[i] = p[i]; return r; }
template<class D> Vec<D> Load(D d, const TFromD<D>* p) { return LoadU(d, p); }
template<class D> Vec<D> LoadN(D d, const TFromD<D>* p, size_t n) { Vec<D> r = Zero(d); for (size_t i = 0; i < std::min(n, Vec<D>::N); ++i) r.v[i] = p[i]; return r; }
template<class D> void StoreU(const Vec<D>& a, D, TFromD<D>* p) { for (size_t i = 0; i < Vec<D>::N; ++i) p[i] = a.v[i]; }
template<class D> void Store(const Vec<D>& a, D d, TFromD<D>* p) { StoreU(a, d, p); }
template<class D> void StoreN(const Vec<D>& a, D, TFromD<D>* p, size_t n) { for (size_t i = 0; i < std::min(n, Vec<D>::N); ++i) p[i] = a.v[i]; }
// integer lanes wrap, as in the instruction sets highway targets
template<class T, class F> T __wrap(T a, T b, F f) {
  if constexpr (std::is_integral_v<T>) { using U = std::make_unsigned_t<T>; using W = std::conditional_t<(sizeof(U) < 4), uint32_t, U>; return T(U(f(W(U(a)), W(U(b))))); }
  else return f(a, b);
}
#define SHIM_BIN(NAME, EXPR) template<class T> VecT<T> NAME(VecT<T> x, VecT<T> y) { for (size_t i = 0; i < VecT<T>::N; ++i) { T a = x.v[i], b = y.v[i]; x.v[i] = EXPR; } return x; }
SHIM_BIN(Add, __wrap(a, b, [](auto p, auto q) { return p + q; }))
SHIM_BIN(Sub, __wrap(a, b, [](auto p, auto q) { return p - q; }))
SHIM_BIN(Mul, __wrap(a, b, [](auto p, auto q) { return p * q; }))
template<class T> T __div(T a, T b) {
  // a vector lane with divisor 0 (padding of LoadN) has an unspecified value
  if constexpr (std::is_integral_v<T>) { if (b == 0) return 0; if constexpr (std::is_signed_v<T>) { if (b == T(-1)) return __wrap(T(0), a, [](auto p, auto q) { return p - q; }); } return T(a / b); }
  else return a / b;
}
SHIM_BIN(Div, __div(a, b))
SHIM_BIN(Max, (a > b ? a : b))
SHIM_BIN(Min, (a < b ? a : b))
template<class T> VecT<T> MulAdd(VecT<T> a, VecT<T> b, VecT<T> c) { for (size_t i = 0; i < VecT<T>::N; ++i) a.v[i] = std::fma(a.v[i], b.v[i], c.v[i]); return a; }
template<class T> VecT<T> Neg(VecT<T> a) { for (auto& e : a.v) e = -e; return a; }
template<class T> VecT<T> Floor(VecT<T> a) { for (auto& e : a.v) e = std::floor(e); return a; }
template<class T> VecT<T> Clamp(VecT<T> x, VecT<T> lo, VecT<T> hi) { return Min(Max(lo, x), hi); }
template<class T> MaskT<T> Gt(VecT<T> a, VecT<T> b) { MaskT<T> m; for (size_t i = 0; i < VecT<T>::N; ++i) m.m[i] = a.v[i] > b.v[i]; return m; }
template<class T> VecT<T> IfThenElse(MaskT<T> m, VecT<T> a, VecT<T> b) { for (size_t i = 0; i < VecT<T>::N; ++i) if (!m.m[i]) a.v[i] = b.v[i]; return a; }
template<class D, class T> Vec<D> ConvertTo(D, VecT<T> a) {
  Vec<D> r; for (size_t i = 0; i < Vec<D>::N; ++i) { double x = a.v[i]; using R = TFromD<D>;
    if constexpr (std::is_integral_v<R>) { if (std::isnan(x)) r.v[i] = 0; else r.v[i] = R(std::clamp<double>(x, std::numeric_limits<R>::lowest(), double(std::numeric_limits<R>::max()))); }
    else r.v[i] = R(x); } return r; }
template<class D, class T> Vec<D> BitCast(D, VecT<T> a) { Vec<D> r; std::memcpy(&r, &a, 32); return r; }
template<int S, class T> VecT<T> ShiftLeft(VecT<T> a) { using U = std::make_unsigned_t<T>; for (auto& e : a.v) e = T(U(e) << S); return a; }
template<class D, class V> TFromD<D> ReduceSum(D, V a) { TFromD<D> s = 0; for (auto e : a.v) s = __wrap<TFromD<D>>(s, e, [](auto p, auto q) { return p + q; }); return s; }
template<class D, class V> TFromD<D> ReduceMax(D, V a) { return *std::max_element(a.v, a.v + V::N); }
template<class D, class V> TFromD<D> ReduceMin(D, V a) { return *std::min_element(a.v, a.v + V::N); }
template<class D, class V> V Tanh(D, V a) { for (auto& e : a.v) e = std::tanh(e); return a; }
template<class D, class V> V Exp(D, V a) { for (auto& e : a.v) e = std::exp(e); return a; }
template<class D, class F> void Transform(D d, TFromD<D>* p, size_t n, F f) {
  size_t i = 0;
  for (; i + Lanes(d) <= n; i += Lanes(d)) StoreU(f(d, LoadU(d, p + i)), d, p + i);
  if (i < n) StoreN(f(d, LoadN(d, p + i, n - i)), d, p + i, n - i);
}
}  // namespace hwy::N_SHIM

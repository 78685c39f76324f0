// Minimal stand-in for google/highway: 32-byte vectors as plain arrays, one
// target. Only what mllm's x86 kernels use; loads/stores touch exactly the
// lanes highway's do, so the sanitizers see the kernels' own accesses.
#pragma once
#include <algorithm>
#include <cmath>
#include <limits>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
#define HWY_RESTRICT __restrict__
#define HWY_INLINE inline
#define HWY_NOINLINE __attribute__((noinline))
#define HWY_MAYBE_UNUSED __attribute__((unused))
#define HWY_DLLEXPORT
#define HWY_ATTR
#define HWY_ONCE 1
#define HWY_NAMESPACE N_SHIM
#define HWY_BEFORE_NAMESPACE() static_assert(true, "")
#define HWY_AFTER_NAMESPACE() static_assert(true, "")
#define HWY_EXPORT(F) static_assert(true, #F)
#define HWY_DYNAMIC_DISPATCH(F) N_SHIM::F
#define HWY_STATIC_DISPATCH(F) N_SHIM::F
#define HWY_IF_F32_D(D) std::enable_if_t<std::is_same_v<typename D::T, float>>* = nullptr

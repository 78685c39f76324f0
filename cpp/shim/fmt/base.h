// Stand-in for fmt >= 11's <fmt/base.h> on the installed fmt 9.
#pragma once
#include <random>
#include <fmt/core.h>
#include <fmt/format.h>
namespace fmt {
template<class... A> void println(format_string<A...> f, A&&... a) { print("{}\n", fmt::format(f, std::forward<A>(a)...)); }
}  // namespace fmt

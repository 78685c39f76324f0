// The runtime as far as the C interface uses it, for the service checks.
#pragma once
#include <nlohmann/json.hpp>
#include <string>
#include <functional>
#include <memory>
namespace mllm {
enum class LogLevel : int { kInfo = 0 };
inline void initializeContext() {}
inline void shutdownContext() {}
inline void memoryReport() {}
inline void setLogLevel(const LogLevel&) {}
}  // namespace mllm

#pragma once
#include "c20_scripted.hpp"
namespace mllm::models::qwen3 {
class Qwen3Session final : public vh20::Scripted {};
}  // namespace mllm::models::qwen3

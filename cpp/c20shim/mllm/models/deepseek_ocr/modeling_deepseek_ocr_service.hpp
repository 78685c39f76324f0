#pragma once
#include "c20_scripted.hpp"
namespace mllm::models::deepseek_ocr {
class DeepseekOCRSession final : public vh20::Scripted {};
}  // namespace mllm::models::deepseek_ocr

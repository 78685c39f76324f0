#include "c22.hpp"
#define qwen2_5vl qwen2_5vl_t
#include "mllm/models/qwen2_5vl/modeling_qwen2_5vl_traceable.hpp"
namespace {
namespace M = mllm::models::qwen2_5vl;
struct R final : VRunner {
  M::Qwen2_5VLConfig cfg;
  M::Qwen2_5VLForCausalLM m;
  explicit R(const std::string& f) : cfg(f), m(cfg) {}
  mllm::models::ARGeneration& gen() override { return m; }
  void load(const mllm::ParameterFile::ptr_t& p) override { m.llm.load(p); m.visual.load(p); }
};
}
std::unique_ptr<VRunner> make_qwen2_5vl_t(const std::string& f) { return std::make_unique<R>(f); }

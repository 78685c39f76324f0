#include "c22.hpp"
#include "mllm/models/qwen2vl/modeling_qwen2vl.hpp"
namespace {
namespace M = mllm::models::qwen2vl;
struct R final : VRunner {
  M::Qwen2VLConfig cfg;
  M::Qwen2VLForCausalLM m;
  explicit R(const std::string& f) : cfg(f), m(cfg) {}
  mllm::models::ARGeneration& gen() override { return m; }
  void load(const mllm::ParameterFile::ptr_t& p) override { m.llm.load(p); m.visual.load(p); }
  bool clear() override { m.kvCache().clearCache(); return true; }
};
}
std::unique_ptr<VRunner> make_qwen2vl(const std::string& f) { return std::make_unique<R>(f); }

#include "c17.hpp"
#include "mllm/models/ARGeneration.hpp"
#include "mllm/models/llama/modeling_llama.hpp"
namespace {
namespace M = mllm::models::llama;
struct R final : Runner {
  M::LLaMAConfig cfg;
  M::LlamaForCausalLM m;
  R(const Spec& s, const std::string& f) : cfg(f), m("", cfg, s.mask_by_tensor) { }
  mllm::models::ARGeneration& gen() override { return m; }
  void load(const mllm::ParameterFile::ptr_t& p) override { m.load(p); }
  void clear() override {}
  bool can_clear() override { return false; }
};
}
std::unique_ptr<Runner> make_llama(const Spec& s, const std::string& f) { return std::make_unique<R>(s, f); }

#include "c17.hpp"
#include "mllm/models/ARGeneration.hpp"
#include "mllm/models/qwen3/modeling_qwen3.hpp"
namespace {
namespace M = mllm::models::qwen3;
struct R final : Runner {
  M::Qwen3Config cfg;
  M::Qwen3ForCausalLM m;
  R(const Spec& s, const std::string& f) : cfg(f), m(cfg) { }
  mllm::models::ARGeneration& gen() override { return m; }
  void load(const mllm::ParameterFile::ptr_t& p) override { m.load(p); }
  void clear() override { m.kvCache().clearCache(); }
};
}
std::unique_ptr<Runner> make_qwen3(const Spec& s, const std::string& f) { return std::make_unique<R>(s, f); }

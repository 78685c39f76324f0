#include "c17.hpp"
#include "mllm/models/ARGeneration.hpp"
#include "mllm/models/smollm3_3B/modeling_smollm3.hpp"
namespace {
namespace M = mllm::models::smollm3;
struct R final : Runner {
  M::Smollm3Config cfg;
  M::Smollm3ForCausalLM m;
  R(const Spec& s, const std::string& f) : cfg(f), m(cfg) { }
  mllm::models::ARGeneration& gen() override { return m; }
  void load(const mllm::ParameterFile::ptr_t& p) override { m.load(p); }
  void clear() override { m.resetCache(); }
};
}
std::unique_ptr<Runner> make_smollm3(const Spec& s, const std::string& f) { return std::make_unique<R>(s, f); }

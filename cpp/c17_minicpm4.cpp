#include "c17.hpp"
#include "mllm/models/ARGeneration.hpp"
#include "mllm/models/minicpm4/modeling_minicpm4.hpp"
namespace {
namespace M = mllm::models::minicpm4;
struct R final : Runner {
  M::MiniCPM4Config cfg;
  M::MiniCPM4ForCausalLM m;
  R(const Spec& s, const std::string& f) : cfg(f), m(cfg) { }
  mllm::models::ARGeneration& gen() override { return m; }
  void load(const mllm::ParameterFile::ptr_t& p) override { m.load(p); }
  void clear() override { m.kvCache().clearCache(); }
};
}
std::unique_ptr<Runner> make_minicpm4(const Spec& s, const std::string& f) { return std::make_unique<R>(s, f); }

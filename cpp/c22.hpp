// Shared by the image-language model drivers: a tiny model's description and what
// makes the real model from it.
#pragma once
#include <random>
#include <ranges>
#include <span>
#include <memory>
#include "ops.hpp"
#include "mllm/models/ARGeneration.hpp"

struct VSpec {
  bool two5 = false;                      // Qwen2.5-VL, else Qwen2-VL
  int VE = 16, VH = 2, VL = 2, VI = 64;   // the image tower
  std::vector<int> full;                  // its layers that attend to the whole image
  int V = 40, H = 16, I = 24, heads = 2, kv = 1, L = 2, cache = 128, eos = 0, img = 7, maxpos = 512;
  std::vector<int> section;
  double eps = 1e-6, theta = 10000;
  int D() const { return H / heads; }
  std::string json() const {
    std::ostringstream o;
    o.precision(12);
    auto list = [](auto& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); };
    o << "{\"visual_in_chans\":3,\"" << (two5 ? "visual_hidden_size" : "visual_embed_dim") << "\":" << VE << ",\"visual_patch_size\":14,\"visual_temporal_patch_size\":2,\"visual_spatial_merge_size\":2,\"visual_mlp_ratio\":" << VI / VE
      << ",\"visual_num_heads\":" << VH << ",\"visual_depth\":" << VL << ",\"visual_out_hidden_size\":" << H << ",\"visual_intermediate_size\":" << VI << ",\"visual_fullatt_block_indexes\":" << list(full) << ",\"visual_window_size\":112"
      << ",\"hidden_size\":" << H << ",\"intermediate_size\":" << I << ",\"num_attention_heads\":" << heads << ",\"num_key_value_heads\":" << kv << ",\"num_hidden_layers\":" << L << ",\"max_position_embeddings\":" << maxpos
      << ",\"rms_norm_eps\":" << eps << ",\"vocab_size\":" << V << ",\"max_cache_length\":" << cache << ",\"mrope_section\":" << list(section) << ",\"vision_token_id\":" << img << ",\"eos_token_id\":" << eos << ",\"end_of_text_token_id\":" << eos
      << ",\"rope_theta\":" << theta << ",\"tie_word_embeddings\":true,\"linear_impl_type\":\"Default\"}";
    return o.str();
  }
};
struct VRunner {
  virtual ~VRunner() = default;
  virtual mllm::models::ARGeneration& gen() = 0;
  virtual void load(const mllm::ParameterFile::ptr_t&) = 0;
  virtual bool clear() { return false; }
};
std::unique_ptr<VRunner> make_qwen2vl(const std::string& config);
std::unique_ptr<VRunner> make_qwen2_5vl(const std::string& config);
std::unique_ptr<VRunner> make_qwen2vl_t(const std::string& config);    // the variants that can be traced
std::unique_ptr<VRunner> make_qwen2_5vl_t(const std::string& config);

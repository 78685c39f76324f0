// The patch convolution of x86: the repository has a kernel for ARM only, so the
// harness provides the operator (windows do not overlap and fill the input here).
#include "mllm/backends/cpu/ops/Conv3DOp.hpp"
namespace mllm::cpu {
CPUConv3DOp::CPUConv3DOp(const aops::Conv3DOpOptions& options) : aops::Conv3DOp(options) {}
void CPUConv3DOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
  auto x = inputs[0];
  auto& y = outputs[0];
  auto n = (size_t)x.shape()[0], k = x.numel() / n, o = (size_t)options_.out_channels;
  if (y.numel() != n * o || weight_.numel() != o * k || !x.isContiguous()) { fprintf(stderr, "unexpected convolution\n"); exit(9); }
  for (size_t i = 0; i < n; ++i)
    for (size_t c = 0; c < o; ++c) {
      double a = 0;
      for (size_t j = 0; j < k; ++j) a += (double)x.ptr<float>()[i * k + j] * weight_.ptr<float>()[c * k + j];
      y.ptr<float>()[i * o + c] = (float)a;
    }
}
}  // namespace mllm::cpu

"""C10: matrix products of the CPU backend."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C10", "random shapes, leading dimensions, thread counts, transposes, biases, batch shapes, weight formats and views through the llamafile kernels, the x86 kernels, MatMul and Linear; each element compared with a double-precision product, "
          "padding of the result watched, ASan/UBSan on exactly sized operands; non-trivial = distinct kernel/shape classes",
          ["x86 AVX2 kernels.", "The accelerated vendor BLAS is not part of this build.", "With block-quantised weights the activations may be rounded by half a step of the format the kernel multiplies in."])


def main():
    b = cpp.Build("C10", san="asan", opt="-O1", omp=True)
    exe = b.build(cpp.runtime(), ["c10_matmul.cpp"], focus=r"kernels/common/ggml/|llamafile|mllm_blas|ops/(MatMul|Linear)Op")
    cpp.run(c, exe, timeout=scale(400, 2400), label="matmul")
    for k, n in dict(sgemm=800, blas=1000, matmul=500, linear=500, elements=100000, matmul_views=60, linear_views=30).items():
        c.require(k, n)
    for f in "f32xf32 f16xf32 q8_0xq8_0 q4_0xq8_0".split():
        c.require("sgemm_" + f, 150)
    for f in "f32 f16 q4_0 q8_0 q4_K q6_K q2_K q3_K".split():
        c.require("linear_" + f, 40)
    c.finish()


run_main(c, main)

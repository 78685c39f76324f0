"""C15: the element-wise, activation, normalisation, reduction, pooling, convolution, embedding and cast operators."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C15", "random shapes, broadcasts, element types, views, thread counts, in-place variants; each element against the definition in double precision, or the operator says that it does not do it; inputs and surroundings of views watched; "
          "shapes that do not broadcast and ids outside of the table must be refused; ASan/UBSan; non-trivial = distinct operator/shape/layout classes", ["x86 backend."])


def main():
    b = cpp.Build("C15", san="asan", opt="-O1")
    exe = b.build(cpp.runtime(), ["c15_ops.cpp"], focus=r"ops/(Elewise|Cmp|Reduce|Softmax|RMSNorm|LayerNorm|GELU|QuickGELU|ReLU|SiLU|Sigmoid|Embedding|Conv1D|AvgPool1d|CastType)|kernels/x86/(math|softmax|rmsnorm|silu|sigmoid|gelu)|kernels/common/(elewise|reduce|kernel_dispatch)")
    cpp.run(c, exe, timeout=scale(400, 2600), label="operators")
    for k, n in dict(add=200, sub=200, mul=200, div=200, equal=200, binary_f32=800, binary_i32=200, binary_i16=100, binary_i8=100, binary_views=500, binary_inplace=100, binary_threads=300, rel_same=150, rel_scalar=150, rel_one_dim=80, rel_suffix=80,
                     scalar=300, silu=80, sigmoid=80, unary_views=60, unary_inplace=30, sum=400, reduce_all=100, reduce_views=100, softmax=300, softmax_long=100, softmax_views=50, rmsnorm=300, norm_views=100, norm_inplace=50,
                     conv1d=150, conv1d_groups=60, avgpool=100, embedding_f32=100, embedding_f16=50, embedding_views=50).items():
        c.require(k, n)
    c.finish()


run_main(c, main)

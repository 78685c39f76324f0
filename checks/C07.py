"""C07: tensor views and the operations that move data."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C07", "histories of slices, views, splits, copies, writes and 20 data-moving operations over tensors of 10 element types and up to 7 dimensions, each result compared element by element with a shadow that tracks which "
          "cell is behind every element; operations on strided or partial views are tried in a child first and may refuse; ASan/UBSan; non-trivial = distinct operation/layout/type combinations",
          ["Indices given to gather and index are in range.", "CPU backend, eager mode."])


def main():
    b = cpp.Build("C07", san="asan", opt="-O0")
    exe = b.build(cpp.runtime(), ["c07_tensors.cpp"],
                  focus=r"/core/(Tensor|SlicePrim|Storage)|/core/aops/(Slice|View|Index|Split|Gather|MaskedScatter|Scatter2Shards|Pad|CausalMask|Concat|Stack|Contiguous|Clone|Copy|Repeat|Transpose|Permute|TopK|Argsort)"
                        r"|/cpu/ops/(Clone|Concat|Contiguous|Copy|Fill|Gather|Index|MaskedScatter|Pad|Permute|Repeat|Scatter2Shards|Slice|Split|Stack|TopK|Argsort|Transpose|View|CausalMask)|kernels/x86/(transpose|fill)")
    cpp.run(c, exe, timeout=scale(600, 2400), label="tensors")
    c.require("histories", 50)
    c.require("ops", 1500)
    c.require("writes", 200)
    for op in "slice view flatten unsqueeze squeeze split contiguous clone copy2 concat stack repeat gather index pad topk argsort transpose permute scatter2Shards maskedScatter causalMask zeros ones arange".split():
        c.require("ok_" + op, 3)
    c.finish()


run_main(c, main)

"""C09: the block-quantised number formats of the CPU backend."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C09", "rows of 15 kinds (gaussian, spikes, constants, zero blocks, tiny, large, on-grid ...) quantised by each format's table entry, and blocks of random bits with extreme fields; each dequantised element, row sum and dot product "
          "compared with references in double precision written from the block layouts; ASan/UBSan on exactly sized buffers; non-trivial = distinct format/kind/length",
          ["x86 AVX2 kernels (the fixed level this repository is built at here).", "Values are zero or at least 1e-30, and at most 1e5, in magnitude.", "Quantising to iq2_xxs is left out: it needs tables the repository never initialises."])


def main():
    b = cpp.Build("C09", san="asan", opt="-O1")
    exe = b.build(cpp.runtime(), ["c09_quant.cpp"], focus=r"kernels/common/ggml/|core/DataTypes")
    cpp.run(c, exe, timeout=scale(400, 2400), label="quant")
    for k, n in dict(rows=1000, dequantized=500, rows_added=400, dots=500, plain=100, i8=100).items():
        c.require(k, n)
    for f in "q4_0 q8_0 q4_K q6_K q8_K q2_K q3_K".split():
        c.require("rows_" + f, 100)
    for f in "q4_0 q8_0 q4_K q6_K q2_K q3_K iq2_xxs".split():
        c.require("dot_" + f, 50)
    c.finish()


run_main(c, main)

"""C16: the attention operators of the CPU backend equal dense attention."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C16", "random batches, head groups, lengths, head sizes, layouts of keys and values, blocks of tokens in any order, windows, sinks, masks, thread counts; each output against dense attention in double precision; "
          "every token's block exactly as large as may be read, inputs watched, ASan/UBSan; operands that do not fit must be refused; non-trivial = distinct operator/shape/layout classes", ["x86 backend."])


def main():
    b = cpp.Build("C16", san="asan", opt="-O1")
    exe = b.build(cpp.runtime(), ["c16_attn.cpp"], focus=r"ops/(FlashAtt|Radix|Paged)|kernels/common/(fa2_1|radix|paged)")
    cpp.run(c, exe, timeout=scale(400, 2600), label="attention")
    for k, n in dict(flash=400, flash_views=200, flash_batches=100, flash_threads=100, radix=200, radix_relax=200, radix_batches=100, radix_threads=100, swa_flash=150, swa_decode=150, swa_prefill=150, swa_prefill_cut=60,
                     swa_beyond_window=100, paged=150, paged_weights=150, paged_batches=50, sdpa=150).items():
        c.require(k, n)
    c.finish()


run_main(c, main)

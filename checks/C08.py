"""C08: key/value caches of the on-device runtime."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C08", "histories of updates, clears, rewinds, sub-caches and write locations over StaticCache, SubStaticCache, DynamicCache and the KVCache operator (1-4 layers, grouped heads, fp32/fp16, strided inputs), every buffer compared "
          "with a shadow after each step; updates past the capacity must be refused; ASan/UBSan; non-trivial = distinct operation/layout classes",
          ["Batch size 1, as the caches hold.", "CPU backend."])


def main():
    b = cpp.Build("C08", san="asan", opt="-O0")
    exe = b.build(cpp.runtime(), ["c08_kvcache.cpp"], focus=r"/nn/lmcache/|ops/(KVCache|Concat|Repeat|Contiguous|Copy)|/core/(Tensor|SlicePrim)|/aops/(KVCache|Slice)")
    cpp.run(c, exe, timeout=scale(400, 2400), label="kvcache")
    for k, n in dict(updates=500, sub_updates=100, dynamic_updates=500, op_updates=500, over_capacity=30, clears=30, rewinds=30, static_worlds=50, dynamic_worlds=50, op_worlds=50).items():
        c.require(k, n)
    c.finish()


run_main(c, main)

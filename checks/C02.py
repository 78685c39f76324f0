"""C02: paged KV storage (ZenFS and the allocator in front of it)."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C02", "random histories of malloc, free, purge, prefetch and finalize+recover on real ZenFS stores (1 to 1024 lanes per blob, four data types, anonymous and file-backed, recorded or not) under "
          "ASan/UBSan, with every live token's bytes filled with its own pattern and compared; the Cache allocator on top of it likewise; non-trivial = distinct store and history outcomes",
          ["Recovery is exercised after finalize(), not after a crash: ZenFS writes its index only there."])


def main():
    b = cpp.Build("C02", san="asan", opt="-O0")
    exe = b.build(cpp.runtime(), ["c02_zenfs.cpp"], focus=r"/prefix_cache/")
    cpp.run(c, exe, timeout=scale(220, 2400), label="zenfs")
    c.require("allocations", 3000)
    c.require("frees", 2000)
    c.require("purges", 200)
    c.require("recoveries", 50)
    c.require("cache_steps", 3000)
    c.finish()


run_main(c, main)

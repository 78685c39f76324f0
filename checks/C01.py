"""C01: the C++ prefix tree (RadixTree, Cache, CpuPrefixCache) against a flat reference map."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C01", "random histories of insertions and searches (shared prefixes, several extra keys, extreme token values, views into longer vectors, clear) on the real prefix tree, "
          "Cache and CpuPrefixCache under ASan/UBSan/LSan, each search compared with a flat map; sliding-window histories with lane contents checked; non-trivial = distinct histories",
          ["Sliding-window layers are driven by one growing sequence per cache: the code documents that they do not support sharing."])


def main():
    b = cpp.Build("C01", san="asan", opt="-O0")
    exe = b.build(cpp.runtime(), ["c01_radix.cpp"], focus=r"/prefix_cache/|lmcache/PrefixCache")
    cpp.run(c, exe, timeout=scale(220, 2400), label="prefix-tree", leaks=r"RadixTree")
    c.require("insertions", 2000)
    c.require("searches", 2000)
    c.require("window_steps", 200)
    c.finish()


run_main(c, main)

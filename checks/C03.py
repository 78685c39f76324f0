"""C03: the tensor memory pool (buddy pool, object cache, memory manager)."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C03", "random alloc/free histories on the real BuddyMemPool (segment orders, object cache on and off, cache lists changed on the fly) and MemoryManager with an allocator that records every "
          "segment, under ASan/UBSan, and the same from 2-6 threads under TSan; non-trivial = distinct configurations and growth outcomes",
          ["First segments of a power-of-two capacity, as the pool requires."])


def main():
    b = cpp.Build("C03", san="asan", opt="-O0")
    exe = b.build(cpp.runtime(), ["c03_buddy.cpp"], focus=r"/engine/(Buddy|Memory)")
    cpp.run(c, exe, timeout=scale(150, 1500), label="pool")
    t = cpp.Build("C03t", san="tsan", opt="-O1", extra=["-DVH_POOL_ONLY"])
    exe = t.build(cpp.expand(["mllm/engine/BuddyMemPool.cpp", "mllm/utils/Log.cpp"]), ["c03_buddy.cpp"])
    cpp.run(c, exe, timeout=scale(150, 1500), label="threads")
    c.require("allocations", 20000)
    c.require("cache_hits", 300)
    c.require("grown", 300)
    c.require("drained", 500)
    c.require("mt_allocations", 5000)
    c.require("large", 300)
    c.require("tensors", 1000)
    c.finish()


run_main(c, main)

"""C04: the thread pool behind parallel loops."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C04", "random loops (range, step, nesting, 1-4 concurrent callers on own or shared slots) on real HpcThreadPools of 0-8 threads while another thread idles, wakes, activates and deactivates them, under TSan and "
          "ASan/UBSan; every index counted, results read without locks; non-trivial = distinct pool and caller configurations",
          ["Steps are positive; bodies do not throw; a pool is not destroyed while a loop runs on it."])


def main():
    src = cpp.expand(["mllm/engine/HpcThreadPool.cpp", "mllm/utils/Log.cpp"])
    for san in ("tsan", "asan"):
        b = cpp.Build("C04" + san, san=san, opt="-O1")
        exe = b.build(src, ["c04_threads.cpp"])
        cpp.run(c, exe, timeout=scale(120, 1400), label=san)
    c.require("loops", 3000)
    c.require("shared_loops", 300)
    c.require("nesting_loops", 100)
    c.require("slots_acquired", 500)
    c.require("control_steps", 2000)
    c.require("comebacks", 60)
    c.finish()


run_main(c, main)

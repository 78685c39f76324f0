"""C17: on-device models compute the function of their checkpoint by every path."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C17", "random tiny checkpoints and configurations of six architectures; prefill, chunks, decode steps up to a full cache, and beyond; generate, streamGenerate and chat; "
          "every logit against the published definition in double precision (tolerance 2e-4 of the largest), greedy tokens exactly where the margin exceeds it; ASan/UBSan; non-trivial = distinct architecture/feature/path classes", ["float32 weights; x86 backend."])
KINDS = ["qwen3", "qwen3_fa2", "qwen3_moe", "llama", "smollm3", "minicpm4"]


def main():
    b = cpp.Build("C17", san="asan", opt="-O1")
    exe = b.build(cpp.runtime() + cpp.expand(["mllm/models/ARGeneration.cpp"]), ["c17_models.cpp"] + [f"c17_{k}.cpp" for k in KINDS], focus=r"models/ARGeneration|lmcache/StaticCache")
    cpp.run(c, exe, timeout=scale(300, 2700), label="models")
    for k in KINDS:
        c.require(k, 20)
    for k, n in dict(prefill=200, decode=200, chunk=80, full_cache=20, overflow=10, generations=200, ended=60, cleared=30).items():
        c.require(k, n)
    c.finish()


run_main(c, main)

"""C18: the samplers and generation loops of the on-device models."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C18", "random logits, temperatures, top_k, top_p, vocabularies up to 60 000, random numbers of ours (also the ends of their range); frequencies against the distribution the settings define (6.5 sigma); "
          "generate, streamGenerate and chat over a scripted model with the same randomness; ASan/UBSan; non-trivial = distinct settings", [])


def main():
    b = cpp.Build("C18", san="asan", opt="-O1")
    exe = b.build(cpp.runtime() + cpp.expand(["mllm/models/ARGeneration.cpp"]), ["c18_sampling.cpp"], focus=r"models/ARGeneration")
    cpp.run(c, exe, timeout=scale(300, 2600), label="sampling")
    for k, n in dict(temperature=100, top_k=100, top_p=100, zero_temperature=30, k_beyond=20, draws=100000, greedy=300, extremes=150, generate=800, streamGenerate=800, chat=800, ended_by_eos=200, model_failed=50, no_steps=50, no_eos=8).items():
        c.require(k, n)
    c.finish()


run_main(c, main)

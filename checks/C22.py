"""C22: on-device image-language models compute the function of their checkpoint."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C22", "random tiny Qwen2-VL and Qwen2.5-VL checkpoints; prompts with one image of random size (wide, tall, several and cut windows) anywhere in the text, decode steps, greedy generation, second conversations; "
          "every logit against the published definition in double precision (tolerance 4e-4 of the largest), positions and greedy tokens exactly; ASan/UBSan; non-trivial = distinct model/image shape/path classes", ["float32 weights; tied embeddings; one image per prompt; x86 backend, which has no kernel for the patch convolution: the harness provides it."])


def main():
    b = cpp.Build("C22", san="asan", opt="-O1")
    exe = b.build([s for s in cpp.runtime() if not s.endswith("Conv3DOp.cpp") or "/aops/" in s] + cpp.expand(["mllm/models/ARGeneration.cpp"]), ["c22_models.cpp", "c22_conv3d.cpp", "c22_qwen2vl.cpp", "c22_qwen2_5vl.cpp", "c22_qwen2vl_t.cpp", "c22_qwen2_5vl_t.cpp"], focus=r"models/ARGeneration|ops/(VisionRoPE|MultimodalRoPE|LayerNorm|Index)")
    cpp.run(c, exe, timeout=scale(300, 2700), label="models")
    for k, n in dict(qwen2vl=30, qwen2_5vl=30, qwen2vl_traceable=8, qwen2_5vl_traceable=8, prefill=60, decode=100, windows=15, generations=30, cleared=15).items():
        c.require(k, n)
    c.finish()


run_main(c, main)

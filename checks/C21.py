"""C21: traced programs compute what the module computes."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C21", "random modules (25 operators and layers, views, constants, nested modules called up to four times, layers used again, inputs and intermediate values returned) traced, passed through random pipelines (with and without debug info, memory solver, eager flag), "
          "serialised (also through a file), loaded and interpreted up to three times on new inputs; every output compared bit by bit with the module's own; non-trivial = distinct operator sets",
          ["x86 backend; the passes of the QNN backend are not built.", "Random programs use a view in place of its tensor, never both: see the known finding."])


def main():
    b = cpp.Build("C21", san="asan", opt="-O1")
    exe = b.build(cpp.runtime() + cpp.expand(["mllm/compile/*.cpp"]), ["c21_trace.cpp"], focus=r"mllm/compile/")
    cpp.run(c, exe, timeout=scale(250, 2600), label="programs")
    for k, n in dict(runs=900, reruns=800, outputs=2000, solver=450, nested=150, files=200, traced_again=130, module_after=150, loaded_after=150, unsupported_refused=5).items():
        c.require(k, n)
    c.finish()


run_main(c, main)

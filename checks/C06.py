"""C06: parameter files (v1 and v2, mapped and read)."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C06", "random parameter sets (16 element types, views, long and non-ASCII names) saved, re-parsed by an independent reader and loaded mapped and read; files with gaps, shuffled data and extra segments; cut files "
          "and hostile header fields loaded in child processes; ASan/UBSan; non-trivial = distinct file shapes and kinds of damage",
          ["Element types mllm has no size for (bfloat16 and the reserved ids) are not saved.", "Files are not changed while they are mapped."])


def main():
    b = cpp.Build("C06", san="asan", opt="-O0")
    exe = b.build(cpp.runtime(), ["c06_params.cpp"], focus=r"/core/(ParameterFile|MappedFile|TensorStorage)")
    cpp.run(c, exe, timeout=scale(220, 2400), label="params")
    c.require("roundtrips", 300)
    c.require("view_files", 60)
    c.require("foreign_files", 200)
    c.require("damaged_refused", 500)
    c.require("damaged_loaded", 50)
    c.finish()


run_main(c, main)

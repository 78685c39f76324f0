"""C05: the on-device request service (request, session and response pools)."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, run_main, scale

c = Check("C05", "the real Service with 1-4 workers, 1-3 senders and a reader per request (or two), scripted sessions that stream, throw, end early, send non-text or half characters, unknown models, malformed requests, sessions "
          "registered while running, stop with responses and waiters left; TSan and ASan/UBSan; non-trivial = distinct scenario shapes",
          ["Ids of live requests differ; sessions do not call back after their last token; a stopped service is not started again."])


def main():
    src = cpp.expand(["mllm/engine/service/*.cpp", "mllm/utils/Log.cpp"])
    for san in ("tsan", "asan"):
        b = cpp.Build("C05" + san, san=san, opt="-O1")
        exe = b.build(src, ["c05_service.cpp"])
        cpp.run(c, exe, timeout=scale(140, 1400), label=san)
    c.require("scenarios", 150)
    c.require("requests", 1500)
    c.require("responses", 10000)
    c.require("shared_streams", 100)
    c.require("orders", 30)
    c.require("stops", 150)
    c.finish()


run_main(c, main)

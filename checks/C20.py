"""C20: the on-device HTTP server (mllm-cli) over the C interface and the service."""
import os
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import REPO, VERIF, Check, HarnessError, run_main, scale

c = Check("C20", "the real mllm-cli server (Go, race detector; and again with ASan on the C side) over the real C interface and service, with scripted sessions for models: up to 12 clients at once, own, missing and shared request "
          "ids, models that fail or end without a last token, clients that leave and come back, 26 kinds of invalid request, image requests in both forms with images in earlier messages, stop with a client waiting; "
          "non-trivial = distinct request shapes",
          ["github.com/google/uuid is replaced by a local generator of random ids (the module is not available offline).",
           "The runtime's start-up and the models are replaced below the C interface; Service.cpp and Runtime.cpp are the real ones."])
SHIM = VERIF / "cpp" / "c20shim"


def sh(cmd, env=None, cwd=None):
    p = subprocess.run([str(x) for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=cwd)
    if p.returncode:
        raise HarnessError("build failed: " + " ".join(map(str, cmd))[:200] + "\n" + p.stdout[-3000:])


def build(kind):
    d = cpp.BUILD / ("C20" + kind)
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    san = ["-fsanitize=address"] if kind == "asan" else []
    src = [f for f in cpp.expand(["mllm/engine/service/*.cpp", "mllm/c_api/*.cpp", "mllm/utils/Log.cpp"])]
    sh(["g++", "-shared", "-fPIC", "-g1", "-O1", f"-I{SHIM}"] + cpp.BASE + cpp.INC + cpp.DEFS + san
       + [REPO / f if not str(f).startswith("/") else f for f in src] + [VERIF / "cpp" / "c20_probe.cpp", "-o", d / "libMllmSdkC.so", "-lpthread"])
    for n in ("MllmRT", "MllmCPUBackend"):
        sh(["gcc", "-shared", "-fPIC", "-x", "c", "/dev/null", "-o", d / f"lib{n}.so"])
    mod = d / "go.mod"
    mod.write_text("module mllm-cli\n\ngo 1.23\n\nrequire (\n\tgithub.com/google/uuid v1.6.0\n\tvh20probe v0.0.0\n)\n\n"
                   "replace github.com/google/uuid => %s\n\nreplace vh20probe => %s\n" % (VERIF / "go" / "uuid", VERIF / "go" / "probe"))
    ov = d / "overlay.json"
    ov.write_text('{"Replace": {"%s": "%s"}}' % (REPO / "mllm-cli" / "cmd" / "vh20" / "main.go", VERIF / "go" / "c20" / "main.go"))
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", CGO_ENABLED="1", CC="gcc", CXX="g++",
               CGO_CFLAGS=f"-I{REPO} -I{SHIM} -g -O1", CGO_LDFLAGS=f"-L{d} -Wl,-rpath,{d}", GOCACHE=str(d / "gocache"), GOPATH=str(d / "gopath"))
    exe = d / "run"
    sh(["go", "build", "-race" if kind == "race" else "-asan", f"-modfile={mod}", f"-overlay={ov}", "-buildvcs=false", "-o", exe, "./cmd/vh20"],
       env=env, cwd=REPO / "mllm-cli")
    return exe


def main():
    for kind in ("race", "asan"):
        exe = build(kind)
        with tempfile.TemporaryDirectory(prefix="c20-") as t:
            tmp, sec = os.path.join(t, "tmp"), os.path.join(t, "secret")
            os.mkdir(tmp)
            os.mkdir(sec)
            rc, to, err = cpp.run(c, exe, timeout=scale(120, 1200), label=kind,
                                  env={"TMPDIR": tmp, "VH20_SECRET": sec, "GORACE": "halt_on_error=0 exitcode=66 atexit_sleep_ms=0"})
            for rep in err.split("WARNING: DATA RACE")[1:]:
                rep = rep.split("==================")[0]
                where = [ln.strip() for ln in rep.splitlines() if "/mllm-cli/" in ln and "vh20" not in ln and "/c20/" not in ln]
                if where:
                    at = where[0].split(" ")[0].rsplit("/", 1)[-1].split(":")[0]
                    c.violation(f"race:{at}", f"data race in the server: {where[0][:200]}", {"report": rep[:3000]})
    c.require("answers", 300)
    c.require("events", 1500)
    c.require("left", 20)
    c.require("faithful", 60)
    c.require("refused", 100)
    c.require("images", 60)
    c.require("again", 20)
    c.require("served", 500)
    c.finish()


run_main(c, main)

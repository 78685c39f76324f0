"""Build real mllm C++ sources (from /repo's working tree) with a harness and
run the result under the sanitizers, feeding what it reports into a Check.

Sources are compiled in unity chunks (one translation unit including several of
mllm's files) to keep a sanitizer build of the whole runtime under a minute; a
chunk that does not compile that way is compiled file by file."""
from __future__ import annotations

import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from vlib import REPO, VERIF, HarnessError, scale, seed, tier

BUILD = VERIF / ".build"
INC = ["-I%s" % (VERIF / "cpp" / "shim"), "-I%s" % (VERIF / "cpp"), "-I%s" % REPO] + [
    "-I%s/third_party%s" % (REPO, s) for s in ("", "/stb/include", "/half/include", "/dlpack/include", "/xxHash/include",
                                               "/utfcpp/include", "/json")]
DEFS = ["-DFMT_HEADER_ONLY=1", "-DXXH_DISPATCH_ENABLE=1"]
OMP = ["-DMLLM_KERNEL_USE_THREADS=1", "-DMLLM_KERNEL_THREADS_VENDOR_OPENMP=1"]
POOL = ["-DMLLM_KERNEL_USE_THREADS=1", "-DMLLM_KERNEL_USE_THREADS_VENDOR_MLLM=1"]
BASE = ["-std=c++20", "-w", "-g1", "-mavx2", "-mfma", "-mf16c", "-include", str(VERIF / "cpp" / "shim" / "shim_force.hpp")]
# Undefined behaviour that is reported. `vptr` needs nothing here; `function`
# and `alignment` would flag third-party idioms (half, stb, packed weight
# formats read through casts, which every supported target allows).
UB = ("signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,null,return,unreachable,bool,enum,"
      "vla-bound,pointer-overflow,builtin,nonnull-attribute,returns-nonnull-attribute")
SAN = {"asan": ["-fsanitize=address," + UB, "-fno-omit-frame-pointer", "-fsanitize-recover=" + UB.replace(",return,unreachable", "")],
       "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
       "none": []}

NOT_HERE = re.compile(r"/(arm|mlir_ext|qnn|opencl|ascend|cuda|ffi)/")
XXH = ["third_party/xxHash/src/xxhash.c", "third_party/xxHash/src/xxh_x86dispatch.c"]


def expand(pats):
    out = []
    for p in pats:
        m = sorted(glob.glob(str(REPO / p), recursive=True))
        out += [f for f in m if not NOT_HERE.search(f)]
    seen = set()
    return [f for f in out if not (f in seen or seen.add(f))]


def runtime():
    """The whole mllm runtime and CPU backend (no models, no accelerators)."""
    return expand(["mllm/mllm.cpp", "mllm/backends/base/*.cpp", "mllm/core/**/*.cpp", "mllm/engine/**/*.cpp",
                   "mllm/nn/**/*.cpp", "mllm/utils/*.cpp", "mllm/compile/ir/**/*.cpp", "mllm/compile/symbolic_expr/*.cpp",
                   "mllm/compile/passes/*.cpp", "mllm/preprocessor/**/*.cpp", "mllm/backends/cpu/*.cpp",
                   "mllm/backends/cpu/ops/*.cpp", "mllm/backends/cpu/kernels/**/*.cpp", "mllm/compile/jit/**/*.cpp",
                   "third_party/wenet_audio/*.cc"])


# Files with file-local helpers of common names: compiled on their own.
ALONE = re.compile(r"(ElewiseOps|llamafile_sgemm|/kernels/|ggml|unicode|Image\.cpp|wenet_audio)")


def chunks(files, n=12):
    out, cur, curdir = [], [], None
    for f in files:
        if ALONE.search(f):
            out.append([f])
            continue
        d = os.path.dirname(f)
        if cur and (len(cur) >= n or d.split("/")[:4] != curdir.split("/")[:4]):
            out.append(cur)
            cur = []
        cur.append(f)
        curdir = d
    if cur:
        out.append(cur)
    return out


def _sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def _fresh(obj: Path, cmd):
    """Development only (VERIF_INCREMENTAL=1): the object is reused when the
    command and the contents of every file it was built from are unchanged."""
    sig = obj.with_suffix(".sig")
    dep = obj.with_suffix(".d")
    if os.environ.get("VERIF_INCREMENTAL") != "1" or not (obj.exists() and sig.exists() and dep.exists()):
        return False
    try:
        return sig.read_text() == _depsig(dep, cmd)
    except OSError:
        return False


def _depsig(dep: Path, cmd):
    txt = dep.read_text().replace("\\\n", " ").split(":", 1)[1]
    h = hashlib.sha1(" ".join(cmd).encode())
    for f in txt.split():
        if f.startswith("/usr/"):
            continue
        h.update(f.encode())
        h.update(Path(f).read_bytes())
    return h.hexdigest()


class Build:
    def __init__(self, name, san="asan", opt="-O1", defs=None, cc=None, omp=False, extra=None, link=None):
        self.name, self.san, self.opt = name, san, opt
        self.dir = BUILD / name
        if os.environ.get("VERIF_INCREMENTAL") != "1" and self.dir.exists():
            shutil.rmtree(self.dir)
        self.dir.mkdir(parents=True, exist_ok=True)
        if not (shutil.which("clang++") and shutil.which("g++")):
            raise HarnessError("compilers are missing")
        self.cxx = cc or ("g++" if omp else "clang++")
        self.flags = BASE + INC + DEFS + (defs if defs is not None else OMP) + SAN[san] + (["-fopenmp"] if omp else []) + (extra or [])
        self.link = link or []
        self.omp = omp

    def _cc(self, src, obj: Path, opt=None, c=False, plain=False):
        base = [self.cxx if not c else ("gcc" if self.cxx == "g++" else "clang")]
        if c:
            cmd = base + ["-w", "-g1", "-O1", "-DXXH_DISPATCH_ENABLE=1"] + INC + [s for s in SAN[self.san] if "thread" in s]
        else:
            fl = [f for f in self.flags if not (f.startswith("-fsanitize") or f == "-g1")] + ["-g0"] if plain else self.flags
            o = opt or ("-O0" if plain else self.opt)
            cmd = base + fl + [o] + self._pch(plain, o)
        cmd = cmd + ["-MMD", "-MF", str(obj.with_suffix(".d")), "-c", str(src), "-o", str(obj)]
        if _fresh(obj, cmd):
            return None
        t0 = time.time()
        p = _run(cmd)
        if os.environ.get("VERIF_CCTIME"):
            print(f"{time.time() - t0:6.1f} {src}", file=sys.stderr)
        if p.returncode:
            return p.stdout[-4000:]
        if os.environ.get("VERIF_INCREMENTAL") == "1":
            obj.with_suffix(".sig").write_text(_depsig(obj.with_suffix(".d"), cmd))
        return None

    def _pch(self, plain, opt):
        """Flags that use a precompiled header, where there is one for them."""
        return self.pch.get((plain, opt), []) if self.cxx == "clang++" else []

    def _make_pch(self, plain, opt):
        if self.cxx != "clang++":
            return
        out = self.dir / f"pch-{int(plain)}{opt}.pch"
        fl = [f for f in self.flags if not (f.startswith("-fsanitize") or f == "-g1")] + ["-g0"] if plain else self.flags
        cmd = [self.cxx] + fl + [opt, "-x", "c++-header", str(VERIF / "cpp" / "pch.hpp"), "-MMD", "-MF", str(out.with_suffix(".d")), "-o", str(out)]
        if _fresh(out, cmd) or _run(cmd).returncode == 0:
            if os.environ.get("VERIF_INCREMENTAL") == "1":
                out.with_suffix(".sig").write_text(_depsig(out.with_suffix(".d"), cmd))
            self.pch[(plain, opt)] = ["-include-pch", str(out)]

    def build(self, files, harness, opts=None, exe="run", focus=None):
        """files: mllm sources; harness: list of /verif/cpp files. With focus (a
        regular expression), only matching sources are instrumented; they are
        linked first, so their copies of inline functions are the ones used."""
        t0 = time.time()
        jobs = []
        plain = set()
        self.pch = {}
        if len(files) > 60:
            self._make_pch(bool(focus), "-O0" if focus else self.opt)
        groups = chunks(files)
        if focus:
            assert self.san != "tsan"
            rest = [f for f in files if not re.search(focus, f)]
            far = chunks(rest, 24)
            plain = {ch[0] for ch in far}
            groups = chunks([f for f in files if re.search(focus, f)], 4) + far
        for ch in groups:
            tag = _sha(*ch)[:12]
            if len(ch) == 1:
                jobs.append((ch, Path(ch[0]), self.dir / f"{Path(ch[0]).stem}-{tag}.o"))
            else:
                u = self.dir / f"u-{tag}.cpp"
                text = "".join(f'#include "{f}"\n' for f in ch)
                if not u.exists() or u.read_text() != text:
                    u.write_text(text)
                jobs.append((ch, u, self.dir / f"u-{tag}.o"))
        for h in harness:
            jobs.append(([h], VERIF / "cpp" / h, self.dir / (h.replace("/", "_") + ".o")))
        objs, errs = [], []

        def one(job):
            ch, src, obj = job
            opt = None
            pl = ch[0] in plain
            for pat, o in (opts or {}).items():
                if re.search(pat, ch[0]):
                    opt = o
            e = self._cc(src, obj, opt, plain=pl)
            if e is None:
                return [obj], None
            if len(ch) == 1:
                return [], e
            # Not as one unit (two files' local names clash): halves, in parallel.
            res = []
            halves = [ch[:len(ch) // 2], ch[len(ch) // 2:]]
            objs2 = []
            for hf in halves:
                tag = _sha(*hf)[:12]
                u = self.dir / f"u-{tag}.cpp"
                u.write_text("".join(f'#include "{f}"\n' for f in hf))
                objs2.append((hf, u if len(hf) > 1 else Path(hf[0]), self.dir / f"u-{tag}.o"))
                if pl:
                    plain.add(hf[0])
            with ThreadPoolExecutor(2) as ex2:
                for r, e2 in ex2.map(one, objs2):
                    if e2:
                        return [], e2
                    res += r
            return res, None

        def cx(f):
            o = self.dir / (Path(f).name + ".o")
            return [o], self._cc(REPO / f, o, c=True)

        big = sorted(jobs, key=lambda j: -(3 * len(j[0]) + (30 if len(j[0]) == 1 and ALONE.search(j[0][0]) else 0)))
        with ThreadPoolExecutor(8) as ex:
            futs = [(j, ex.submit(one, j)) for j in big] + [(None, ex.submit(cx, f)) for f in XXH]
            for j, f in futs:
                o, e = f.result()
                objs = objs + o if j is None or j[0][0] in plain else o + objs
                if e:
                    errs.append(e)
        if errs:
            raise HarnessError("compile failed:\n" + errs[0])
        out = self.dir / exe
        cmd = [self.cxx] + SAN[self.san] + (["-fopenmp"] if self.omp else []) + [str(o) for o in objs] + [
            "-o", str(out), "-ldl", "-lpthread", "-rdynamic"] + self.link
        p = _run(cmd)
        if p.returncode:
            raise HarnessError("link failed:\n" + p.stdout[-4000:])
        self.build_s = round(time.time() - t0, 1)
        return out


# ---------------------------------------------------------------------------
SUPP = VERIF / "cpp" / "tsan.supp"


def _frames(txt):
    """(function, file) of the frames of a sanitizer report that are in /repo."""
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/[^\s:()]+):(\d+)", txt):
        fn, f = m.group(1), m.group(2)
        if f.startswith(str(REPO) + "/mllm/") or f.startswith(str(REPO) + "/third_party/wenet"):
            out.append((re.sub(r"<.*?>|\(.*?\)", "", fn).split("(")[0][-60:], Path(f).name))
    return out


def _harness_only(txt):
    return not _frames(txt)


def reports(err):
    """Sanitizer findings in a process's stderr: [(signature, text)]."""
    out = []
    for m in re.finditer(r"^(.+?):(\d+):(\d+): runtime error: (.+)$", err, re.M):
        f = m.group(1)
        kind = re.sub(r"-?\d[\d.e+]*|0x[0-9a-f]+|'[^']*'|nan|inf", "#", m.group(4))[:70]
        if f.startswith(str(REPO)) and "/third_party/" not in f:
            out.append((f"ub:{Path(f).name}:{kind}", m.group(0)))
    for m in re.finditer(r"==\d+==\s*ERROR: AddressSanitizer: (\S+)(.*?)(?====|\Z)", err, re.S):
        fr = _frames(m.group(2))
        where = fr[0][1] + ":" + fr[0][0].split("::")[-1] if fr else "?"
        out.append((f"asan:{m.group(1)}:{where}", (m.group(0))[:2500]))
    for m in re.finditer(r"==\d+==\s*ERROR: LeakSanitizer(.*?)(?:SUMMARY|\Z)", err, re.S):
        leaks = re.split(r"(?:Direct|Indirect) leak of", m.group(1))
        for lk in leaks[1:]:
            fr = _frames(lk)
            if fr:
                out.append((f"leak:{fr[0][1]}:{fr[0][0].split('::')[-1]}", lk[:1500]))
    for m in re.finditer(r"WARNING: ThreadSanitizer: (.+?) \(pid=\d+\)(.*?)={18}", err, re.S):
        fr = _frames(m.group(2))
        if fr:
            files = "+".join(sorted({f for _, f in fr[:6]}))[:80]
            out.append((f"tsan:{m.group(1).strip().replace(' ', '-')}:{fr[0][0].split('::')[-1]}:{files}", m.group(0)[:3000]))
    return out


def run(check, exe, args=(), timeout=120, env=None, label=None, crash_is_violation=True, leaks=None):
    """leaks: regular expression on the file of a leak's innermost mllm frame
    (the runtime's own pools are never torn down: they are not leaks of the part
    under test); None turns leak detection off."""
    label = label or Path(exe).parent.name
    of = Path(exe).parent / f"out-{os.getpid()}-{abs(hash((label, tuple(map(str, args))))) % 10**8}.txt"
    if of.exists():
        of.unlink()
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    e.update(VH_OUT=str(of), VH_SEED=str(seed()), VH_THOROUGH="1" if tier() == "thorough" else "0",
             OMP_NUM_THREADS=e.get("VH_OMP", "4"),
             ASAN_OPTIONS="detect_leaks=%d:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                          "handle_abort=0" % (1 if leaks else 0),
             UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=0",
             TSAN_OPTIONS="exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4" + (
                 f":suppressions={SUPP}" if SUPP.exists() else ""),
             LSAN_OPTIONS="exitcode=78")
    e.update(env or {})
    errf = of.with_suffix(".err")
    with open(errf, "wb") as ef:
        p = subprocess.Popen([str(exe)] + [str(a) for a in args], env=e, stdout=subprocess.DEVNULL, stderr=ef,
                             cwd=str(Path(exe).parent), start_new_session=True)
        to = False
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    err = errf.read_text(errors="replace")
    replay = {"cmd": [str(exe)] + [str(a) for a in args], "seed": seed(), "label": label}
    ended = False
    last = ""
    if of.exists():
        for line in of.read_text(errors="replace").splitlines():
            f = line.split("\t")
            if f[0] == "C":
                check.case(f[1] if len(f) > 1 else None, sample=None)
            elif f[0] == "N":
                check.evaluations += int(f[1])
            elif f[0] == "K":
                check.keys.add(f[1])
            elif f[0] == "O":
                check.observe(f[1], int(f[2]))
            elif f[0] == "S":
                check.seen(f[1], f[2])
            elif f[0] == "X" and len(check.samples) < 6:
                check.samples.append(f[1])
            elif f[0] == "V":
                check.violation(f[1], f[2], dict(replay, detail=f[3] if len(f) > 3 else ""))
            elif f[0] == "B":
                last = f[1]
            elif f[0] == "H":
                raise HarnessError(f"{label}: {f[1]}")
            elif f[0] == "E":
                ended = True
        of.unlink()
    errf.unlink()
    found = [(g, t) for g, t in reports(err) if not g.startswith("leak:") or (leaks and re.search(leaks, g.split(":")[1]))]
    for sig, txt in found:
        check.violation(sig, f"{label}: {txt.splitlines()[0][:300]}" + (f" (during {last})" if last else ""), dict(replay, report=txt[:3000]))
    if to and crash_is_violation:
        check.violation(f"hang:{label}:{last.split(' ')[0] if last else ''}", f"{label}: no progress within {timeout}s (during {last})", replay)
    elif crash_is_violation and not ended and not found:
        check.violation(f"crash:{label}:{last.split(' ')[0] if last else ''}",
                        f"{label}: the process ended with {rc} (during {last}): {err.strip()[-400:]}", dict(replay, stderr=err[-2000:]))
    elif rc not in (0, 66, 77, 78) and ended and not found and crash_is_violation:
        check.violation(f"exit:{label}", f"{label}: exit status {rc}: {err.strip()[-300:]}", replay)
    return rc, to, err

"""Shared machinery of the runtime-monitoring checks.

A check is a script /verif/checks/<ID>.py that drives real code from /repo and
reports what its monitors saw through a `Check` object:

    c = Check("P01")
    c.case(key, nontrivial=True)     # one executed workload / input
    c.observe("evictions", 3)        # monitored events, distinct states, ...
    c.violation("sig", "message", {...replay...})
    c.finish()

Verdicts: held (exit 0), violated (exit 1 + VIOLATION line), no answer (exit 2).
A violation whose signature is listed in known_findings.json for this property
is printed as KNOWN-FINDING and does not fail the check.
"""
from __future__ import annotations

import hashlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
EVID = VERIF / "evidence"
LEVEL = "exploration"


def seed() -> int:
    return int(os.environ.get("VERIF_SEED", "1") or "1")


def tier() -> str:
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def scale(quick: int, thorough: int) -> int:
    return thorough if tier() == "thorough" else quick


def _known(pid):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return {}
    data = json.loads(p.read_text())
    return {e["signature"]: e for e in data.get("findings", []) if e["property"] == pid}


class HarnessError(Exception):
    """The harness could not do its work (no verdict)."""


class Check:
    def __init__(self, pid: str, rule: str, assumptions=None):
        self.pid = pid
        self.rule = rule
        self.assumptions = assumptions or []
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.counters = {}
        self.sets = {}
        self.samples = []
        self.viol = {}
        self.min_required = {}
        self.extra = {}

    # -- what was observed -------------------------------------------------
    def case(self, key=None, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            if key is None:
                key = self.evaluations
            self.keys.add(key if isinstance(key, (int, str)) else hashlib.sha1(repr(key).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def observe(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, name, value):
        """Count distinct observed values (states, interleavings, outcomes)."""
        self.sets.setdefault(name, set()).add(value if isinstance(value, (int, str, bool, float)) else repr(value))

    def require(self, name, n):
        """Fewer than n observations of `name` makes the run inconclusive."""
        self.min_required[name] = n

    # -- verdicts ------------------------------------------------------------
    def violation(self, sig: str, msg: str, replay=None):
        e = self.viol.get(sig)
        if e is None:
            self.viol[sig] = {"sig": sig, "msg": msg, "replay": replay, "count": 1}
        else:
            e["count"] += 1
        return sig

    def exception(self, exc: BaseException, where: str, replay=None):
        """An exception from the code under test is a violation; one raised by
        the harness alone is a harness error."""
        tb = traceback.extract_tb(exc.__traceback__)
        repo_frames = [f for f in tb if str(f.filename).startswith(str(REPO))]
        if not repo_frames:
            raise exc
        f = repo_frames[-1]
        sig = f"exception:{where}:{type(exc).__name__}:{f.name}"
        self.violation(sig, f"{where}: {type(exc).__name__}: {exc} (in {f.name}, {Path(f.filename).name})",
                       {"replay": replay, "traceback": traceback.format_exception(exc)})

    def finish(self):
        known = _known(self.pid)
        EVID.mkdir(exist_ok=True)
        rdir = EVID / "replays"
        lines = []
        unknown = []
        for sig, v in self.viol.items():
            if sig in known:
                lines.append(f"KNOWN-FINDING: property={self.pid} {known[sig]['what']} [{sig}] x{v['count']}")
            else:
                unknown.append(v)
        # an inconclusive run is neither held nor violated
        incon = []
        for name, n in self.min_required.items():
            have = self.counters.get(name, 0)
            if name in self.sets:
                have = len(self.sets[name])
            if have < n:
                incon.append(f"{name}={have} (<{n})")
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.keys),
            "rule": self.rule,
            "samples": self.samples or ["(none)"],
            "observed": dict(sorted(self.counters.items())),
            "distinct_observed": {k: len(v) for k, v in sorted(self.sets.items())},
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": tier(), "seed": seed(), "level": LEVEL,
            "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
            "violations": [{"signature": v["sig"], "message": v["msg"], "count": v["count"]} for v in unknown],
            "assumptions": self.assumptions,
        }
        if lines:
            ev["coverage"]["known_findings_seen"] = lines
        out = EVID / f"{self.pid}.json"
        tmp = out.with_suffix(".tmp")
        tmp.write_text(json.dumps(ev, indent=1, default=str))
        tmp.replace(out)
        for ln in lines:
            print(ln)
        if unknown:
            rdir.mkdir(exist_ok=True)
            for v in unknown[:8]:
                h = hashlib.sha1(v["sig"].encode()).hexdigest()[:10]
                rp = rdir / f"{self.pid}-{h}.json"
                rp.write_text(json.dumps({"property": self.pid, "seed": seed(), "tier": tier(), "signature": v["sig"],
                                          "message": v["msg"], "replay": v["replay"]}, indent=1, default=str))
                print(f"  [{v['sig']}] x{v['count']}: {v['msg'][:600]}")
                print(f"VIOLATION property={self.pid} replay={rp}")
            sys.stdout.flush()
            os._exit(1)
        if incon:
            print(f"INCONCLUSIVE property={self.pid}: observed too little: {', '.join(incon)}")
            sys.stdout.flush()
            os._exit(2)
        print(f"HELD property={self.pid} evaluations={self.evaluations} distinct={len(self.keys)} "
              f"observed={json.dumps(cov['observed'])} wall={ev['wall_s']}s")
        sys.stdout.flush()
        os._exit(0)


def run_main(check: Check, fn):
    """Run a check's main function; an exception that ends in the code under
    test is reported as a violation, any other means the check has no answer."""
    try:
        fn()
    except BaseException as e:  # noqa: BLE001
        try:
            check.exception(e, "main")
            check.finish()
        except BaseException:
            traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(3)


def parallel(check: Check, fn, n: int, workers: int = 6):
    """Run fn(i) for i in range(n) in forked workers; merge what they observed.

    Case i does the same whatever the number of workers is."""
    import pickle
    workers = max(1, min(workers, n))
    kids = []
    sys.stdout.flush()
    for w in range(workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            err = None
            check.evaluations, check.keys, check.counters = 0, set(), {}
            check.sets, check.samples, check.viol = {}, [], {}
            try:
                for i in range(w, n, workers):
                    fn(i)
            except BaseException:  # noqa: BLE001
                err = traceback.format_exc()
            try:
                data = pickle.dumps((check.evaluations, check.keys, check.counters, check.sets, check.samples, check.viol, err))
                with os.fdopen(wfd, "wb") as f:
                    f.write(data)
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(0)
        os.close(wfd)
        kids.append((pid, r))
    errs = []
    crashed = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            crashed.append(os.WTERMSIG(st))
            continue
        ev, keys, cnt, sets, samples, viol, err = pickle.loads(data)
        check.evaluations += ev
        check.keys |= keys
        for k, v in cnt.items():
            check.counters[k] = check.counters.get(k, 0) + v
        for k, v in sets.items():
            check.sets.setdefault(k, set()).update(v)
        check.samples = (check.samples + samples)[:6]
        for k, v in viol.items():
            if k in check.viol:
                check.viol[k]["count"] += v["count"]
            else:
                check.viol[k] = v
        if err:
            errs.append(err)
    if errs and not check.viol:
        raise HarnessError(errs[0])
    if crashed and not check.viol:
        os.kill(os.getpid(), crashed[0])


def parallel_fresh(check: Check, fn, n: int, workers: int = 8):
    """Like parallel(), with a process of its own for every case."""
    for k in range(0, n, workers):
        m = min(workers, n - k)
        parallel(check, lambda j: fn(k + j), m, workers=m)


def setup_python_repo():
    """Make /repo's Python importable the way its own tests do."""
    sys.dont_write_bytecode = True
    for p in (str(REPO), str(REPO / "mllm-kernel")):
        if p not in sys.path:
            sys.path.insert(0, p)
    import logging
    logging.disable(logging.CRITICAL)


def unknown_only(check: Check):
    known = _known(check.pid)
    return [s for s in check.viol if s not in known]

#!/usr/bin/env python3
"""mut.py FILE [-j N] [-k substr]: mutation campaign for the checks.

FILE is a Python file with MUTANTS = [(name, "P01 P03", path, old, new), ...].
Each mutant is applied to a scratch clone of /repo and the named checks run with
VERIF_REPO pointing at it; the report says which of them raised a violation."""
import os, re, subprocess, sys, threading, queue, runpy, time, json
args = sys.argv[1:]
N = 3; K = None; OFF = 0; out = "/tmp/mut.log"
if "-j" in args: i = args.index("-j"); N = int(args[i+1]); del args[i:i+2]
if "-o" in args: i = args.index("-o"); OFF = int(args[i+1]); del args[i:i+2]
if "-k" in args: i = args.index("-k"); K = args[i+1]; del args[i:i+2]
muts = runpy.run_path(args[0])["MUTANTS"]
q = queue.Queue()
for m in muts:
    if K is None or K in m[0]: q.put(m)
lock = threading.Lock()
locks = {}
def say(*a):
    with lock:
        print(*a, flush=True)
        with open(out, "a") as f: print(*a, file=f)
def worker(i):
    wt = f"/tmp/mw{i}"
    if not os.path.isdir(wt):
        subprocess.run(["git", "clone", "-q", os.environ.get("MUT_BASE", "/repo"), wt], check=True)
    while True:
        try: name, props, path, old, new = q.get_nowait()
        except queue.Empty: return
        subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."])
        subprocess.run(["git", "-C", wt, "pull", "-q"])
        p = os.path.join(wt, path); s = open(p).read()
        if s.count(old) != 1:
            say(f"?? {name}: pattern occurs {s.count(old)} times"); continue
        open(p, "w").write(s.replace(old, new))
        res = []
        for pid in props.split():
            with lock: L = locks.setdefault(pid, threading.Lock())
            with L:   # one run per check at a time (shared build dir and evidence file)
                t = time.time()
                try:
                    r = subprocess.run(["./check", pid], cwd="/verif", capture_output=True, text=True, timeout=700,
                                       env=dict(os.environ, VERIF_REPO=wt, VERIF_INCREMENTAL="1"))
                    msg = next((l for l in r.stdout.splitlines() if l.startswith("[" + pid)), "")[:170]
                    res.append(f"{pid}:{'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'RC%d' % r.returncode}({time.time()-t:.0f}s)" + (f" {msg}" if r.returncode == 1 else "") + ((" " + (r.stdout + r.stderr)[-300:].replace("\n", " | ")) if r.returncode not in (0, 1) else ""))
                except subprocess.TimeoutExpired:
                    res.append(f"{pid}:TIMEOUT")
        ok = any("CAUGHT" in r for r in res)
        say(("ok   " if ok else "MISS ") + name + "  " + "  ".join(res))
        subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."])
ts = [threading.Thread(target=worker, args=(i + OFF,)) for i in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]

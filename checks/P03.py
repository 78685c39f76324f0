"""P03: every KV slot has one owner at a time and all of them come back."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import vlib
vlib.setup_python_repo()
import serving

serving.serving_check("P03", {"P03"}, "random request histories (shared prefixes, repeats, continuations, bursts, small KV pools) through the real scheduler event loop with a KV-content-sensitive model; non-trivial = more than 3 decode rows computed", n=(700, 12000), aborts=0.12,
    requires=[("kv_writes", 2000), ("prefix_hits", 50), ("idle_audits", 50), ("aborts", 10), ("retractions", 5)])

"""P07: scheduling limits hold and every request ends in bounded steps."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import vlib
vlib.setup_python_repo()
import serving

serving.serving_check("P07", {"P07"}, "random request histories (shared prefixes, repeats, continuations, bursts, small KV pools) through the real scheduler event loop with a KV-content-sensitive model; non-trivial = more than 3 decode rows computed", n=(700, 12000), seedmul=7, oversize=0.15, aborts=0.05,
    requires=[("prefill_batches", 300), ("decode_batches", 500), ("retractions", 5), ("running", 4)])

"""P09: an aborted request stops, returns its resources and does not disturb others."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import vlib
vlib.setup_python_repo()
import serving

serving.serving_check("P09", {"P09"}, "random request histories (shared prefixes, repeats, continuations, bursts, small KV pools) through the real scheduler event loop with a KV-content-sensitive model; non-trivial = more than 3 decode rows computed; 45% of the requests get aborted", n=(600, 10000), seedmul=13, aborts=0.45, differential=("aborts",),
    requires=[("aborts", 300), ("abort_stage", 2), ("tokens_checked", 500)])

"""P08: completion protocol: end reason, limits, deltas, exactly one terminal."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import vlib
vlib.setup_python_repo()
import serving

serving.serving_check("P08", {"P08"}, "random request histories (shared prefixes, repeats, continuations, bursts, small KV pools) through the real scheduler event loop with a KV-content-sensitive model; non-trivial = more than 3 decode rows computed", n=(700, 12000), seedmul=11,
    requires=[("terminals", 500), ("deltas", 500), ("finish", 2), ("retractions", 3)])

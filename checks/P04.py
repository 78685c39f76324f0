"""P04: a request generates what it would generate alone, whatever is batched, cached, evicted or retracted."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import vlib
vlib.setup_python_repo()
import serving

serving.serving_check("P04", {"P04", "P05"}, "random request histories (shared prefixes, repeats, continuations, bursts, small KV pools) through the real scheduler event loop with a KV-content-sensitive model; non-trivial = more than 3 decode rows computed", n=(700, 12000), seedmul=3,
    requires=[("tokens_checked", 2000), ("prefix_hits", 50), ("retractions", 5), ("penalized_tokens", 50)])

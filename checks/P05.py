"""P05: recurrent state of hybrid models follows the tokens through prefix hits, eviction and retraction."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import vlib
vlib.setup_python_repo()
import serving

serving.serving_check("P05", {"P05"}, "random request histories (shared prefixes, repeats, continuations, bursts, small KV pools) through the real scheduler event loop with a KV-content-sensitive model; non-trivial = more than 3 decode rows computed", flavors=["hybrid", "hybrid-mamba"], n=(500, 8000), seedmul=5,
    requires=[("tokens_checked", 1000), ("prefix_hits", 20)])

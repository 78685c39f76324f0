"""P27: a malformed or unservable request fails alone."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import vlib
vlib.setup_python_repo()
import serving

serving.serving_check("P27", {"P27"}, "random request histories (shared prefixes, repeats, continuations, bursts, small KV pools) through the real scheduler event loop with a KV-content-sensitive model; non-trivial = more than 3 decode rows computed; with malformed parameters, empty and oversized prompts mixed in", n=(500, 8000), seedmul=17, malformed=0.2, oversize=0.1, differential=("malformed", "oversize"),
    requires=[("rejected", 100), ("tokens_checked", 500)])

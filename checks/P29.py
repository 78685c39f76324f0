"""P29: a decode step replayed from a captured graph computes what the model defines, and touches only its own rows."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import importlib.util
import random
import realmodel as rm
from vlib import Check, parallel, run_main, scale, seed
import torch
import fakegpu
import graphsim
graphsim.install()
import pymllm.executor.cuda_graph_runner as CG
import pymllm.layers.attention.flashinfer_backend as FB
import pymllm.layers.attention.gdn_backend as GB

c = Check("P29", "the model checks of P22, P23 and P25 (random checkpoints and schedules, judged row by row against the transformers reference) with every decode step that fits served by the real CudaGraphRunner over a graph simulator that records "
          "tensor operations on their buffers and replays exactly those; batches padded up to a captured size, exact, or too large; a monitor compares all KV rows, recurrent and convolution states and request maps around every replay; non-trivial = distinct (model kind, configuration, schedule)")


def module(n):
    sp = importlib.util.spec_from_file_location(n, __file__.rsplit("/", 1)[0] + f"/{n}.py")
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    m.c = c
    return m


MODS = [module(n) for n in ("P22", "P23", "P25")]
fall = GB.GDNAttnBackend._decode_pytorch_fallback
GB.GDNAttnBackend._decode_pytorch_fallback = lambda *a, **k: fakegpu.kernel(lambda: fall(*a, **k))     # one fused kernel on the GPU
FB.fast_decode_plan = lambda self, *a, **k: type(self).begin_forward(self, *a, **k)
make = rm.runner
sizes = CG._default_capture_batch_sizes
R = [None]


def diff(a, b):
    return [i for i in range(a.shape[0]) if not torch.equal(torch.nan_to_num(a[i], nan=7e7), torch.nan_to_num(b[i], nan=7e7))]


def watched(replay, run):
    def f(fb):
        kv, gd = run.token_to_kv_pool, run.gdn_pool
        bufs = [b for l in range(run.num_hidden_layers) for b in kv.get_kv_buffer(l)]
        # what a padded row may use: the reserved rows
        old = [b.clone() for b in bufs]
        st = [t for t in (gd.recurrent_state, gd.conv_state)] if gd is not None else []
        so = [t.clone() for t in st]
        r2t = run.req_to_token_pool.req_to_token
        ro = r2t.clone()
        out = replay(fb)
        c.observe("replays")
        c.observe("padded replays" if fb.batch_size not in run.graph_runner.capture_bs else "exact replays")
        c.seen("replayed batch sizes", (fb.batch_size, max(run.graph_runner.capture_bs)))
        ok = set(fb.out_cache_loc.tolist()) | {0}
        for l, (a, b) in enumerate(zip(old, bufs)):
            w = set(diff(a, b)) - ok
            if w:
                c.violation("kv-write", f"a replayed decode of {fb.batch_size} sequences wrote KV slots {sorted(w)[:5]} (buffer {l}) that are not its own {sorted(ok)}", {})
            c.observe("KV rows compared", a.shape[0])
        rows = set(fb.req_pool_indices.tolist()) | {0}
        for name, a, b in zip(("recurrent", "convolution"), so, st):
            # [layers, slots, ...]
            w = {s for s in range(a.shape[1]) if not torch.equal(torch.nan_to_num(a[:, s], nan=7e7), torch.nan_to_num(b[:, s], nan=7e7))} - rows
            if w:
                c.violation("state-write", f"a replayed decode of requests {sorted(rows)} changed the {name} state of slots {sorted(w)[:5]}", {})
            c.observe("state slots compared", a.shape[1])
        if not torch.equal(ro, r2t):
            c.violation("map-write", "a replayed decode changed the request-to-token map", {})
        return out
    return f


def runner(cfg, d, **k):
    run = make(cfg, d, **k)
    r = R[0]
    n = r.choice([2, 3, 4, 5, 8, 8, 8, 8])
    FB._has_fast_decode_plan = r.random() < 0.5
    run.max_running_requests = n
    run.server_config.enable_torch_compile, run.server_config.torch_compile_max_bs = False, 8
    # also other schedules of captured sizes than the shipped one, so that small batches get padded
    CG._default_capture_batch_sizes = sizes if r.random() < 0.4 else lambda mx: sorted({b for b in r.choice([[8], [3, 7], [4, 8], [1, 5], [2, 6], [6]]) if b <= mx} or {1})
    with torch.no_grad():
        run.graph_runner = CG.CudaGraphRunner(run)
    gr = run.graph_runner
    if not (gr.capture_bs == sorted(set(gr.capture_bs)) and set(gr.graphs) == set(gr.capture_bs) and gr.max_bs == max(gr.capture_bs) and gr.capture_bs[-1] <= n):
        c.violation("capture-sizes", f"captured batch sizes {gr.capture_bs} for at most {n} requests", {})
    c.observe("graphs captured", len(gr.graphs))
    gr.replay = watched(gr.replay, run)
    return run


rm.runner = runner


def one(i):
    m = MODS[i % 3]
    R[0] = random.Random(seed() * 7919 + i)
    rm.play.__defaults__ = (None, None, (1, 6), R[0].choice([2, 4, 6, 9]), 0.7, False)
    try:
        m.one(i)
    except graphsim.NotCapturable as e:
        c.violation("not-capturable", str(e), dict(case=i))


def main():
    parallel(c, one, scale(210, 4000), workers=8)
    c.require("replays", 800)
    c.require("padded replays", 150)
    c.require("exact replays", 300)
    c.require("graphs captured", 400)
    c.require("image decode rows", 60)
    c.require("state slots compared", 500)
    c.finish()


if __name__ == "__main__":
    run_main(c, main)

"""P26: tensor-parallel shards together compute the unsharded layer; the rank grid is a grid."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import ctypes
import os
import pickle
import random
import shutil
import signal
import tempfile
import time
import traceback
import warnings
warnings.filterwarnings("ignore")
os.environ.setdefault("GLOO_SOCKET_IFNAME", "lo")
os.environ.setdefault("OMP_NUM_THREADS", "1")
from vlib import Check, run_main, scale, seed
import torch
import torch.distributed as dist
import torch.nn.functional as F
torch.set_num_threads(1)
import fakegpu
import pymllm.layers.mlp as mlp
import pymllm.orchestrator as orch
import pymllm.orchestrator.parallel_state as ps
from pymllm.layers.embedding import VocabParallelEmbedding
from pymllm.layers.linear import ColumnParallelLinear, MergedLinear, RowParallelLinear
mlp._ACTIVATION_MAP.update(silu=fakegpu.silu_and_mul, gelu=fakegpu.gelu_and_mul, gelu_tanh=fakegpu.gelu_tanh_and_mul)

c = Check("P26", "groups of real processes (gloo over loopback) for every grid TP x DP x PP of up to 8 ranks; the real parallel state, group coordinator and parallel layers loaded from one full checkpoint, random shapes, biases, inputs; "
          "each rank's output against the unsharded layer, collectives against what the group holds, and the rank grid against the definition of a grid; non-trivial = distinct (grid, layer, shape) with more than one rank")
TOL = 1e-4
ACTS = {"silu": F.silu, "gelu": F.gelu, "gelu_tanh": lambda a: F.gelu(a, approximate="tanh")}


def rnd(g, *shape):
    return torch.randn(*shape, generator=g)


def load(layer, name, full):
    p = getattr(layer, name)
    p.weight_loader(p, full)


def close(a, b):
    return a.shape == b.shape and bool(torch.isfinite(a).all()) and float((a - b).abs().max() if a.numel() else 0) <= TOL * (1 + float(b.abs().max() if b.numel() else 0))


def cases(r, tp, n):
    """Every rank of a TP group sees the same list."""
    out = []
    for k in range(n):
        kind = r.choice(["col", "row", "colrow", "emb", "mlp", "split", "gather", "reduce", "bcast"])
        out.append((kind, r.randrange(1 << 30)))
    return out


def play(kind, s, tp, rank, log):
    """Run one case; returns None or what went wrong."""
    r = random.Random(s)
    g = torch.Generator().manual_seed(s)
    lead = r.choice([(1,), (3,), (2, 3), (5,), (1, 1)])
    a, b, m = tp * r.randrange(1, 7), tp * r.randrange(1, 7), r.randrange(1, 20)
    grp = orch.get_tp_group()
    bias = r.random() < 0.5
    with torch.no_grad():
        if kind == "col":
            gather = r.random() < 0.6
            W, B, x = rnd(g, a, m), rnd(g, a), rnd(g, *lead, m)
            l = ColumnParallelLinear(m, a, bias=bias, gather_output=gather)
            load(l, "weight", W)
            if bias:
                load(l, "bias", B)
            want = F.linear(x, W, B if bias else None)
            if not gather:
                want = want[..., rank * a // tp:(rank + 1) * a // tp]
            got = l(x)
            shape = (m, a, gather, bias)
        elif kind in ("row", "colrow"):
            red = r.random() < 0.7
            W, B = rnd(g, m, b), rnd(g, m)
            if kind == "row":
                x = rnd(g, *lead, b)
                mine = orch.split_tensor_along_dim(x, x.dim() - 1, tp, rank)
                l = RowParallelLinear(b, m, bias=bias, reduce_output=red)
            else:      # the Megatron pair
                W0, B0, x0 = rnd(g, b, 7), rnd(g, b), rnd(g, *lead, 7)
                k = ColumnParallelLinear(7, b, bias=True, gather_output=False)
                load(k, "weight", W0)
                load(k, "bias", B0)
                x, mine, red = F.linear(x0, W0, B0), k(x0), True
                l = RowParallelLinear(b, m, bias=bias)
            load(l, "weight", W)
            if bias:
                load(l, "bias", B)
            got = l(mine)
            if red:
                want = F.linear(x, W, B if bias else None)
            else:
                sl = slice(rank * b // tp, (rank + 1) * b // tp)
                want = F.linear(x[..., sl], W[:, sl], B if bias else None)
            shape = (b, m, red, bias)
        elif kind == "emb":
            pad = r.choice([None, 0, a - 1, r.randrange(a)])
            W = rnd(g, a, m)
            ids = torch.randint(0, a, lead, generator=g)
            if r.random() < 0.3:
                ids = ids.int()
            if r.random() < 0.3:
                ids[...] = r.choice([0, a - 1, a // tp - 1, min(a - 1, a // tp)])
            l = VocabParallelEmbedding(a, m, padding_idx=pad)
            load(l, "weight", W)
            keep = ids.clone()
            got, want = l(ids), W[ids.long()]
            if not torch.equal(keep, ids):
                return "embedding changed its input"
            if not torch.equal(got, want):
                return f"vocab-parallel embedding of {ids.tolist()} (vocabulary {a}) differs by {float((got - want).abs().max())}"
            shape = (a, m, pad is not None)
        elif kind == "mlp":
            act = r.choice(list(ACTS))
            b2, bd = r.random() < 0.5, r.random() < 0.5
            l = mlp.ParallelMLP(m, b, activation=act, use_bias_gate_up=b2, use_bias_down=bd)
            G, U, D = rnd(g, b, m), rnd(g, b, m), rnd(g, m, b)
            gb, ub, db = rnd(g, b), rnd(g, b), rnd(g, m)
            for lay, w, bb, use in ((l.gate_proj, G, gb, b2), (l.up_proj, U, ub, b2), (l.down_proj, D, db, bd)):
                load(lay, "weight", w)
                if use:
                    load(lay, "bias", bb)
            x = rnd(g, *lead, m)
            got = l(x)
            want = F.linear(ACTS[act](F.linear(x, G, gb if b2 else None)) * F.linear(x, U, ub if b2 else None), D, db if bd else None)
            shape = (m, b, act, b2, bd)
        elif kind == "split":
            nd = r.randrange(1, 4)
            dim = r.randrange(nd)
            sz = [r.randrange(1, 5) for _ in range(nd)]
            sz[dim] = a
            x = rnd(g, *sz)
            mine = orch.split_tensor_along_dim(x, dim if r.random() < 0.5 else dim - nd, tp, rank).contiguous()
            got = orch.tensor_model_parallel_all_gather(mine, dim=dim if r.random() < 0.5 else dim - nd)
            want, shape = x, (tuple(sz), dim)
        elif kind == "gather":
            nd = r.randrange(1, 4)
            dim = r.randrange(nd)
            sz = [r.randrange(1, 5) for _ in range(nd)]
            xs = [rnd(g, *sz) for _ in range(tp)]
            keep = xs[rank].clone()
            got, want, shape = orch.tensor_model_parallel_all_gather(xs[rank], dim=dim), torch.cat(xs, dim), (tuple(sz), dim)
            if not torch.equal(keep, xs[rank]):
                return "all_gather changed its input"
        elif kind == "reduce":
            xs = [rnd(g, *lead, m) for _ in range(tp)]
            want = sum(x.clone() for x in xs)
            got, shape = orch.tensor_model_parallel_all_reduce(xs[rank]), (lead, m)
        else:
            src = r.randrange(tp)
            xs = [rnd(g, *lead, m) for _ in range(tp)]
            want = xs[src].clone()
            got = grp.broadcast(xs[rank], src=src) if grp is not None else xs[rank]
            shape = (lead, m, src)
    log.append((kind, shape))
    if kind in ("split", "gather", "bcast") and not torch.equal(got, want):
        return f"{kind} {shape}: rank {rank} of {tp} holds something else than the whole"
    if not close(got, want):
        d = float((got - want).abs().max()) if got.shape == want.shape else f"shape {tuple(got.shape)} instead of {tuple(want.shape)}"
        return f"{kind} {shape}: rank {rank} of {tp} differs from the unsharded layer by {d}"
    return None


def member(rank, grid, d, s, n):
    tp, dp, pp = grid
    world = tp * dp * pp
    res = {"log": [], "bad": []}
    try:
        from datetime import timedelta
        dist.init_process_group("gloo", init_method=f"file://{d}/store", rank=rank, world_size=world, timeout=timedelta(seconds=30))
        orch.initialize_model_parallel(tp, dp, pp, backend="gloo")
        res["coords"] = (ps.get_tensor_model_parallel_rank(), ps.get_data_parallel_rank(), ps.get_pipeline_model_parallel_rank())
        res["sizes"] = (ps.get_tensor_model_parallel_world_size(), ps.get_data_parallel_world_size(), ps.get_pipeline_model_parallel_world_size())
        res["groups"] = [None if g is None else list(g.ranks) for g in (ps.get_tp_group(), ps.get_dp_group(), ps.get_pp_group())]
        res["initialised"] = ps.model_parallel_is_initialized()
        tpr = res["coords"][0]
        # the collectives reach exactly the members: sum of powers over each group
        for name, g in (("tp", ps.get_tp_group()), ("dp", ps.get_dp_group()), ("pp", ps.get_pp_group())):
            if g is None:
                continue
            t = torch.tensor([float(1 << rank)])
            got = int(g.all_reduce(t).item())
            want = sum(1 << q for q in g.ranks)
            res["log"].append(("members", name, len(g.ranks)))
            if got != want:
                res["bad"].append(f"all_reduce over the {name} group {g.ranks} reached ranks {[q for q in range(world) if got >> q & 1]}")
        if dp > 1:
            t = torch.tensor([float(1 << rank)])
            got = int(orch.data_parallel_all_reduce(t).item())
            if got != sum(1 << q for q in ps.get_dp_group().ranks):
                res["bad"].append("data_parallel_all_reduce is not over the data-parallel group")
        # replicas of a TP group run their own inputs at the same time
        r = random.Random(s * 7919 + (res["groups"][0] or [rank])[0])
        for kind, cs in cases(r, tp, n):
            try:
                w = play(kind, cs, tp, tpr, res["log"])
            except Exception:
                w = f"{kind} case {cs}: " + traceback.format_exc(limit=-4)
                res["bad"].append(w)
                break
            if w:
                res["bad"].append(w + f" (case {cs})")
        res["done"] = True
    except Exception:
        res["error"] = traceback.format_exc(limit=-6)
    with open(f"{d}/out{rank}.tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(f"{d}/out{rank}.tmp", f"{d}/out{rank}")
    t0 = time.time()       # leave together: a rank that goes first breaks the others' connections
    while time.time() - t0 < 40 and not all(os.path.exists(f"{d}/out{q}") for q in range(world)):
        time.sleep(0.01)
    os._exit(0)


def grid_run(grid, s, n):
    tp, dp, pp = grid
    world = tp * dp * pp
    d = tempfile.mkdtemp(prefix="p26-")
    pids = []
    for q in range(world):
        p = os.fork()
        if p == 0:
            try:
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # end with the check
                dn = os.open("/dev/null", os.O_WRONLY)
                os.dup2(dn, 2)
                member(q, grid, d, s, n)
            finally:
                os._exit(1)
        pids.append(p)
    t0 = time.time()
    left = set(pids)
    while left and time.time() - t0 < 45:
        for p in list(left):
            if os.waitpid(p, os.WNOHANG)[0]:
                left.discard(p)
        time.sleep(0.01)
    hung = bool(left)
    for p in left:
        os.kill(p, signal.SIGKILL)
        os.waitpid(p, 0)
    res = {}
    for q in range(world):
        try:
            res[q] = pickle.load(open(f"{d}/out{q}", "rb"))
        except Exception:
            pass
    shutil.rmtree(d, ignore_errors=True)
    return res, hung


def judge(grid, s, n):
    tp, dp, pp = grid
    world = tp * dp * pp
    res, hung = grid_run(grid, s, n)
    replay = {"grid": grid, "seed": s, "cases": n}
    if hung or len(res) < world or any("done" not in v for v in res.values()):
        why = next((v["error"] for v in res.values() if "error" in v), "hung" if hung else "died")
        c.violation("group-dead", f"grid TP{tp} x DP{dp} x PP{pp}: {world - sum('done' in v for v in res.values())} of {world} ranks never got through: {why[-900:]}", replay)
    for q, v in sorted(res.items()):
        for b in v["bad"][:3]:
            c.violation("shard-differs", f"grid TP{tp} x DP{dp} x PP{pp}, rank {q}: {b}", replay)
        for e in v["log"]:
            c.case((grid, e), nontrivial=world > 1)
            c.observe(f"case_{e[0]}")
            if tp > 1:
                c.observe("sharded")
    got = {q: v for q, v in res.items() if "coords" in v}
    if len(got) < world:
        return
    c.observe("grids")
    if world > 1:
        c.observe("grids_mixed", sum(x > 1 for x in grid) > 1)
    # a grid: coordinates are a bijection, and each group varies exactly one coordinate
    for q, v in got.items():
        if v["sizes"] != grid:
            c.violation("grid-sizes", f"grid {grid}: rank {q} reports sizes {v['sizes']}", replay)
        if v["initialised"] != (world > 1):
            c.violation("grid-init", f"grid {grid}: rank {q} model_parallel_is_initialized() = {v['initialised']}", replay)
    seen = {}
    for q, v in got.items():
        if v["coords"] in seen or any(not 0 <= x < g for x, g in zip(v["coords"], grid)):
            c.violation("grid-coords", f"grid TP{tp} x DP{dp} x PP{pp}: ranks {seen.get(v['coords'])} and {q} both hold (tp, dp, pp) = {v['coords']}: one shard is computed twice, another by nobody", replay)
        seen[v["coords"]] = q
    for axis, name in enumerate(("tp", "dp", "pp")):
        for q, v in got.items():
            g = v["groups"][axis]
            if grid[axis] == 1:
                if g is not None and g != [q]:
                    c.violation("grid-group", f"grid {grid}: rank {q} has a {name} group {g} of a size-1 axis", replay)
                continue
            if g is None or q not in g or len(set(g)) != grid[axis] or g.index(q) != v["coords"][axis]:
                c.violation("grid-group", f"grid {grid}: rank {q} has {name} group {g}, coordinate {v['coords'][axis]}", replay)
                continue
            for m in g:
                w = got[m]["coords"]
                if got[m]["groups"][axis] != g or any(w[k] != v["coords"][k] for k in range(3) if k != axis):
                    c.violation("grid-group", f"grid TP{tp} x DP{dp} x PP{pp}: {name} group {g} of rank {q} at (tp, dp, pp) = {v['coords']} holds rank {m} at {w}", replay)


def merged(n):
    """MergedLinear: shards stacked in any order are the stacked layer (one process)."""
    for i in range(n):
        s = seed() * 1000003 + i
        r, g = random.Random(s), torch.Generator().manual_seed(s)
        m = r.randrange(1, 12)
        if r.random() < 0.5:
            kv = r.randrange(1, 6)
            sizes, ids = [kv * r.randrange(1, 5), kv, kv], ["q", "k", "v"]
        else:
            sizes = [r.randrange(1, 9) for _ in range(r.randrange(1, 5))]
            ids = list(range(len(sizes)))
        bias = r.random() < 0.6
        with torch.no_grad():
            l = MergedLinear(m, sizes, bias=bias)
            l.weight.fill_(float("nan"))
            Ws, Bs = [rnd(g, k, m) for k in sizes], [rnd(g, k) for k in sizes]
            order = list(range(len(sizes)))
            r.shuffle(order)
            for k in order:
                l.weight_loader(l.weight, Ws[k], ids[k])
                if bias:
                    l.weight_loader(l.bias, Bs[k], ids[k])
            x = rnd(g, 3, m)
            got = l(x)
            want = torch.cat([F.linear(x, w, b if bias else None) for w, b in zip(Ws, Bs)], -1)
        c.case(("merged", tuple(sizes), tuple(ids), bias, m), nontrivial=len(sizes) > 1)
        c.observe("case_merged")
        if not close(got, want):
            c.violation("merged-differs", f"MergedLinear({m}, {sizes}) loaded shard by shard in order {[ids[k] for k in order]} differs from its shards", {"seed": s})


def main():
    n = scale(60, 900)
    grids = [(t, d, p) for t in (1, 2, 3, 4, 8) for d in (1, 2, 3, 4) for p in (1, 2, 4) if t * d * p <= 8]
    first = [(1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 1, 1), (8, 1, 1), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2), (4, 2, 1), (1, 4, 1), (1, 1, 4), (2, 3, 1), (4, 1, 2), (3, 2, 1)]
    rest = [g for g in grids if g not in first]
    todo = first + rest
    for k, g in enumerate(todo):
        judge(g, seed() * 31 + k, n)
    merged(scale(400, 6000))
    for e in ("col", "row", "colrow", "emb", "mlp", "split", "gather", "reduce", "bcast", "merged", "members"):
        c.require(f"case_{e}", 20)
    c.require("sharded", 500)
    c.require("grids", 15)
    c.finish()


run_main(c, main)

"""P24: gated-delta-rule layers compute the recurrence, by every path and however a sequence is cut into batches."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import math
import os
import random
import types
import warnings
warnings.filterwarnings("ignore")
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, run_main, scale, seed
import torch
import torch.nn.functional as F
import pymllm.layers.attention.gdn_backend as GB
import pymllm.layers.attention.gdn_chunkwise as CW
from pymllm.mem_cache.memory_pool import GDNPool
torch.set_num_threads(1)
# the CUDA kernels cannot be built here; probing for them would only log
GB._get_mllm_gdn_extend_chunkwise = lambda: None
GB._get_mllm_gdn_decode = lambda: None
GB._get_mllm_gdn_extend = lambda: None
GB._get_flashinfer_gdn = lambda: (False, None, None)

c = Check("P24", "the real GDN back end (chunk-parallel prefill, sequential prefill, decode, pooled convolution and recurrent states) over random layers, gates (published initialisations and extremes of decay), "
          "sequence lengths up to 700 and random cuts into extend and decode batches; outputs and states against the recurrence in float64; non-trivial = distinct (shape, gates, schedule)")


def recurrence(q, k, v, a, b, A_log, dt, S):
    """The delta rule of the gated delta network, token by token, in float64.  q,k [T,H,K]; v [T,HV,V]; S [HV,V,K]."""
    q, k, v, a, b, A_log, dt, S = [x.double() for x in (q, k, v, a, b, A_log, dt, S)]
    q = q / q.norm(dim=-1, keepdim=True).clamp(min=1e-12) * q.shape[-1] ** -0.5
    k = k / k.norm(dim=-1, keepdim=True).clamp(min=1e-12)
    rep = v.shape[1] // q.shape[1]
    q, k = q.repeat_interleave(rep, 1), k.repeat_interleave(rep, 1)
    al = torch.exp(-torch.exp(A_log) * F.softplus(a + dt, threshold=60))
    be = torch.sigmoid(b)
    out = []
    for t in range(q.shape[0]):
        S = S * al[t][:, None, None]
        d = (v[t] - (S @ k[t][..., None])[..., 0]) * be[t][:, None]
        S = S + d[..., None] * k[t][:, None, :]
        out.append((S @ q[t][..., None])[..., 0])
    return torch.stack(out), S


def conv(x, w):
    """Causal depthwise convolution from an empty history, float64."""
    K = w.shape[1]
    x = torch.cat([x.new_zeros(K - 1, x.shape[1]), x]).double()
    return (x.unfold(0, K, 1) * w.double()).sum(-1)


class OnGpu:
    """Makes CPU tensors answer is_cuda so that the back end takes the path it takes on a GPU."""

    def __enter__(self):
        torch.Tensor.is_cuda = property(lambda s: True)

    def __exit__(self, *a):
        del torch.Tensor.is_cuda


def gates(r, HV, T, g):
    kind = r.choice(["published", "published", "slow", "fast", "mixed", "burst"])
    A = {"published": torch.rand(HV, generator=g) * 16, "slow": torch.rand(HV, generator=g) * 0.05, "fast": 8 + torch.rand(HV, generator=g) * 24}.get(kind, torch.exp(torch.randn(HV, generator=g) * 2))
    A_log = torch.log(A.clamp(min=1e-6))
    dt = torch.rand(HV, generator=g) * (math.log(0.1) - math.log(0.001)) + math.log(0.001)
    dt = torch.exp(dt)
    dt = dt + torch.log(-torch.expm1(-dt)) if kind in ("published", "slow") and r.random() < 0.5 else torch.randn(HV, generator=g)
    a = torch.randn(T, HV, generator=g) * r.choice([0.1, 1, 3])
    if kind == "burst":
        a[torch.rand(T, HV, generator=g) < 0.05] += 40
    b = torch.randn(T, HV, generator=g) * r.choice([0.5, 2, 8])
    return kind, A_log, dt, a, b


def rel(x, y, floor):
    return ((x.double() - y).abs().max() / max(floor, y.abs().max().item())).item()


def one(i):
    r = random.Random(seed() * 1000003 + i)
    g = torch.Generator().manual_seed(r.randrange(1 << 30))
    H = r.choice([1, 2, 3])
    HV = H * r.choice([1, 2, 4])
    K, V = r.choice([4, 8, 16, 32]), r.choice([4, 8, 16])
    slots = r.randint(4, 9)
    dtype = r.choice([torch.float32, torch.float32, torch.float32, torch.bfloat16])
    path = r.choice(["chunk", "chunk", "chunk", "sequential", "backend", "backend", "backend"])
    n = r.randint(1, 3)
    big = path != "backend" and r.random() < 0.15
    lens = [r.choice([1, 2, 3, r.randint(1, 40), 127, 128, 129, r.randint(1, 300)] + ([r.randint(300, 700)] if big else [])) for _ in range(n)]
    if path == "backend":
        lens = [min(x, r.choice([12, 60, 200])) for x in lens]
    T = sum(lens)
    kind, A_log, dt, a, b = gates(r, HV, T, g)
    idx = r.sample(range(slots), n)
    cu = [0]
    for x in lens:
        cu.append(cu[-1] + x)
    info = dict(case=i, path=path, heads=(H, HV), dims=(K, V), lengths=lens, gates=kind, dtype=str(dtype))

    def draw(h, d):
        x = torch.randn(T, h, d, generator=g) * r.choice([0.3, 1, 5])
        if r.random() < 0.2:
            x = x + 3 * torch.randn(1, h, d, generator=g)      # strongly correlated keys
        return x.to(dtype)
    tol = 2e-2 if dtype == torch.bfloat16 else 1e-3
    al = -torch.exp(A_log) * F.softplus(a + dt)
    c.seen("gates", (kind, path))
    if path != "backend":
        q, k, v = draw(H, K), draw(H, K), draw(HV, V)
        a, b = a.to(dtype), b.to(dtype)
        S0 = torch.randn(slots, HV, V, K, generator=g) * r.choice([0, 1, 1])
        pool = S0.clone()
        want = [recurrence(q[s:e], k[s:e], v[s:e], a[s:e], b[s:e], A_log, dt, S0[j]) for s, e, j in zip(cu, cu[1:], idx)]
        try:
            if path == "chunk":
                kw = {} if r.random() < 0.5 else dict(chunk_size=r.choice([1, 2, 16, 64, 100, 128, 256]))
                out = CW.gdn_extend_chunkwise_torch(q, k, v, a, b, A_log, dt, pool, torch.tensor(idx), torch.tensor(cu), **kw)
                info["chunk_size"] = kw.get("chunk_size", "default")
            else:
                be = GB.GDNAttnBackend(types.SimpleNamespace(), torch.device("cpu"))
                gg, bb = GB._gdn_gating(a, b, A_log, dt)
                out = be._extend_pytorch_fallback(q, k, v, gg, bb, pool, torch.tensor(idx), torch.tensor(cu), types.SimpleNamespace(num_v_heads=HV, num_k_heads=H, head_v_dim=V))
        except Exception as e:
            c.exception(e, path, replay=info)
            return
        c.observe(path + " tokens", T)
        worst = min(al[s:e][:128].sum(0).min().item() for s, e in zip(cu, cu[1:]))
        if path == "chunk":
            tol = max(tol, 5e-7 * -min(al[s + o:s + o + 256].sum(0).min().item() for s, e in zip(cu, cu[1:]) for o in range(0, e - s, 128)))   # what single precision keeps of a sum of logarithms
        if worst < -69:
            c.observe(path + " cases whose decay underflows within a chunk")
        for j, (o, S) in enumerate(want):
            s, e = cu[j], cu[j + 1]
            eo, es = rel(out[s:e], o, 1e-2), rel(pool[idx[j]], S, 1e-2)
            if not (eo < tol and es < tol):
                t = int((out[s:e].double() - o).abs().amax((1, 2)).argmax())
                c.violation(f"{path}-scan", f"sequence of {e - s} tokens: outputs off by {eo:.3g}, final state by {es:.3g} of the largest value (worst at token {t}; log-decay down to {worst:.4g} over a chunk) in {info}", info)
                return
        rest = [j for j in range(slots) if j not in idx]
        if not torch.equal(pool[rest], S0[rest]):
            c.violation(f"{path}-other-slots", f"states of requests outside the batch changed: {info}", info)
        c.case((i, path), sample=info)
        return
    # the back end with its pooled convolution and recurrent states, any cut of each sequence, sequences sharing batches
    KC = r.choice([2, 3, 4, 4, 4])
    L = r.randint(1, 3)
    key, val = H * K, HV * V
    D = 2 * key + val
    pool = GDNPool(max_reqs=slots - 1, num_gdn_layers=L, num_v_heads=HV, head_k_dim=K, head_v_dim=V, conv_dim=D, conv_kernel_size=KC, device="cpu", dtype=torch.float32)
    be = GB.GDNAttnBackend(pool, torch.device("cpu"))
    pool.recurrent_state.normal_(generator=g)         # what earlier requests left behind
    pool.conv_state.normal_(generator=g)
    dtype = torch.float32
    layers = []
    for l in range(L):
        kd, Al, d_, _, _ = gates(r, HV, 1, g)
        layers.append(types.SimpleNamespace(gdn_layer_idx=l, num_k_heads=H, num_v_heads=HV, head_k_dim=K, head_v_dim=V, conv_weight=torch.randn(D, KC, generator=g) * 0.6, A_log=Al, dt_bias=d_))
    idx = r.sample(range(1, slots), n) if slots - 1 >= n else list(range(n))
    X = [torch.randn(L, t, D, generator=g) for t in lens]
    AA = [torch.randn(L, t, HV, generator=g) * 2 for t in lens]
    BB = [torch.randn(L, t, HV, generator=g) * 2 for t in lens]
    want = []
    for j in range(n):
        w = []
        for l, y in enumerate(layers):
            o = F.silu(conv(X[j][l], y.conv_weight))
            q, k, v = o.split([key, key, val], -1)
            w.append(recurrence(q.view(-1, H, K), k.view(-1, H, K), v.view(-1, HV, V), AA[j][l], BB[j][l], y.A_log, y.dt_bias, torch.zeros(HV, V, K))[0].reshape(-1, val))
        want.append(w)
    done = [0] * n
    bad = None
    drop = max((torch.exp(y.A_log) * F.softplus(A[l] + y.dt_bias)).sum(0).max().item() for A in AA for l, y in enumerate(layers))
    gtol = max(2e-3, 5e-7 * drop)
    other = [j for j in range(pool.recurrent_state.shape[1]) if j not in idx]
    snap = pool.recurrent_state[:, other].clone(), pool.conv_state[:, other].clone()
    steps = 0
    try:
        pool.reset_states(torch.tensor(idx))
        while min(d - t for d, t in zip(done, lens)) < 0 and not bad:
            live = [j for j in range(n) if done[j] < lens[j]]
            pick = r.sample(live, r.randint(1, len(live)))
            ext = r.random() < 0.4 or any(done[j] == 0 for j in pick)
            el = [min(lens[j] - done[j], r.choice([1, 2, r.randint(1, 30), r.randint(1, 200)])) if ext else 1 for j in pick]
            ids = torch.tensor([idx[j] for j in pick])
            gpu = ext and r.random() < 0.6
            fb = types.SimpleNamespace(req_pool_indices=ids, extend_seq_lens=torch.tensor(el) if ext else None, forward_mode=types.SimpleNamespace(is_extend=lambda: ext, is_decode=lambda: not ext))
            be.init_forward_metadata(fb)
            if not ext and r.random() < 0.3:       # as a captured decode graph refers to the batch
                be.init_cuda_graph_state(8, 8)
                be.init_forward_metadata_replay_cuda_graph(len(pick), ids, None)
            for l, y in enumerate(layers):
                cat = lambda Z: torch.cat([Z[j][l, done[j]:done[j] + e] for j, e in zip(pick, el)])
                if gpu:
                    with OnGpu():
                        out = be.forward_gdn(y, fb, cat(X), cat(AA), cat(BB))
                    c.observe("chunk-parallel batches through the back end")
                else:
                    out = be.forward_gdn(y, fb, cat(X), cat(AA), cat(BB))
                p = 0
                for j, e in zip(pick, el):
                    o = want[j][l][done[j]:done[j] + e]
                    err = ((out[p:p + e].double() - o).abs().max() / max(0.05, want[j][l].abs().max())).item()
                    p += e
                    if not err < (gtol if gpu else 2e-3):
                        bad = bad or (("decode" if not ext else "extend-gpu" if gpu else "extend"), f"layer {l}, tokens {done[j]}..{done[j] + e - 1} of {lens[j]} in a batch of {len(pick)}: off by {err:.3g} of the largest output")
            for j, e in zip(pick, el):
                done[j] += e
            steps += 1
            c.observe("decode batches" if not ext else "extend batches")
            c.observe("tokens through the back end", sum(el))
    except Exception as e:
        c.exception(e, path, replay=info)
        return
    if bad:
        c.violation(f"backend-{bad[0]}", f"{bad[1]} in {info}", info)
    elif not (torch.equal(snap[0], pool.recurrent_state[:, other]) and torch.equal(snap[1], pool.conv_state[:, other])):
        c.violation("backend-other-slots", f"states of requests outside the batches changed: {info}", info)
    c.case((i, path), sample=dict(info, batches=steps, kernel=KC, layers=L))


def main():
    os.environ.pop("PYMLLM_GDN_EXTEND_BACKEND", None)
    parallel(c, one, scale(2400, 30000), workers=8)
    c.require("chunk tokens", 20000)
    c.require("sequential tokens", 5000)
    c.require("chunk cases whose decay underflows within a chunk", 40)
    c.require("chunk-parallel batches through the back end", 200)
    c.require("decode batches", 500)
    c.finish()


if __name__ == "__main__":
    run_main(c, main)

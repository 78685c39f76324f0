"""P30: the paged attention back end gives every query exactly the attention its layer defines, over any cache layout and batch history."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import random
import types
import warnings
warnings.filterwarnings("ignore")
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, run_main, scale, seed
import torch
import fakegpu
fakegpu.install()
import pymllm.layers.attention.flashinfer_backend as FB
from pymllm.layers.attention.radix_attention import RadixAttention
from pymllm.mem_cache.memory_pool import KVPool, ReqToTokenPool
from pymllm.engine.forward_batch import ForwardBatch, ForwardMode
FB.fast_decode_plan = lambda self, *a, **k: type(self).begin_forward(self, *a, **k)
torch.set_num_threads(1)

c = Check("P30", "the real FlashInfer back end, K/V pool, request map and RadixAttention layers (grouped heads, soft caps, sliding windows next to full-context layers, layers that share another layer's K/V, bf16 pools) over random histories of extends "
          "(with and without cached prefix, mixed in a batch), prefixes shared between requests, decodes, decodes on captured-graph metadata with padding; every query row against dense float64 attention and every K/V row against what was written; non-trivial = distinct (configuration, history)")


def dense(q, k, v, scale, cap, window):
    """q [H,D] of the last position over k, v [n,Hk,D], float64."""
    n, hk = k.shape[0], k.shape[1]
    if window >= 0:
        k, v = k[max(0, n - 1 - window):], v[max(0, n - 1 - window):]
    g = q.shape[0] // hk
    s = torch.einsum("hgd,nhd->hgn", q.double().view(hk, g, -1), k.double()) * scale
    if cap > 0:
        s = cap * torch.tanh(s / cap)
    return torch.einsum("hgn,nhd->hgd", s.softmax(-1), v.double()).reshape(q.shape[0], -1)


def one(i):
    r = random.Random(seed() * 1000003 + i)
    g = torch.Generator().manual_seed(r.randrange(1 << 30))
    hk = r.choice([1, 2, 3])
    hq = hk * r.choice([1, 2, 4])
    hd = r.choice([4, 8, 16])
    nl = r.randint(1, 4)
    win = r.choice([None, None, 0, 1, 3, 7, 100])
    dt = r.choice([torch.float32, torch.float32, torch.bfloat16])
    layers = []
    for l in range(nl):
        w = -1 if win is None or r.random() < 0.4 else win
        layers.append(RadixAttention(hq, hd, r.choice([hd ** -0.5, 0.3, 1.0]), hk, l, logit_cap=r.choice([0.0, 0.0, 0.8, 30.0]), sliding_window_size=w))
    shared = {}
    for l in range(1, nl):      # layers that reuse the keys and values of an earlier one
        if r.random() < 0.2:
            src = r.choice([x for x in range(l) if x not in shared])
            layers[l].layer_id = src
            shared[l] = src
    nreq, ctx, size = 6, 48, r.choice([160, 300])
    rtp = ReqToTokenPool(nreq, ctx, device="cpu")
    pool = KVPool(size, nl, hk, hd, device="cpu", dtype=dt, pin_memory=False)
    for b in pool.k_buffer + pool.v_buffer:
        b.fill_(float("nan"))
    be = FB.FlashInferAttnBackend(hq, hk, hd, dt, dt, ctx, rtp.req_to_token, torch.device("cpu"), max_req_pool_size=nreq + 2, sliding_window_size=win)
    info = dict(case=i, heads=(hq, hk, hd), window=win, dtype=str(dt), layers=[(x.layer_id, x.sliding_window_size, x.logit_cap, round(x.scaling, 4)) for x in layers])
    FB._has_fast_decode_plan = r.random() < 0.5
    graphs = []
    if r.random() < 0.5:
        be.init_cuda_graph_state(nreq, nreq)
        graphs = sorted(r.sample(range(1, nreq + 1), r.randint(1, 3)))
        for b in reversed(graphs):
            fill = be.get_cuda_graph_seq_len_fill_value()
            be.init_forward_metadata_capture_cuda_graph(b, b, torch.zeros(b, dtype=torch.int32), torch.full((b,), fill, dtype=torch.int32), ForwardMode.DECODE)
            c.observe("graph metadata captured")
    free = list(range(1, size + 1))
    r.shuffle(free)
    K = [torch.full((size + 1, hk, hd), float("nan")) for _ in range(nl)]       # what each slot must hold
    V = [x.clone() for x in K]
    reqs = {}        # slot of the map -> list of token slots, in order
    hist = []
    bad = []
    T = lambda x, d=torch.int32: torch.tensor(x, dtype=d)
    tol = 2e-4 if dt == torch.float32 else 3e-2
    for step in range(r.randint(3, 9)):
        x = r.random()
        if reqs and x < 0.1:
            q = r.choice(list(reqs))
            reqs.pop(q)
            rtp.req_to_token[q].fill_(size)       # stale rows point at a poisoned slot
            rtp.free(q)
            continue
        ext = not reqs or r.random() < 0.5
        pick = []
        if ext:
            for _ in range(r.randint(1, 4)):
                room = [q for q in reqs if len(reqs[q]) < ctx and q not in [p[0] for p in pick]]
                if room and r.random() < 0.5:
                    q = r.choice(room)
                elif rtp.available_size():
                    q = rtp.alloc(1)[0]
                    reqs[q] = []
                    if len(reqs) > 1 and r.random() < 0.5:      # a prefix another request computed
                        o = r.choice([y for y in reqs if y != q])
                        done = reqs[o][:len(reqs[o]) - sum(p[2] for p in pick if p[0] == o)]
                        n = r.randint(0, len(done))
                        reqs[q] = list(done[:n])
                        rtp.write((q, slice(0, n)), T(done[:n]))
                else:
                    continue
                n = min(r.choice([1, 2, 3, 5, 9, 14]), ctx - len(reqs[q]), len(free) - 20)
                if n < 1:
                    continue
                pick.append((q, len(reqs[q]), n))
        else:
            cand = [q for q in reqs if 0 < len(reqs[q]) < ctx]
            r.shuffle(cand)
            pick = [(q, len(reqs[q]), 1) for q in cand[:r.randint(1, nreq)]]
        if not pick or len(free) < 40:
            reqs = {q: s for q, s in reqs.items() if s}
            if not pick:
                continue
            break
        loc = []
        for q, p, n in pick:
            s = [free.pop() for _ in range(n)]
            reqs[q] += s
            rtp.write((q, slice(p, p + n)), T(s))
            loc += s
        n = len(loc)
        sl = [p + k for _, p, k in pick]
        fb = ForwardBatch(forward_mode=ForwardMode.EXTEND if ext else ForwardMode.DECODE, batch_size=len(pick), input_ids=torch.zeros(n, dtype=torch.int32), req_pool_indices=T([q for q, _, _ in pick], r.choice([torch.int32, torch.int64])),
                          seq_lens=T(sl), out_cache_loc=T(loc, torch.int64), seq_lens_sum=sum(sl), seq_lens_cpu=T(sl) if r.random() < 0.6 else None, req_to_token_pool=rtp, token_to_kv_pool=pool, attn_backend=be)
        how = "decode"
        if ext:
            pl = [p for _, p, _ in pick]
            fb.extend_prefix_lens, fb.extend_seq_lens, fb.extend_num_tokens = T(pl), T([k for _, _, k in pick]), n
            fb.extend_prefix_lens_cpu, fb.extend_seq_lens_cpu = pl, [k for _, _, k in pick]
            how = "extend after a prefix" if all(pl) else "extend, mixed" if any(pl) else "extend"
            pad = 0
        else:
            pad = next((b for b in graphs if b >= len(pick)), 0) if r.random() < 0.7 else 0
        try:
            if pad:
                how = "graph decode"
                fill = be.get_cuda_graph_seq_len_fill_value()
                m = pad - len(pick)
                be.init_forward_metadata_replay_cuda_graph(pad, T([q for q, _, _ in pick] + [0] * m), T(sl + [fill] * m), sum(sl) + m * fill, ForwardMode.DECODE, T(sl + [fill] * m) if r.random() < 0.7 else None)
                be.forward_metadata = FB.DecodeMetadata(be.decode_cuda_graph_metadata[pad])
                fb.out_cache_loc = T(loc + [0] * m, torch.int64)
                for b in pool.k_buffer + pool.v_buffer:
                    b[0] = 0
            else:
                be.init_forward_metadata(fb)
            for li, lay in enumerate(layers):
                tot = pad or n
                q = torch.randn(tot, hq * hd, generator=g).mul(r.choice([1.0, 3.0])).to(dt)
                if li in shared:
                    k = v = None
                else:
                    k, v = torch.randn(tot, hk * hd, generator=g).to(dt), torch.randn(tot, hk * hd, generator=g).to(dt)
                    for j, s in enumerate(loc):
                        K[li][s], V[li][s] = k[j].view(hk, hd).float(), v[j].view(hk, hd).float()
                out = lay(q.clone(), k.clone() if k is not None else None, v.clone() if v is not None else None, fb)
                if out.shape != (tot, hq * hd):
                    bad.append(("shape", f"{how}: output of shape {tuple(out.shape)} for {tot} queries"))
                    break
                src = lay.layer_id
                c.observe(how + " layer calls")
                if li in shared:
                    c.observe("layer calls on shared keys and values")
                t = 0
                for rq, p, m in pick:
                    for j in range(m):
                        ix = reqs[rq][:p + j + 1]
                        want = dense(q[t].view(hq, hd), K[src][ix], V[src][ix], lay.scaling, lay.logit_cap, lay.sliding_window_size)
                        e = (out[t].double().view(hq, hd) - want).abs().max().item()
                        c.observe("query rows")
                        if lay.sliding_window_size >= 0 and p + j > lay.sliding_window_size:
                            c.observe("rows whose window cuts the context")
                        if not e <= tol * (1 + want.abs().max().item()):
                            kind = ("window-" if lay.sliding_window_size >= 0 else "") + how.replace(" ", "-").replace(",", "")
                            bad.append((("shared-" if li in shared else "") + kind, f"{how}, layer {li} (window {lay.sliding_window_size}, cap {lay.logit_cap}{', keys of layer %d' % src if li in shared else ''}): query at position {p + j} ({p} cached, batch {[(a, b) for _, a, b in pick]}) is {e:.3g} off"))
                        t += 1
            hist.append((how, [(p, m) for _, p, m in pick]))
        except Exception as e:
            c.exception(e, how + (" of a layer on shared keys" if shared else ""), replay=dict(info, history=hist, batch=[(p, m) for _, p, m in pick]))
            return
        # the cache holds what was written, where it was written
        for l in range(nl):
            for a, b in ((pool.k_buffer[l], K[l]), (pool.v_buffer[l], V[l])):
                x, y = a[1:size + 1].float(), b[1:]
                if not torch.equal(torch.nan_to_num(x, nan=7e7), torch.nan_to_num(y, nan=7e7)):
                    w = [s + 1 for s in range(size) if not torch.equal(torch.nan_to_num(x[s], nan=7e7), torch.nan_to_num(y[s], nan=7e7))]
                    bad.append(("cache", f"{how}: cache rows {w[:6]} of layer {l} do not hold what was last written to them (this batch wrote {loc[:6]}...)"))
        c.observe("cache audits")
        for q, s in reqs.items():
            if rtp.req_to_token[q, :len(s)].tolist() != s:
                bad.append(("map", f"{how}: the request map of {q} changed"))
        if bad:
            break
        reqs = {q: s for q, s in reqs.items() if s}
    c.seen("shapes", (hq, hk, hd, win, str(dt), bool(shared)))
    c.case((i,), sample=dict(info, history=hist))
    if bad:
        c.violation(bad[0][0], f"{bad[0][1]} ({len(bad)} wrong) in {info}", dict(info, history=hist))


def main():
    with torch.no_grad():
        parallel(c, one, scale(1200, 30000), workers=8)
    c.require("query rows", 30000)
    c.require("rows whose window cuts the context", 4000)
    c.require("graph decode layer calls", 400)
    c.require("extend after a prefix layer calls", 500)
    c.require("extend, mixed layer calls", 300)
    c.require("layer calls on shared keys and values", 300)
    c.require("shapes", 60)
    c.finish()


if __name__ == "__main__":
    run_main(c, main)

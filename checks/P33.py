"""P33: every layer turns queries and keys by the angles their positions define."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import random
import warnings
warnings.filterwarnings("ignore")
import tritonsan
from vlib import Check, parallel, run_main, scale, seed
import fakegpu
import numpy as np
import torch
from transformers.models.qwen2_vl.modeling_qwen2_vl import apply_multimodal_rotary_pos_emb
from transformers.models.qwen3_vl.modeling_qwen3_vl import Qwen3VLTextRotaryEmbedding
import pymllm.layers.rope as R

c = Check("P33", "random batches of queries and keys (any head counts and sizes, partial rotation, both layouts of the sections, text and image positions up to the last row of the table, strided position arrays, three number formats) through the "
          "PyTorch form and the fused Triton kernel run in its interpreter with every address it touches checked; against the definition in float64 and HuggingFace's own rotation; non-trivial = distinct (shape, layout, format, form)")


gpu = tritonsan.on_gpu


def axis(j, sec, inter, half):
    if inter:
        if j % 3 == 1 and j < 3 * sec[1]:
            return 1
        if j % 3 == 2 and j < 3 * sec[2]:
            return 2
        return 0
    return 0 if j < sec[0] else 1 if j < sec[0] + sec[1] else 2


def want(x, pos, table, sec, inter):
    half = table.shape[1] // 2
    ax = [axis(j, sec, inter, half) for j in range(half)]
    T = x.shape[0]
    rows = np.stack([pos[ax[j]] for j in range(half)], -1).reshape(T, half)
    cos = table[rows, np.arange(half)][:, None]
    sin = table[rows, half + np.arange(half)][:, None]
    a, b = x[..., :half], x[..., half:2 * half]
    return np.concatenate([a * cos - b * sin, b * cos + a * sin, x[..., 2 * half:]], -1)


TOL = {torch.float32: 2e-6, torch.float16: 2e-3, torch.bfloat16: 1.6e-2}


def one(i):
    r = random.Random(seed() * 1000003 + i)
    g = torch.Generator().manual_seed(seed() * 7919 + i)
    hd = r.choice([8, 16, 32, 48, 64, 80, 96, 128, 256])
    rd = hd if r.random() < .5 else r.choice([d for d in (2, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128) if d <= hd])
    half = rd // 2
    inter = r.random() < .6
    h, w = r.randint(0, half // 3), r.randint(0, half // 3)
    if inter:
        sec = [half - h - w, h, w]
    else:
        cut = sorted(r.randint(0, half) for _ in range(2))
        sec = [cut[0], cut[1] - cut[0], half - cut[1]]
    T = r.choice([0, 1, 1, 2, 3, 5, 9, 17])
    nq, nk = r.choice([1, 2, 3, 5, 8, 12]), r.choice([1, 1, 2, 3, 4])
    dt = r.choice([torch.float32, torch.bfloat16, torch.float16])
    # (Triton's interpreter has no arithmetic on bfloat16: with such a table the numbers would be its, not the kernel's)
    fused = r.random() < .75
    tdt = torch.float32 if r.random() < .3 or (fused and dt is torch.bfloat16) else dt
    rows = r.choice([1, 2, 7, 40, 200])
    base = r.choice([1e2, 1e4, 1e6])
    ang = torch.outer(torch.arange(rows, dtype=torch.float64) * r.choice([1, 1, 37]), base ** (-torch.arange(half, dtype=torch.float64) / max(half, 1)))
    # the table ends where its storage ends; what lies behind it belongs to somebody else
    table = torch.cat([ang.cos(), ang.sin()], 1).to(tdt)
    kind = r.choice(["text", "image", "mixed", "last"])
    lo = torch.randint(0, rows, (T,), generator=g)
    if kind == "text":
        pos = lo[None].expand(3, T)
    elif kind == "last":
        pos = torch.full((3, T), rows - 1)
    else:
        pos = torch.randint(0, rows, (3, T), generator=g)
        if kind == "mixed" and T:
            pos[:, :T // 2] = pos[0, :T // 2]
    form = r.choice(["as it is", "one row", "strided", "rows of more", "int32"])
    given = pos
    if form == "one row":
        pos = pos[0][None].expand(3, T)
        given = pos[0].contiguous()
    elif form == "strided":
        given = pos.t().contiguous().t()
    elif form == "rows of more":
        big = torch.full((3, T + 5), 10 ** 6)
        big[:, 2:2 + T] = pos
        given = big[:, 2:2 + T]
    elif form == "int32":
        given = pos.to(torch.int32).contiguous()
    q0 = torch.randn(T, nq, hd, generator=g).to(dt)
    k0 = torch.randn(T, nk, hd, generator=g).to(dt)
    split = r.choice(["both", "queries", "keys"]) if r.random() < .2 else ""   # out of a fused projection, not contiguous
    q, k = q0.clone(), k0.clone()
    if split:
        both = torch.cat([q0.flatten(1), k0.flatten(1)], 1)
        if split != "keys":
            q = both[:, :nq * hd].unflatten(1, (nq, hd))
        if split != "queries":
            k = both[:, nq * hd:].unflatten(1, (nk, hd))
    info = {"tokens": T, "heads": [nq, nk], "head": hd, "rotated": rd, "sections": sec, "interleaved": inter, "positions": f"{kind}, {form}", "format": str(dt)[6:], "table": str(tdt)[6:], "rows": rows, "fused": fused, "split": split, "case": i}
    keep_t, keep_p = table.clone(), given.clone()
    bad = []
    try:
        if fused:
            with tritonsan.Launch(protect=[table, given]) as san:
                a, b = R.apply_mrope_fused_(gpu(q), gpu(k), gpu(given), gpu(table), list(sec), inter)
            bad = san.bad
            c.observe("addresses checked", san.lanes)
            c.observe("kernel programs", len(san.programs))
            if T and not split and len(san.programs) != T:
                c.violation("kernel-not-run", f"{len(san.programs)} programs ran: {info}", info)
        else:
            a, b = R.apply_mrope(q, k, given if form != "one row" else pos, table, list(sec), inter)
    except Exception as e:
        c.violation("raised:" + type(e).__name__, f"{e!r:.300}: {info}", info)
        return
    for kind_, text in bad[:1]:
        c.violation("memory:" + kind_, f"{text}: {info}", info)
    a, b = (x.as_subclass(torch.Tensor) for x in (a, b))
    if not torch.equal(table.as_subclass(torch.Tensor), keep_t) or not torch.equal(given, keep_p):
        c.violation("inputs-changed", f"{info}", info)
    tn, pn = keep_t.double().numpy(), pos.numpy()
    for name, x0, x in (("queries", q0, a), ("keys", k0, b)):
        if x.shape != x0.shape:
            c.violation("shape", f"{name} come back as {list(x.shape)}: {info}", info)
            continue
        e = want(x0.double().numpy(), pn, tn, sec, inter)
        d = np.abs(x.double().numpy() - e) - TOL[dt] * (1 + np.abs(e))
        if T and not bool((d <= 0).all()):
            t, hh, j = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape)
            c.violation("rotation", f"{name}: token {t} head {hh} element {j} is {x[t, hh, j].item():.5g}, {e[t, hh, j]:.5g} expected: {info}", info)
        if rd < hd and T and not torch.equal(x[..., rd:].to(dt), x0[..., rd:]):
            c.violation("unrotated-part", f"the part of the {name} that is not rotated changed: {info}", info)
        c.observe("vectors", T * x0.shape[1])
    if T and rd == hd and i % 4 == 0:
        # the definition used here agrees with HuggingFace's
        cs = keep_t.double()[pos]
        cos, sin = cs[..., :half], cs[..., half:]
        if inter:
            m = lambda z: Qwen3VLTextRotaryEmbedding.apply_interleaved_mrope(None, z[:, None].clone(), sec)[0]
            C, S = m(cos).repeat(1, 2), m(sin).repeat(1, 2)
            x = q0.double()
            hf = x * C[:, None] + torch.cat([-x[..., half:], x[..., :half]], -1) * S[:, None]
        else:
            hf, _ = apply_multimodal_rotary_pos_emb(q0.double().transpose(0, 1)[None], k0.double().transpose(0, 1)[None], cos.repeat(1, 1, 2)[:, None], sin.repeat(1, 1, 2)[:, None], sec)
            hf = hf[0].transpose(0, 1)
        if np.abs(hf.numpy() - want(q0.double().numpy(), pn, tn, sec, inter)).max() > 1e-9:
            c.violation("oracle", f"HuggingFace rotates differently: {info}", info)
        c.observe("compared with HuggingFace", 1)
    c.case(("mrope", hd, rd, inter, str(dt), fused, kind, form))


def main():
    parallel(c, one, scale(1600, 40000), workers=8)
    c.require("addresses checked", 1000000)
    c.require("kernel programs", 3000)
    c.require("vectors", 10000)
    c.require("compared with HuggingFace", 150)
    c.finish()


if __name__ == "__main__":
    run_main(c, main)

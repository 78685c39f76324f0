"""P18: speculative sampling emits tokens distributed as the target model's."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import math
import random
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, run_main, scale, seed
import torch
torch.set_num_threads(1)
import pymllm.layers.sampling as S
S._HAS_FLASHINFER = False

c = Check("P18", "random draft and target distributions (overlapping, disjoint, equal, one-hot), draft tokens drawn from the draft distribution, through the real "
          "chain_speculative_sampling; structure of every output row and the frequencies of every position monitored; non-trivial = distinct distribution sets",
          ["frequencies are compared at 7 standard deviations"])


def dist(r, v):
    k = r.randrange(4)
    if k == 0:
        x = [r.random() + 1e-3 for _ in range(v)]
    elif k == 1:
        x = [0.0] * v
        x[r.randrange(v)] = 1.0
    elif k == 2:
        x = [r.random() if r.random() < .5 else 0.0 for _ in range(v)]
        x[r.randrange(v)] += .5
    else:
        x = [math.exp(3 * r.gauss(0, 1)) for _ in range(v)]
    s = sum(x)
    return [y / s for y in x]


def one(i):
    r = random.Random(seed() * 1000003 + i)
    g = torch.Generator().manual_seed(r.randrange(1 << 30))
    v, n = r.choice([2, 3, 5, 8]), r.choice([1, 2, 3, 4])
    B = 600
    # one chain: the distributions at position t do not depend on earlier tokens
    q = [dist(r, v) for _ in range(n)]
    p = [dist(r, v) for _ in range(n + 1)]
    if r.random() < .3:
        t = r.randrange(n)
        p[t] = list(q[t])
    Q = torch.tensor(q, dtype=torch.float32).expand(B, n, v).contiguous()
    P = torch.tensor(p, dtype=torch.float32).expand(B, n + 1, v).contiguous()
    ids = torch.multinomial(Q.reshape(-1, v), 1, generator=g).reshape(B, n).to(torch.int32)
    acc = torch.full((B,), 5, dtype=torch.int32)
    emi = torch.full((B,), 7, dtype=torch.int32)
    rep = {"draft": q, "target": p}
    c.case(repr(rep)[:200], sample=rep if v <= 3 and n <= 2 else None)
    try:
        give = r.random() < .5
        out, a, e = S.chain_speculative_sampling(Q, ids, P, acc if give else None, emi if give else None, generator=g)
    except Exception as ex:  # noqa: BLE001
        c.exception(ex, "chain_speculative_sampling", rep)
        return
    ar, er = a.clone(), e.clone()
    if give:
        # in-place accumulation; the returned counters may be the accumulators or this call's counts
        d_acc, d_emi = acc - 5, emi - 7
        if not (torch.equal(ar, d_acc) or torch.equal(ar, acc)) or not (torch.equal(er, d_emi) or torch.equal(er, emi)):
            c.violation("accumulate", "counts added in place differ from the counts returned", rep)
        ar, er = d_acc, d_emi
    if tuple(out.shape) != (B, n + 1):
        c.violation("shape", f"output shape {tuple(out.shape)}, expected {(B, n + 1)}", rep)
        return
    cnt = [[0] * v for _ in range(n + 1)]
    tot = [0] * (n + 1)
    for b in range(B):
        o = out[b].tolist()
        d = ids[b].tolist()
        L = next((t for t in range(n + 1) if o[t] < 0), n + 1)
        c.observe("rows")
        if L == 0 or any(x != -1 for x in o[L:]) or any(not 0 <= x < v for x in o[:L]):
            c.violation("row-shape", f"row {o} is not a non-empty run of tokens padded with -1", rep)
            continue
        em = int(er[b])
        c.seen("emitted", (n, em))
        if em != L - 1 or o[:em] != d[:em]:
            c.violation("emitted", f"row {o} for draft {d} reports {em} emitted draft tokens", rep)
            continue
        if not em <= n or not 0 <= int(ar[b]) <= n:
            c.violation("counts", f"accepted {int(ar[b])} emitted {em} of {n}", rep)
        if em < n:
            t = em
            if p[t][d[t]] >= q[t][d[t]] + 1e-6:
                c.violation("rejected-better", f"draft token {d[t]} at {t} rejected although target {p[t][d[t]]} >= draft {q[t][d[t]]}", rep)
            resid = [max(0.0, x - y) for x, y in zip(p[t], q[t])]
            if sum(resid) > 1e-5 and resid[o[t]] <= 1e-7:
                c.violation("residual", f"resampled token {o[t]} at {t} has no residual probability", rep)
        for t in range(em):
            if p[t][d[t]] <= 0:
                c.violation("accepted-zero", f"accepted draft token {d[t]} with target probability 0", rep)
        for t in range(L):
            cnt[t][o[t]] += 1
            tot[t] += 1
    for t in range(n + 1):
        m = tot[t]
        if m < 50:
            continue
        for x in range(v):
            pr = p[t][x]
            c.observe("frequency_cells")
            if abs(cnt[t][x] - m * pr) > 7 * math.sqrt(max(m * pr * (1 - pr), 1e-9)) + 1.5:
                c.violation("frequency", f"position {t}: token {x} emitted {cnt[t][x]} of {m} times, target probability {pr:.4f}", rep)


def main():
    parallel(c, one, scale(160, 4000), workers=8)
    c.require("rows", 5000)
    c.require("frequency_cells", 100)
    c.finish()


run_main(c, main)

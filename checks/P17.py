"""P17: the sampling filters keep exactly the tokens their parameters allow."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import math
import random
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, run_main, scale, seed
import torch
torch.set_num_threads(1)
import pymllm.layers.sampling as S
S._HAS_FLASHINFER = False

c = Check("P17", "random probability rows (flat, peaked, tied, one-hot, with zeros) and random scalar and per-request filter parameters through the "
          "real torch sampling functions; supports and renormalised values compared with an independent float64 reference, draws monitored; "
          "non-trivial = distinct (function, row kind, parameters)", ["the flashinfer CUDA kernels do not run here; their torch fallbacks are what is observed"])
EPS = 2e-5


def rows(r, b, v):
    out = []
    for _ in range(b):
        k = r.randrange(6)
        if k == 0:
            x = [r.random() for _ in range(v)]
        elif k == 1:
            x = [math.exp(6 * r.gauss(0, 1)) for _ in range(v)]
        elif k == 2:
            x = [r.choice([1.0, 2.0, 4.0]) for _ in range(v)]
        elif k == 3:
            x = [0.0] * v
            x[r.randrange(v)] = 1.0
        elif k == 4:
            x = [r.random() if r.random() < .4 else 0.0 for _ in range(v)]
            x[r.randrange(v)] = 1.0
        else:
            x = [1.0] * v
        s = sum(x)
        out.append([y / s for y in x])
    return torch.tensor(out, dtype=torch.float32)


def keep_top_k(p, k):
    """(surely kept, possibly kept) token sets; ties at the boundary are free."""
    v = len(p)
    k = v if k <= 0 else min(k, v)
    q = sorted(p, reverse=True)[k - 1]
    return {i for i in range(v) if p[i] > q}, {i for i in range(v) if p[i] >= q}


def keep_top_p(p, tp):
    order = sorted(range(len(p)), key=lambda i: -p[i])
    must, may, cum = set(), set(), 0.0
    i = 0
    while i < len(order):
        j = i
        while j < len(order) and p[order[j]] == p[order[i]]:
            j += 1
        # a tie group: members are interchangeable
        g = order[i:j]
        for n, t in enumerate(g):
            before = cum + n * p[t]
            if before <= tp + EPS:
                may.update(g)
            if before < tp - EPS and n == len(g) - 1:
                must.update(g)
            elif before < tp - EPS and len(g) == 1:
                must.add(t)
        cum += sum(p[t] for t in g)
        i = j
    must.add(order[0]) if len([t for t in order if p[t] == p[order[0]]]) == 1 else None
    return must, may


def keep_min_p(p, mp):
    th = mp * max(p)
    return {i for i, x in enumerate(p) if x > th * (1 + 1e-5) and x > 0}, {i for i, x in enumerate(p) if x >= th * (1 - 1e-5)}


def check_renorm(name, before, after, must, may, rep):
    s = sum(after)
    if not math.isfinite(s) or abs(s - 1) > 1e-4:
        c.violation(f"{name}:sum", f"{name}: renormalised row sums to {s}", rep)
        return
    sup = {i for i, x in enumerate(after) if x > 0}
    nz = {i for i, x in enumerate(before) if x > 0}
    if not sup <= (may & nz):
        c.violation(f"{name}:extra", f"{name}: kept tokens {sorted(sup - may)[:5]} the filter excludes", rep)
    if not (must & nz) <= sup:
        c.violation(f"{name}:missing", f"{name}: dropped tokens {sorted((must & nz) - sup)[:5]} the filter keeps", rep)
    z = sum(before[i] for i in sup)
    for i in sup:
        if abs(after[i] - before[i] / z) > 1e-4:
            c.violation(f"{name}:ratio", f"{name}: token {i} renormalised to {after[i]}, expected {before[i] / z}", rep)
            break
    c.seen("support", (name, len(sup)))


def one(i):
    r = random.Random(seed() * 1000003 + i)
    g = torch.Generator().manual_seed(r.randrange(1 << 30))
    for _ in range(25):
        b, v = r.choice([1, 2, 4, 7]), r.choice([1, 2, 5, 16, 50])
        p = rows(r, b, v)
        P = [[float(x) for x in row] for row in p.double().tolist()]
        pick_k = lambda: r.choice([1, 2, 3, v, v + 5, 0, -1, r.randrange(1, v + 1)])
        pick_p = lambda: r.choice([1.0, 0.9, 0.5, 0.1, 1e-6, 0.0, r.random()])
        scalar = r.random() < .4
        ks = [pick_k()] * b if scalar else [pick_k() for _ in range(b)]
        ps = [pick_p()] * b if scalar else [pick_p() for _ in range(b)]
        k_arg = ks[0] if scalar else torch.tensor(ks, dtype=r.choice([torch.int32, torch.int64]))
        p_arg = ps[0] if scalar else torch.tensor(ps, dtype=torch.float32)
        ps = ps if scalar else [float(x) for x in p_arg]
        rep = {"probs": P, "top_k": ks, "top_p": ps, "scalar": scalar}
        p0 = p.clone()
        try:
            c.case((scalar, tuple(ks), tuple(ps), P[0][:3]), sample=f"b={b} v={v} top_k={ks} top_p={ps}" if v <= 5 else None)
            out = S.top_k_renorm_probs(p, k_arg).double().tolist()
            for x in range(b):
                check_renorm("top_k_renorm", P[x], out[x], *keep_top_k(P[x], ks[x]), rep)
                m, a = keep_top_k(P[x], ks[x])
                n = sum(1 for y in out[x] if y > 0)
                if len(a) == len(m) and False:
                    pass
            out = S.top_p_renorm_probs(p, p_arg).double().tolist()
            for x in range(b):
                check_renorm("top_p_renorm", P[x], out[x], *keep_top_p(P[x], ps[x]), rep)
            logits = torch.log(p.clamp(min=1e-30)) + r.random()
            ml = S.top_k_mask_logits(logits, k_arg)
            for x in range(b):
                L = logits[x].tolist()
                must, may = keep_top_k(L, ks[x])
                sup = {t for t in range(v) if ml[x, t] != float("-inf")}
                if not must <= sup <= may or any(ml[x, t] != logits[x, t] for t in sup):
                    c.violation("top_k_mask", f"top_k_mask_logits: kept {sorted(sup)}, expected between {sorted(must)} and {sorted(may)} unchanged", rep)
            mps = [r.choice([0.0, 0.05, 0.5, 1.0, r.random()]) for _ in range(b)]
            # draws
            idx = None if r.random() < .6 else torch.tensor([r.randrange(b) for _ in range(r.randrange(1, 9))])
            src = list(range(b)) if idx is None else idx.tolist()
            scal = r.random() < .5
            for _ in range(4):
                draws = [
                    ("sampling_from_probs", S.sampling_from_probs(p, indices=idx, generator=g), lambda x: set(range(v))),
                    ("sampling_from_logits", S.sampling_from_logits(logits, indices=idx, generator=g), lambda x: set(range(v))),
                ]
                if scal or idx is not None:
                    # per-output parameters follow the outputs when rows are shared
                    kk, pp, mm = ks[0], ps[0], mps[0]
                    A = (kk, pp, mm)
                    fk, fp, fm = (lambda x: kk), (lambda x: pp), (lambda x: mm)
                else:
                    A = (torch.tensor(ks), torch.tensor(ps), torch.tensor(mps))
                    fk, fp, fm = (lambda x: ks[x]), (lambda x: ps[x]), (lambda x: mps[x])
                both = lambda x: keep_top_p([y / sum(P[x][t] for t in keep_top_k(P[x], fk(x))[1]) if t in keep_top_k(P[x], fk(x))[1] else 0.0 for t, y in enumerate(P[x])], fp(x))[1] & keep_top_k(P[x], fk(x))[1]
                draws += [
                    ("top_k_sampling", S.top_k_sampling_from_probs(p, A[0], indices=idx, generator=g), lambda x: keep_top_k(P[x], fk(x))[1]),
                    ("top_p_sampling", S.top_p_sampling_from_probs(p, A[1], indices=idx, generator=g), lambda x: keep_top_p(P[x], fp(x))[1]),
                    ("min_p_sampling", S.min_p_sampling_from_probs(p, A[2], indices=idx, generator=g), lambda x: keep_min_p(P[x], fm(x))[1]),
                    ("top_k_top_p_sampling", S.top_k_top_p_sampling_from_probs(p, A[0], A[1], indices=idx, filter_apply_order=r.choice(["top_k_first", "joint"]), generator=g), both),
                    ("top_k_top_p_logits", S.top_k_top_p_sampling_from_logits(logits, A[0], A[1], indices=idx, generator=g), both),
                ]
                for name, ids, allowed in draws:
                    if ids.dtype != torch.int32 or tuple(ids.shape) != (len(src),):
                        c.violation(f"{name}:shape", f"{name}: returned {ids.dtype} {tuple(ids.shape)} for {len(src)} outputs", rep)
                        continue
                    for o, row in enumerate(src):
                        t = int(ids[o])
                        c.observe("draws")
                        if not 0 <= t < v or t not in allowed(row) or (P[row][t] <= 0 and not name.endswith("logits")):
                            c.violation(f"{name}:draw", f"{name}: drew token {t} (p={P[row][t] if 0 <= t < v else None}) outside the allowed set for row {row} top_k={ks} top_p={ps} min_p={mps}", rep)
            if not torch.equal(p, p0):
                c.violation("input-changed", "a sampling function changed the caller's probabilities", rep)
            # softmax
            T = [r.choice([0.0, 0.3, 1.0, 2.5]) for _ in range(b)]
            lg = torch.randn(b, v, generator=g) * r.choice([1, 10])
            sm = S.softmax(lg, temperature=torch.tensor(T) if r.random() < .5 else None if r.random() < .3 else 0.7)
            if not torch.isfinite(sm).all() or (sm.sum(-1) - 1).abs().max() > 1e-4:
                c.violation("softmax", f"softmax rows sum to {sm.sum(-1).tolist()} for temperatures {T}", rep)
            if not all(sm[x, int(lg[x].argmax())] >= sm[x].max() - 1e-6 for x in range(b)):
                c.violation("softmax-order", "softmax does not keep the order of the logits", rep)
            t1 = S.softmax(lg, temperature=0.5)
            if not torch.allclose(t1, torch.softmax(lg.double() / 0.5, -1).float(), atol=1e-5):
                c.violation("softmax-temp", "softmax(temperature=0.5) is not softmax of logits/0.5", rep)
            tt = torch.tensor([r.choice([0.2, 1.0, 3.0]) for _ in range(b)])
            t2 = S.softmax(lg, temperature=tt)
            if not torch.allclose(t2, torch.softmax(lg.double() / tt.double().unsqueeze(-1), -1).float(), atol=1e-5):
                c.violation("softmax-temp", "softmax with per-request temperatures is not softmax of logits/temperature", rep)
        except Exception as e:  # noqa: BLE001
            c.exception(e, "sampling", rep)
    # frequencies on one row with many draws
    v = r.choice([3, 6])
    p = rows(r, 1, v)
    k, tp = r.randrange(1, v + 1), r.choice([1.0, 0.8, 0.5])
    n = 2000
    ids = S.top_k_top_p_sampling_from_probs(p.expand(n, v).contiguous(), k, tp, generator=g)
    q = S.top_p_renorm_probs(S.top_k_renorm_probs(p, k), tp)[0].double()
    cnt = torch.bincount(ids.long(), minlength=v).double()
    for t in range(v):
        sd = math.sqrt(max(n * float(q[t]) * (1 - float(q[t])), 1e-9))
        c.observe("frequency_cells")
        if abs(float(cnt[t]) - n * float(q[t])) > 7 * sd + 1:
            c.violation("frequency", f"token {t} drawn {int(cnt[t])} of {n} times, probability {float(q[t]):.4f}", {"p": p.tolist(), "k": k, "top_p": tp})


def main():
    parallel(c, one, scale(24, 800))
    c.require("draws", 2000)
    c.finish()


run_main(c, main)

"""P19: each request is sampled under its own parameters, whatever shares its batch."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import math
import random
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, run_main, scale, seed
from types import SimpleNamespace
import torch
torch.set_num_threads(1)
import pymllm.layers.sampling as S
S._HAS_FLASHINFER = False
from pymllm.executor.model_runner import LogitsProcessorOutput, ModelRunner, _compute_positions

c = Check("P19", "random logits (fp32/bf16/fp16, ties) with random per-request temperature, top-k, top-p, penalties and token histories in mixed batches "
          "through the real ModelRunner.sample, last-token gathering and position computation; non-trivial = distinct parameter sets")


def ref_logits(L, hist, rep_p, fr, pr, dt):
    L = list(L)
    v = len(L)
    cnt = {}
    for t in hist:
        if 0 <= t < v:
            cnt[t] = cnt.get(t, 0) + 1
    for t, n in cnt.items():
        x = L[t]
        x = x / rep_p if x > 0 else x * rep_p
        x -= fr * n
        x -= pr
        L[t] = x
    return L


def one(i):
    r = random.Random(seed() * 1000003 + i)
    torch.manual_seed(r.randrange(1 << 30))
    runner = SimpleNamespace(device="cpu")
    runner._gather_last_token_logits = lambda *a: ModelRunner._gather_last_token_logits(runner, *a)
    for _ in range(30):
        b, v = r.choice([1, 2, 3, 6]), r.choice([3, 8, 33])
        dt = r.choice([torch.float32, torch.bfloat16, torch.float16])
        lg = torch.randn(b, v) * r.choice([1, 5])
        if r.random() < .3:
            lg = (lg * 2).round() / 2
        lg = lg.to(dt)
        allg = r.random() < .3
        temps = [0.0 if allg or r.random() < .4 else r.choice([0.2, 1.0, 1.7, 1e-7, 1e-3]) for _ in range(b)]
        ks = [r.choice([-1, 0, 1, 2, v, v + 3]) for _ in range(b)]
        ps = [r.choice([1.0, 0.9, 0.4, 0.01]) for _ in range(b)]
        reps = [r.choice([1.0, 1.0, 1.3, 0.7, 5.0]) for _ in range(b)]
        frs = [r.choice([0.0, 0.0, 0.5, -1.0]) for _ in range(b)]
        prs = [r.choice([0.0, 0.0, 1.5, -0.5]) for _ in range(b)]
        hist = [[r.randrange(-1, v + 2) for _ in range(r.choice([0, 1, 5, 12]))] for _ in range(b)]
        pen = None
        if r.random() < .7:
            pen = dict(repetition_penalties=torch.tensor(reps), frequency_penalties=torch.tensor(frs), presence_penalties=torch.tensor(prs), token_histories=hist)
        else:
            reps, frs, prs, hist = [1.0] * b, [0.0] * b, [0.0] * b, [[]] * b
        rep = dict(dtype=str(dt), logits=lg.float().tolist(), temperatures=temps, top_ks=ks, top_ps=ps, rep=reps, freq=frs, pres=prs, hist=hist)
        c.case((str(dt), tuple(temps), tuple(ks), tuple(ps), tuple(reps), tuple(frs), tuple(prs)),
               sample={k: rep[k] for k in ("dtype", "temperatures", "top_ks", "top_ps", "rep", "hist")})
        keep = lg.clone()
        flag = None if r.random() < .5 else all(t < 1e-6 for t in temps)
        use_k, use_p = r.random() < .8, r.random() < .8
        tol = {torch.float32: 1e-5, torch.bfloat16: 2e-2, torch.float16: 2e-3}[dt]
        try:
            for rpt in range(4):
                ids = ModelRunner.sample(runner, LogitsProcessorOutput(next_token_logits=lg), SimpleNamespace(batch_size=b),
                                         temperatures=torch.tensor(temps), top_ks=torch.tensor(ks, dtype=torch.int32) if use_k else None,
                                         top_ps=torch.tensor(ps) if use_p else None, penalty_params=pen, is_all_greedy=flag)
                if tuple(ids.shape) != (b,) or ids.dtype != torch.int32:
                    c.violation("shape", f"sample returned {tuple(ids.shape)} {ids.dtype}", rep)
                    break
                for x in range(b):
                    t = int(ids[x])
                    L = ref_logits(lg[x].double().tolist(), hist[x], float(torch.tensor(reps[x])), frs[x], prs[x], dt)
                    c.observe("tokens")
                    m = max(L)
                    slack = tol * (1 + abs(m))
                    if temps[x] < 1e-6:
                        c.observe("greedy_tokens")
                        if not 0 <= t < v or L[t] < m - slack:
                            c.violation("greedy", f"greedy request {x} of {b} got token {t} (logit {L[t] if 0 <= t < v else None}), best is {m}", rep)
                        # exact independence of the batch
                        alone = ModelRunner.sample(runner, LogitsProcessorOutput(next_token_logits=lg[x:x + 1]), SimpleNamespace(batch_size=1),
                                                   temperatures=torch.tensor(temps[x:x + 1]), penalty_params=None if pen is None else dict(
                                                       repetition_penalties=torch.tensor(reps[x:x + 1]), frequency_penalties=torch.tensor(frs[x:x + 1]),
                                                       presence_penalties=torch.tensor(prs[x:x + 1]), token_histories=hist[x:x + 1]), is_all_greedy=True)
                        if int(alone[0]) != t:
                            c.violation("greedy-batch", f"greedy request {x} got token {t} in a batch of {b} and {int(alone[0])} alone", rep)
                        continue
                    if not 0 <= t < v:
                        c.violation("range", f"token {t} outside the vocabulary of {v}", rep)
                        continue
                    # filters: the token is within its own top-k and nucleus
                    if use_k and ks[x] > 0:
                        kth = sorted(L, reverse=True)[min(ks[x], v) - 1]
                        if L[t] < kth - slack:
                            c.violation("top-k", f"request {x} with top_k={ks[x]} got token {t} ranked below it", rep)
                    if use_p:
                        T = max(temps[x], 1e-6)
                        e = [math.exp(max((y - m) / T, -700)) for y in L]
                        if use_k and ks[x] > 0:
                            kth = sorted(L, reverse=True)[min(ks[x], v) - 1]
                            e = [y if L[j] >= kth - slack else 0.0 for j, y in enumerate(e)]
                        z = sum(e)
                        above = sum(y for j, y in enumerate(e) if L[j] > L[t] + 2 * slack) / z
                        if dt == torch.float32 and above > ps[x] + 1e-3:
                            c.violation("top-p", f"request {x} with top_p={ps[x]} got token {t} after {above:.4f} of the mass", rep)
                if not torch.equal(lg, keep):
                    c.violation("logits-changed", "sample changed the model's logits in place", rep)
        except Exception as e:  # noqa: BLE001
            c.exception(e, "sample", rep)
        # last-token gathering and positions of an extend batch
        lens = [r.randrange(1, 6) for _ in range(b)]
        pre = [r.randrange(0, 7) for _ in range(b)]
        flat = torch.randn(sum(lens), v)
        start = [sum(lens[:x]) for x in range(b)]
        fb = SimpleNamespace(extend_start_loc=torch.tensor(start, dtype=torch.int32), extend_seq_lens=torch.tensor(lens, dtype=torch.int32),
                             forward_mode=SimpleNamespace(is_decode=lambda: False))
        rep = {"lens": lens, "prefix": pre}
        try:
            got = ModelRunner._process_logits(runner, flat, fb).next_token_logits
            want = torch.stack([flat[s + l - 1] for s, l in zip(start, lens)])
            c.observe("gathered", b)
            if not torch.equal(got, want):
                c.violation("gather", f"last-token logits of an extend batch with lengths {lens} are rows of another request", rep)
            pos = _compute_positions(torch.tensor(lens, dtype=torch.int32), torch.tensor(pre, dtype=torch.int32)).tolist()
            wantp = [p + j for p, l in zip(pre, lens) for j in range(l)]
            if pos != wantp:
                c.violation("positions", f"positions {pos} for lengths {lens} after prefixes {pre}, expected {wantp}", rep)
        except Exception as e:  # noqa: BLE001
            c.exception(e, "extend", rep)


def main():
    parallel(c, one, scale(240, 4000))
    c.require("greedy_tokens", 300)
    c.finish()


run_main(c, main)

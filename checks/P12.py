"""P12: a batch is served as its requests one by one, each with its own fields."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import asyncio
import copy
import random
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, run_main, scale, seed
from pymllm.engine.io_struct import GenerateReqInput, TokenizedGenerateReqInput
from pymllm.orchestrator.request_response_process import RequestResponseProcess
from pymllm.orchestrator.tokenizer_process import TokenizerProcess

c = Check("P12", "random single and batched generate calls (text or token ids, per-request and shared fields, lists of right and wrong length, colliding ids, extra options) "
          "through normalisation, the request splitter and the tokenizer loop; each message compared with the request alone; non-trivial = distinct calls")


class Tok:
    """Tokenizer stand-in: one id per character, optional truncation as asked."""
    def __call__(self, text, **kw):
        if not isinstance(text, str):
            raise TypeError("text must be str")
        ids = [ord(ch) for ch in text]
        if kw.get("truncation") and kw.get("max_length"):
            ids = ids[:kw["max_length"]]
        return {"input_ids": ids}


class Done(Exception):
    pass


class Src:
    def __init__(self, msgs):
        self.msgs = iter(msgs)

    def recv_pyobj(self):
        try:
            return next(self.msgs)
        except StopIteration:
            raise Done from None


class Sink:
    def __init__(self):
        self.out = []

    def send_pyobj(self, m):
        self.out.append(m)


def tokenize(msgs, ctx):
    t = TokenizerProcess.__new__(TokenizerProcess)
    t._tokenizer, t._mm_processor, t._context_length = Tok(), None, ctx
    t._enable_shared_queue, t._shared_queue, t._transport_mode, t._tokenizer_cfg = False, None, "default", {}
    t._recv_from_rr, t._send_to_scheduler = Src(msgs), Sink()
    try:
        t.event_loop()
    except Done:
        pass
    return t._send_to_scheduler.out


def submit(reqs):
    """What the front end forwards for the given requests (or what it raised)."""
    rr = RequestResponseProcess("", "")
    rr.listen = lambda: None
    res = []

    async def go():
        for q in reqs:
            try:
                q.normalize_batch_and_arguments()
                st = await rr.add_request(q)
                res.append(("ok", st))
            except Exception as e:  # noqa: BLE001
                res.append((type(e).__name__, str(e)))
    asyncio.run(go())
    msgs = []
    while not rr._request_queue.empty():
        msgs.append(rr._request_queue.get_nowait())
    return res, msgs, rr


SP = [None, {}, {"temperature": 0.0}, {"max_new_tokens": 7}, {"stop_token_ids": [1, 2]}]
PER = {"sampling_params": lambda r: r.choice(SP[1:]) | {"k": r.randrange(99)}, "return_logprob": lambda r: r.random() < .5, "logprob_start_len": lambda r: r.randrange(-1, 5),
       "top_logprobs_num": lambda r: r.randrange(4), "image_data": lambda r: f"img{r.randrange(99)}", "video_data": lambda r: f"vid{r.randrange(99)}",
       "audio_data": lambda r: f"aud{r.randrange(99)}", "lora_path": lambda r: r.choice(["l1", "l2"]), "session_params": lambda r: {"s": r.randrange(99)}}
EXTRA = [{}, {"foo": 1}, {"priority": [1, 2, 3]}, {"trace_id": "x", "opts": {"a": 1}}]


def words(r):
    return "".join(r.choice("ab日 \n😀x") for _ in range(r.randrange(0, 30)))


def gen(r, k):
    """A call, with the list of requests it stands for (None: it must be refused)."""
    single = r.random() < .3
    n = 1 if single else r.choice([1, 1, 2, 3, 5, 9])
    kw, exp, bad = {}, [dict() for _ in range(n)], False
    field = r.choice(["text", "input_ids"])
    vals = [words(r) if field == "text" else [r.randrange(1000) for _ in range(r.randrange(1, 9))] for _ in range(n)]
    kw[field] = vals[0] if single else vals
    for e, v in zip(exp, vals):
        e[field] = v
    rids = [f"c{k}-{j}-{r.randrange(10 ** 6)}" for j in range(n)]
    mode = r.random()
    if single:
        kw["rid"] = rids[0] if mode < .8 else [rids[0]]
    else:
        kw["rid"] = rids
        if n > 1 and mode < .05:
            kw["rid"] = rids[:-1] + [rids[0]]
            bad = True
        elif mode < .1:
            kw["rid"] = rids + ["more"]
            bad = True
        elif n > 1 and mode < .13:
            kw["rid"] = rids[0]
            bad = True
    for e, rid in zip(exp, rids):
        e["rid"] = rid
    kw["stream"] = stream = r.random() < .5
    for f, fn in PER.items():
        m = r.random()
        if m < .45:
            continue
        if single or m < .6:
            v = fn(r)
            kw[f] = v
            for e in exp:
                e[f] = v
        elif m < .97:
            vs = [fn(r) for _ in range(n)]
            if r.random() < .2 and f in ("lora_path", "image_data"):
                vs[r.randrange(n)] = None
            kw[f] = vs
            for e, v in zip(exp, vs):
                e[f] = v
        elif n > 1 or r.random() < .5:
            kw[f] = [fn(r) for _ in range(n + r.choice([-1, 1, 2]))]
            if n == 1 and len(kw[f]) == 1:
                kw[f] = []
            bad = True
    kw["extra_options"] = copy.deepcopy(r.choice(EXTRA))
    if r.random() < .03:
        kw["extra_options"] = {"abort": True}
    for e in exp:
        e["stream"] = stream
    if r.random() < .03:
        kw["text"], kw["input_ids"], bad = "a", [1], True
    elif r.random() < .02:
        kw["text"] = kw["input_ids"] = None
        bad = True
    return kw, None if bad else exp


DEF = {"sampling_params": {}, "return_logprob": False, "logprob_start_len": -1, "top_logprobs_num": 0, "lora_path": None, "session_params": None, "stream": False}


def one(i):
    r = random.Random(seed() * 1000003 + i)
    calls = [gen(r, k) for k in range(r.randrange(1, 5))]
    ctx = r.choice([None, None, 12])
    rep = {"case": i, "seed": seed(), "calls": [k for k, _ in calls], "context": ctx}
    snap = copy.deepcopy(calls)
    try:
        reqs = [GenerateReqInput(**copy.deepcopy(k)) for k, _ in calls]
        res, msgs, rr = submit(reqs)
        out = tokenize(copy.deepcopy(msgs), ctx)
    except Exception as e:  # noqa: BLE001
        c.exception(e, "submit", rep)
        return
    c.case(repr(calls)[:1500], sample={k: str(v)[:60] for k, v in calls[0][0].items()})
    exp, names = [], set()
    for (kw, e), (st, what) in zip(calls, res):
        hostile = "abort" in kw["extra_options"]
        if e is None:
            c.observe("refused_calls")
            if st == "ok":
                c.violation("accepted-bad", f"a call whose lists or ids do not fit was accepted: {str(kw)[:400]}", rep)
                return
            if st != "ValueError":
                c.violation("bad-error", f"a malformed call raised {st}: {what}", rep)
            continue
        if st != "ok":
            if hostile and st == "ValueError":
                c.observe("refused_calls")
                continue
            c.violation("refused-good", f"a well-formed call was refused with {st}: {what}; call {str(kw)[:400]}", rep)
            return
        states = what if isinstance(what, list) else [what]
        if len(states) != len(e):
            c.violation("states", f"{len(states)} states for {len(e)} requests", rep)
            return
        for q, s in zip(e, states):
            if rr._rid_to_state.get(q["rid"]) is not s:
                c.violation("state-rid", f"the state returned for {q['rid']} is not the one registered for it", rep)
            names.add(q["rid"])
        exp += e
    if set(rr._rid_to_state) != names:
        c.violation("state-left", f"states registered for {sorted(map(str, set(rr._rid_to_state) ^ names))[:4]} although refused or missing", rep)
    if len(out) != len(exp):
        c.violation("count", f"{len(exp)} requests became {len(out)} tokenized messages", rep)
        return
    for e, m in zip(exp, out):
        c.observe("requests")
        if not isinstance(m, TokenizedGenerateReqInput):
            c.violation("kind", f"request {e['rid']} arrived at the scheduler as {str(m)[:100]}", rep)
            continue
        if m.rid != e["rid"]:
            c.violation("rid", f"request {e['rid']!r} arrived as {m.rid!r}", rep)
        ids = e["input_ids"] if e.get("input_ids") is not None else [ord(ch) for ch in e["text"]][:ctx]
        if list(m.input_ids) != ids:
            c.violation("ids", f"request {e['rid']}: ids {m.input_ids} for prompt {ids}", rep)
        if e.get("text") is not None and m.input_text != e["text"]:
            c.violation("text", f"request {e['rid']}: text {m.input_text!r}, sent {e['text']!r}", rep)
        for f, d in DEF.items():
            want = e.get(f)
            want = d if want is None else want
            if getattr(m, f) != want:
                c.violation(f"field:{f}", f"request {e['rid']}: {f} is {getattr(m, f)!r}, sent {want!r}", rep)
        mm = {f: e[f] for f in ("image_data", "video_data", "audio_data") if e.get(f) is not None}
        if (m.mm_inputs or {}) != mm:
            c.violation("mm", f"request {e['rid']}: media {m.mm_inputs!r}, sent {mm!r}", rep)
    if [k for k, _ in calls] != [k for k, _ in snap]:
        c.violation("mutated", "the caller's arguments were changed", rep)


def main():
    parallel(c, one, scale(6000, 200000))
    c.require("requests", 5000)
    c.require("refused_calls", 200)
    c.finish()


run_main(c, main)

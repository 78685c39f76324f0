"""P11: every caller gets its own results, all of them, once; abandoned requests are aborted."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import asyncio
import random
import shutil
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, parallel_fresh, run_main, scale, seed
from backend import DIR, engine
import zmq
from pymllm.configs import get_global_config

c = Check("P11", "concurrent callers of the real Engine.generate/generate_async (single, batch, streaming, closing early, cancelled, aborting, reusing ids) over real sockets "
          "against a scripted backend with random timing; what each caller got compared with what the backend sent for its id, and what the backend got with what callers asked; "
          "non-trivial = distinct observed event orders")


class Call:
    def __init__(self, k, r, rid, batch, stream):
        self.k, self.batch, self.stream = k, batch, stream
        self.rids = [f"{rid}" if not batch else f"{rid}.{j}" for j in range(batch or 1)]
        self.texts = [f"t{k}.{j}" for j in range(batch or 1)]
        self.scripts = [(r.choice([0, 1, 2, 3, 8, 30]), r.choice([0, 0, 0.001, 0.003])) for _ in self.rids]
        self.how = r.choice(["read", "read", "read", "close", "cancel", "abort"])
        self.after = r.choice([0, 1, 2, 5])
        self.when = r.choice([0, 0.001, 0.004, 0.02])
        self.start = r.choice([0, 0, 0.001, 0.005])
        self.lag = r.choice([0, 0, 0, 0.001, 0.004])       # a slow reader
        if self.lag and r.random() < .5:
            self.how = "stale"
        self.expired = False
        self.items, self.err, self.complete, self.closed = [], None, False, False

    def kwargs(self):
        sp = [{"script": list(s)} for s in self.scripts]
        one = not self.batch
        return dict(prompt=self.texts[0] if one else self.texts, sampling_params=sp[0] if one else sp, rid=self.rids[0] if one else self.rids, stream=self.stream)


async def client(e, rr, be, call, rep):
    await asyncio.sleep(call.start)
    gen = e.generate_async(**call.kwargs())

    async def read():
        async for it in gen:
            call.items.append(it)
            if call.lag:
                await asyncio.sleep(call.lag)
                c.observe("slow_reads")
            if call.how == "close" and len(call.items) >= call.after:
                call.closed = True
                break
        else:
            call.complete = True

    async def aborter():
        await asyncio.sleep(call.when)
        for rid in call.rids:
            if rid in rr._rid_to_state:
                call.aborted = True
                await rr.abort_request(rid)

    async def stale():
        """The request is older than the server waits for; its results may be here already, but not read."""
        for _ in range(300):
            await asyncio.sleep(0)
            sts = [rr._rid_to_state[x] for x in call.rids if x in rr._rid_to_state]
            if sts and (len(sts) < len(call.rids) or call.when or any(x.finished for x in sts)):
                break
        for x in sts:
            x.created_at -= 10 ** 6
            c.observe("stale_finished" if x.finished else "stale_waiting")
            call.expired |= not x.finished
        rr._cleanup_stale_states()
    ab = asyncio.ensure_future(aborter() if call.how == "abort" else stale()) if call.how in ("abort", "stale") else None
    t = asyncio.ensure_future(read())
    try:
        if call.how == "cancel":
            done, _ = await asyncio.wait({t}, timeout=call.when)
            if not done:
                call.closed = True
                t.cancel()
        await asyncio.wait_for(asyncio.shield(asyncio.wait({t})), 20)
        if t.cancelled():
            pass
        elif t.exception():
            call.err = t.exception()
    except asyncio.TimeoutError:
        c.violation("stuck", f"a {call.how} caller got no end within 20 s (items {len(call.items)})", rep)
        t.cancel()
    if ab:
        await ab
    await gen.aclose()


def conclude(call, be, rep):
    """What one caller saw against what the backend sent for its ids."""
    for rid, text in zip(call.rids, call.texts):
        mine = [x for x in call.items if x.get("rid") == rid]
        got = [x for x in mine if "error" not in x]
        errs = [x for x in mine if "error" in x]
        sent = be.sent.get((rid, text), [])
        if got != sent[:len(got)] and not (not call.stream and got == sent[-1:]):
            c.violation("wrong-results", f"caller of {rid} got {[g.get('delta') for g in got][:6]}, backend sent {[s['delta'] for s in sent][:6]}", rep)
        if errs and call.how != "abort" and not call.expired:
            c.violation("error-unasked", f"caller of {rid} got {errs[0]} without an abort", rep)
        if call.complete and not errs and not (got and got[-1].get("finished") and (len(got) == len(sent) if call.stream else len(got) == 1)):
            c.violation("incomplete", f"caller of {rid} was told the end after {len(got)} of {len(sent)} results", rep)
        if call.complete and len(errs) > 1:
            c.violation("double-end", f"caller of {rid} got {len(errs)} error results", rep)
        for j, x in enumerate(mine):
            if x.get("finished") and j != len(mine) - 1:
                c.violation("after-end", f"caller of {rid} got results after the terminal one", rep)
    alien = [x.get("rid") for x in call.items if x.get("rid") not in call.rids]
    if alien:
        c.violation("alien", f"caller of {call.rids} got results of {alien[:3]}", rep)


def one(i):
    r = random.Random(seed() * 1000003 + i)
    cfg = get_global_config()
    cfg.server.max_queued_requests = r.choice([None, None, None, 3])
    e, rr, be = engine(i)
    calls = []
    for k in range(r.randrange(2, 14)):
        calls.append(Call(k, r, f"r{k}", r.choice([0, 0, 1, 2, 4]), r.random() < .6))
    dup = r.choice(calls) if r.random() < .5 else None
    rep = {"case": i, "seed": seed(), "calls": [dict(rids=x.rids, stream=x.stream, how=x.how, after=x.after, when=x.when, scripts=x.scripts) for x in calls]}
    loop_err = []

    async def duplicate():
        """Somebody uses the id of a live request."""
        for _ in range(200):
            rid = dup.rids[-1]
            if rid in rr._rid_to_state:
                st = rr._rid_to_state[rid]
                try:
                    g = e.generate_async(prompt="dup", rid=rid, sampling_params={"script": [0, 0]})
                    await g.__anext__()
                    c.violation("dup-accepted", f"a second live request with id {rid} was accepted", rep)
                except (ValueError, RuntimeError):
                    c.observe("duplicates_refused")
                if rr._rid_to_state.get(rid) not in (st, None):
                    c.violation("dup-state", f"refusing a duplicate replaced the state of {rid}", rep)
                return
            await asyncio.sleep(0.0005)

    async def go():
        loop = asyncio.get_running_loop()
        loop.set_exception_handler(lambda lp, ctx: loop_err.append(ctx))
        ts = [client(e, rr, be, x, rep) for x in calls]
        if dup:
            ts.append(duplicate())
        await asyncio.gather(*ts)
        # let the last aborts reach the backend
        for _ in range(400):
            await asyncio.sleep(0.005)
            need = [rid for x in calls if x.err is None and not x.complete for rid in x.rids if rid not in be.ended]
            have = {m["rid"] for m in be.log if m.get("abort")}
            if rr._request_queue.empty() and all(n in have for n in need):
                break
        await asyncio.sleep(0.03)
        if rr._loop_task is not None and rr._loop_task.done():
            ex = rr._loop_task.exception()
            c.violation("loop-died", f"the dispatch loop ended with {ex!r}", rep)
        await rr.shutdown()
    try:
        asyncio.run(go())
    except Exception as ex:  # noqa: BLE001
        c.exception(ex, "generate", rep)
        return
    finally:
        be.stopping = True
        be.join(5)
    order = [(str(m.get("rid")), bool(m.get("abort"))) for m in be.log]
    c.case(repr(order) + repr([len(x.items) for x in calls]), sample=order[:8])
    reqs = {}
    for pos, m in enumerate(be.log):
        rid = m.get("rid")
        if isinstance(rid, list):
            c.violation("rid-list", f"a request reached the backend with rid {rid}", rep)
            continue
        if m.get("abort"):
            c.observe("aborts")
            if rid not in reqs:
                c.violation("abort-first", f"an abort of {rid} was sent before the request", rep)
        else:
            c.observe("requests")
            if rid in reqs:
                c.violation("request-twice", f"request {rid} was sent twice", rep)
            reqs[rid] = m
    aborted = {m["rid"] for m in be.log if m.get("abort")}
    for x in calls:
        c.observe("results", len(x.items))
        c.seen("behaviour", (x.how, bool(x.batch), x.stream, x.complete))
        if x.err is not None:
            if isinstance(x.err, RuntimeError) and "too many queued" in str(x.err) and cfg.server.max_queued_requests is not None:
                c.observe("overload_refused")
                for rid in x.rids:
                    if rid in reqs or rid in aborted:
                        c.violation("refused-sent", f"request {rid} refused for overload reached the backend", rep)
                continue
            c.violation(f"error:{type(x.err).__name__}", f"caller ({x.how}) got {x.err!r}", rep)
            continue
        if not x.items and x.how == "cancel" and not any(rid in reqs for rid in x.rids):
            continue        # cancelled before anything happened
        for rid, text, s in zip(x.rids, x.texts, x.scripts):
            m = reqs.get(rid)
            if m is None:
                c.violation("never-sent", f"request {rid} never reached the backend", rep)
            elif m.get("text") != text or list(m["sampling_params"]["script"]) != list(s) or bool(m.get("stream")) != x.stream:
                c.violation("wrong-request", f"request {rid} reached the backend as {str(m)[:200]}", rep)
            if x.complete and x.how != "abort" and rid in aborted:
                c.violation("abort-finished", f"request {rid} was aborted although its caller read it to the end", rep)
            if not x.complete and not x.expired and rid in reqs and rid not in be.ended and rid not in aborted:
                c.violation("not-aborted", f"request {rid} was given up by its caller ({x.how}) but never aborted", rep)
        conclude(x, be, rep)
    if rr._rid_to_state:
        c.violation("state-left", f"states of {list(rr._rid_to_state)[:4]} remain after every caller has left", rep)
    bad = [str(x.get("exception") or x.get("message")) for x in loop_err if not isinstance(x.get("exception"), (asyncio.CancelledError, zmq.error.ZMQError))]
    if bad:
        c.violation("background-error", f"background task failed: {bad[0]:.300}", rep)


def sync(i):
    """Blocking calls, one after another, from one thread."""
    r = random.Random(seed() * 77 + i)
    get_global_config().server.max_queued_requests = None
    e, rr, be = engine(10000 + i)
    rep = {"case": i, "seed": seed(), "sync": True}
    try:
        for k in range(6):
            n = r.choice([0, 1, 3, 7])
            x = Call(k, r, f"s{k}" if r.random() < .8 else "same", n, False)
            kw = x.kwargs()
            if r.random() < .3:
                kw["rid"] = None
            res = e.generate(**kw)
            lst = res if n else [res]
            c.observe("sync_calls")
            if isinstance(res, list) != bool(n) or [y.get("text") for y in lst] != [f"{t}:{s[0]}" for t, s in zip(x.texts, x.scripts)]:
                c.violation("sync-order", f"generate({x.texts}) returned {str(res)[:300]}", rep)
            if rr._rid_to_state:
                c.violation("sync-state-left", f"states {list(rr._rid_to_state)[:4]} remain", rep)
        c.case(f"sync{i}")
    except Exception as ex:  # noqa: BLE001
        c.exception(ex, "generate-sync", rep)
    finally:
        be.stopping = True
        be.join(5)
        e._sync_loop.run_until_complete(rr.shutdown()) if getattr(e, "_sync_loop", None) else None


def stale(i):
    """An id is used again right after its abort, while a result of the aborted request is still under way."""
    r = random.Random(seed() * 91 + i)
    get_global_config().server.max_queued_requests = None
    e, rr, be = engine(20000 + i)
    rep = {"case": i, "seed": seed(), "stale": True}
    got = []

    async def go():
        g = e.generate_async(prompt="old", rid="x", stream=True, sampling_params={"script": [200, 0.0005]})
        await g.__anext__()
        await rr.abort_request("x")
        async for it in e.generate_async(prompt="new", rid="x", stream=True, sampling_params={"script": [3, 0]}):
            got.append(it.get("delta"))
        await g.aclose()
        await rr.shutdown()
    try:
        asyncio.run(asyncio.wait_for(go(), 20))
        c.observe("reused_after_abort")
        if any(str(d).startswith("old") for d in got):
            c.violation("stale-after-abort", f"a request that reuses the id of one just aborted got that one's results: {got[:4]}", rep)
        elif got != [f"new/{k}" for k in range(4)]:
            c.violation("stale-lost", f"a request that reuses an aborted id got {got[:6]}", rep)
    except asyncio.TimeoutError:
        c.violation("stale-stuck", "a request that reuses an aborted id never ended", rep)
    except Exception as ex:  # noqa: BLE001
        c.exception(ex, "reuse", rep)
    finally:
        be.stopping = True
        be.join(5)


def main():
    try:
        parallel(c, one, scale(160, 4000), workers=8)
        parallel_fresh(c, stale, scale(24, 200))
        parallel(c, sync, scale(12, 200), workers=6)
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
    c.require("requests", 300)
    c.require("aborts", 50)
    c.require("sync_calls", 20)
    c.finish()


run_main(c, main)

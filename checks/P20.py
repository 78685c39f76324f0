"""P20: the shared-memory queue delivers every request once, whole and in order."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import glob
import os
import random
import time
import vlib
vlib.setup_python_repo()
from collections import deque
from types import SimpleNamespace
from vlib import Check, parallel, run_main, scale, seed
import torch
torch.set_num_threads(1)
import multiprocessing as mp
from pymllm.engine.io_struct import TokenizedGenerateReqInput
from pymllm.orchestrator.shared_memory_queue import SharedMemoryManager, TensorQueue
from pymllm.orchestrator.tokenizer_process import TokenizerProcess
from pymllm.orchestrator.scheduler_process import SchedulerProcess

c = Check("P20", "random request streams (odd ids, unicode, nested tensors of many dtypes and layouts, aborts) sent through the real tokenizer-side send and "
          "scheduler-side receive over a real multiprocessing queue and POSIX shared memory in another process, with random pauses; "
          "compared item by item with what was sent; non-trivial = distinct streams")
DT = [torch.float32, torch.bfloat16, torch.float16, torch.int64, torch.uint8, torch.bool, torch.float64]


def tensor(r):
    shape = r.choice([(), (0,), (3,), (2, 3), (4, 1, 2), (17,)])
    dt = r.choice(DT)
    t = (torch.randn(shape) * 10).to(dt)
    if t.dim() == 2 and r.random() < .5:
        t = t.t()
    if t.dim() == 1 and t.numel() > 3 and r.random() < .5:
        t = t[1::2]
    return t


def nested(r, d=0):
    k = r.randrange(6 if d < 2 else 3)
    if k <= 1:
        return tensor(r)
    if k == 2:
        return r.choice([1, "s", None, 2.5, b"x", "图"])
    if k == 3:
        return [nested(r, d + 1) for _ in range(r.randrange(3))]
    if k == 4:
        return tuple(nested(r, d + 1) for _ in range(r.randrange(3)))
    return {r.choice("abcd"): nested(r, d + 1) for _ in range(r.randrange(4))}


def same(a, b):
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and (
            a.contiguous().view(-1).view(torch.uint8).tolist() if a.numel() else []) == (b.contiguous().view(-1).view(torch.uint8).tolist() if b.numel() else [])
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def gen(r, n):
    out = []
    live = []
    for i in range(n):
        if live and r.random() < .15:
            out.append({"rid": r.choice(live), "abort": True})
            continue
        rid = r.choice([f"r{i}", f"用户-{i}", f"a/b/{i}", f"sp ace {i}", "x" * 300 + str(i), f"..{i}"])
        live.append(rid)
        req = TokenizedGenerateReqInput(
            rid=rid, input_text=r.choice(["", "hi", "日本\n", "x" * 5000]), input_ids=[r.randrange(1 << 20) for _ in range(r.choice([0, 1, 7, 4000]))],
            mm_inputs=r.choice([None, {}, {"image": nested(r), "m": {"k": nested(r)}}, {"pixel_values": tensor(r), "grid": [tensor(r)]}]),
            sampling_params=r.choice([{}, {"temperature": 0.5, "stop": ["a"]}]), stream=r.random() < .5, return_logprob=r.random() < .5,
            logprob_start_len=r.choice([-1, 3]), top_logprobs_num=r.choice([0, 2]), lora_path=r.choice([None, "p"]), session_params=r.choice([None, {"a": 1}]))
        out.append(req)
    # the end of the stream, never aborted
    out.append(TokenizedGenerateReqInput(rid="END", input_text="", input_ids=[], mm_inputs=None, sampling_params={}, stream=False,
                                         return_logprob=False, logprob_start_len=-1, top_logprobs_num=0, lora_path=None, session_params=None))
    return out


def sender(r, queue, mode):
    t = TokenizerProcess.__new__(TokenizerProcess)
    t._shared_queue = queue
    t._transport_mode = mode
    t._enable_shared_queue = True
    t._ipc_pool = None
    t._ensure_pool = lambda: None
    t._send_to_scheduler = SimpleNamespace(send_pyobj=lambda m: (_ for _ in ()).throw(AssertionError("sent outside the shared queue")))
    return t


def one(i):
    r = random.Random(seed() * 1000003 + i)
    torch.manual_seed(i)
    msgs = gen(r, r.randrange(4, 25))
    mode = r.choice(["default", "default", "cuda_ipc"])
    q = TensorQueue(maxsize=r.choice([0, 1000]), transport_mode=mode)
    torch.multiprocessing.set_sharing_strategy(r.choice(["file_descriptor", "file_system"]))
    rep = {"case": i, "seed": seed(), "mode": mode}
    pauses = [r.choice([0, 0, 0, 0.001, 0.004]) for _ in msgs]
    go = mp.Pipe()
    pid = os.fork()
    if pid == 0:
        rc = 0
        try:
            t = sender(r, q, mode)
            keep = []
            for m, p in zip(msgs, pauses):
                if isinstance(m, TokenizedGenerateReqInput):
                    keep.append(m)
                t._send_via_shared_queue(m)
                if p:
                    time.sleep(p)
            go[0].recv()        # stay alive until the receiver is done (as a server does)
        except BaseException:  # noqa: BLE001
            import traceback
            sys.stderr.write(traceback.format_exc())
            rc = 7
        q._queue.cancel_join_thread()
        os._exit(rc)
    s = SchedulerProcess.__new__(SchedulerProcess)
    s._shared_queue = q
    s._tensor_transport_mode = mode
    s._waiting_queue = deque()
    order = []

    def drain():
        while s._waiting_queue:
            order.append(("req", s._waiting_queue.popleft()))

    def on_abort(rid):
        drain()         # whatever was received before this abort
        order.append(("abort", rid))
    s._abort_request = on_abort
    s._enable_shared_queue = True
    deadline = time.time() + 60
    died = False
    while time.time() < deadline and not (order and order[-1][0] == "req" and order[-1][1].rid == "END"):
        if os.waitpid(pid, os.WNOHANG)[0]:
            died = True
            break
        try:
            s._recv_from_shared_queue()
        except Exception as e:  # noqa: BLE001
            c.exception(e, "receive", rep)
            break
        drain()
        c.observe("polls")
    if died:
        c.violation("send", "the sender failed to send a request", dict(rep, rids=[m.rid if not isinstance(m, dict) else m for m in msgs][:20]))
        return
    time.sleep(0.003)
    try:
        s._recv_from_shared_queue()
    except Exception as e:  # noqa: BLE001
        c.exception(e, "receive", rep)
    drain()
    # an abort may have removed its request from the waiting queue on the way
    exp = []
    for m in msgs:
        exp.append(("abort", m["rid"]) if isinstance(m, dict) else ("req", m))
    c.case(repr([(k, x if k == "abort" else x.rid) for k, x in exp])[:400], sample=[k for k, _ in exp][:10])
    j = 0
    for k, x in order:
        c.observe("aborts" if k == "abort" else "requests")
        # match in order; requests that a later abort removed while still waiting may be missing
        while j < len(exp) and not (exp[j][0] == k and (exp[j][1] == x if k == "abort" else exp[j][1].rid == x.rid)):
            e = exp[j]
            aborted = e[0] == "req" and any(a[0] == "abort" and a[1] == e[1].rid for a in exp[j + 1:])
            if not aborted:
                c.violation("order", f"expected {e[0]} {(e[1] if e[0] == 'abort' else e[1].rid)!r:.60} next, received {k} {(x if k == 'abort' else x.rid)!r:.60}", rep)
                j = None
                break
            c.observe("dropped_by_abort")
            j += 1
        if j is None:
            break
        if j >= len(exp):
            c.violation("extra", f"received {k} {(x if k == 'abort' else x.rid)!r:.60} that was not sent (or sent earlier)", rep)
            break
        if k == "req":
            w = exp[j][1]
            for f in w.__dataclass_fields__:
                if not same(getattr(w, f), getattr(x, f)):
                    c.violation(f"field:{f}", f"request {w.rid!r:.40} received with {f}={getattr(x, f)!r:.200}, sent {getattr(w, f)!r:.200}", rep)
        j += 1
    if j is not None:
        for e in exp[j:]:
            if e[0] == "req" and any(a[0] == "abort" and a[1] == e[1].rid for a in exp[j:]):
                continue
            c.violation("lost", f"{e[0]} {(e[1] if e[0] == 'abort' else e[1].rid)!r:.60} never received", rep)
    go[1].send(1)
    os.waitpid(pid, 0)
    c.observe("streams")


def direct(i):
    """Metadata segments: written, read back, unlinked."""
    r = random.Random(seed() * 77 + i)
    for _ in range(20):
        obj = nested(r)
        rid = r.choice(["a", "a/b", "", "名", "q" * 500])
        try:
            name = SharedMemoryManager.write_metadata(rid, obj)
            name2 = SharedMemoryManager.write_metadata(rid, 1)
            unlink = r.random() < .7
            back = SharedMemoryManager.read_metadata(name, unlink=unlink)
            if not same(obj, back):
                c.violation("metadata", f"metadata {obj!r:.100} read back as {back!r:.100}", {"rid": rid})
            if os.path.exists("/dev/shm/" + name) == unlink:
                c.violation("unlink", f"segment {'left behind after' if unlink else 'removed by'} read_metadata(unlink={unlink})", {"rid": rid})
            if name == name2 or SharedMemoryManager.read_metadata(name2) != 1:
                c.violation("segment-clash", "two writes for one id share a segment", {"rid": rid})
            SharedMemoryManager.cleanup(name)
            SharedMemoryManager.cleanup(name)
            if os.path.exists("/dev/shm/" + name):
                c.violation("cleanup", "cleanup left the segment behind", {"rid": rid})
            c.observe("segments")
        except Exception as e:  # noqa: BLE001
            c.exception(e, "metadata", {"rid": rid})


def main():
    from multiprocessing import resource_tracker
    resource_tracker.ensure_running()   # one tracker for all processes of this check
    before = set(glob.glob("/dev/shm/pymllm_meta_*"))
    n = scale(40, 1500)
    parallel(c, one, n, workers=6)
    parallel(c, direct, 12)
    left = set(glob.glob("/dev/shm/pymllm_meta_*")) - before
    if left:
        c.violation("segments-left", f"{len(left)} metadata segments left in shared memory after all requests were received", {"left": sorted(left)[:5]})
        for p in left:
            os.unlink(p)
    c.require("requests", 100)
    c.require("segments", 50)
    c.finish()


run_main(c, main)

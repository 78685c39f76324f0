"""Scripted backend behind the real request/response front end (real sockets)."""
import asyncio
import os
import random
import tempfile
import threading
import vlib
vlib.setup_python_repo()
import zmq
import zmq.asyncio
from pymllm.engine.launch import Engine
from pymllm.orchestrator.request_response_process import RequestResponseProcess
DIR = tempfile.mkdtemp(prefix="vp11-")


class Backend(threading.Thread):
    """Stands for tokenizer .. detokenizer: answers each request as its prompt says, until aborted."""

    def __init__(self, i, a, b):
        super().__init__(daemon=True)
        self.rng = random.Random(i)
        self.a, self.b = a, b
        self.log, self.sent, self.ended = [], {}, set()
        self.stopping = False

    def run(self):
        asyncio.run(self.main())

    async def main(self):
        ctx = zmq.asyncio.Context()
        rx, self.tx = ctx.socket(zmq.PULL), ctx.socket(zmq.PUSH)
        rx.connect(self.a)
        self.tx.connect(self.b)
        tasks = {}
        while not self.stopping:
            if not await rx.poll(20):
                continue
            m = await rx.recv_pyobj()
            self.log.append(m)
            rid = m.get("rid")
            if m.get("abort"):
                t = tasks.pop(rid, None) if not isinstance(rid, list) else None
                if t:
                    t.cancel()
                continue
            tasks[str(rid)] = asyncio.ensure_future(self.answer(m))
        for t in tasks.values():
            t.cancel()
        rx.close(0)
        self.tx.close(0)
        ctx.term()

    async def answer(self, m):
        rid, (n, pace) = m["rid"], m["sampling_params"]["script"]
        out = self.sent.setdefault((rid, m["text"]), [])
        for k in range(n + 1):
            if pace:
                await asyncio.sleep(self.rng.choice([0, 0, pace]))
            fin = k == n
            if not (m.get("stream") or fin):
                continue
            msg = {"rid": rid, "delta": f"{m['text']}/{k}", "finished": fin, "finished_reason": "length" if fin else None, "text": f"{m['text']}:{k}"}
            out.append(msg)
            if fin:
                self.ended.add(rid)
            await self.tx.send_pyobj(msg)


def engine(i):
    d = f"{DIR}/{os.getpid()}-{i}"
    a, b = f"ipc://{d}-a", f"ipc://{d}-b"
    rr = RequestResponseProcess(a, b)
    e = Engine.__new__(Engine)
    e._rr_process, e._subprocesses, e._ipc_uid, e._subprocess_healthy = rr, [], None, True
    rr.start()
    be = Backend(i, a, b)
    be.start()
    return e, rr, be

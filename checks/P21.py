"""P21: pooled tensor transport: data intact until every consumer has it, no chunk shared, none lost."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import contextlib
import mmap
import multiprocessing
import os
import pickle
import random
import select
import threading
import time
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel_fresh, run_main, scale, seed
import torch
torch.set_num_threads(1)
import pymllm.orchestrator.cuda_ipc_transport as T

c = Check("P21", "random tensors (dtypes, layouts, empty, scalar, larger than the pool) sent by one or two threads through the real memory pool, proxies and recycler thread to one to three consumer "
          "processes with random delays; device memory is stood in for by shared host memory; chunk intervals and received bytes are monitored; non-trivial = distinct streams",
          ["CUDA is replaced by shared host memory: what the GPU driver does with IPC handles is not exercised."])
REAL = torch
MEM = {}


class Cuda:
    device = staticmethod(lambda d: contextlib.nullcontext())

    def __getattr__(self, n):
        return getattr(REAL.cuda, n)


class Storage:
    @staticmethod
    def _new_shared_cuda(token, *rest):
        return MEM["t"].untyped_storage()


class Shim:
    """torch with its CUDA device mapped to host memory."""
    cuda, UntypedStorage = Cuda(), Storage
    device = staticmethod(lambda d=None: REAL.device("cpu"))

    @staticmethod
    def empty(*a, **k):
        if "cuda" in str(k.pop("device", "")) and k.get("dtype") == REAL.int8 and a and a[0] == MEM["size"] and "pool" not in MEM:
            MEM["pool"] = 1
            return MEM["t"]
        return REAL.empty(*a, **k)

    def __getattr__(self, n):
        return getattr(REAL, n)


def share(self):
    if MEM["fail"] and MEM["rng"].random() < .2:
        raise RuntimeError("no IPC here")
    return ("tok", 0)


HOOK = [False]


def signal(meta, real=getattr(T, "_increment_sync_flag", None)):
    """The consumer is about to say that it has copied the tensor at hand (counted for the monitor first)."""
    HOOK[0] = True
    k = MEM["now"][0]
    with MEM["mutex"]:
        MEM["done"][k] += 1
    return real(meta)


T.torch = Shim()
T._increment_sync_flag = signal
REAL.UntypedStorage._share_cuda_ = share
DT = [torch.float32, torch.float16, torch.bfloat16, torch.int64, torch.uint8, torch.bool, torch.int8, torch.float64]


def tensor(r, size):
    n = r.choice([0, 1, 3, 8, 17, 40, 100, size // 8, size])
    dt = r.choice(DT)
    t = torch.randint(0, 2 if dt == torch.bool else 120, (max(n, 0),)).to(dt)
    k = r.random()
    if k < .1 and n:
        return t[0]
    if k < .25 and n % 2 == 0:
        return t.view(2, -1).t()
    if k < .4 and n > 3:
        return t[1::2]
    if k < .5 and n > 3:
        return t[2:]
    if k < .6 and n:
        return t[:1].expand(5)
    return t


def raw(t):
    return (str(t.dtype), tuple(t.shape), t.contiguous().view(-1).view(torch.uint8).numpy().tobytes() if t.numel() else b"")


def consumer(rfd, wfd, rng):
    f = os.fdopen(rfd, "rb", buffering=0)

    def rd(n):
        b = b""
        while len(b) < n:
            x = f.read(n - len(b))
            if not x:
                os._exit(0)
            b += x
        return b
    held = []
    while True:
        ready = select.select([rfd], [], [], 0.0005 if held else None)[0]
        if ready:
            n = int.from_bytes(rd(4), "little")
            held.append(rd(n))
        if held and (not ready or rng.random() < .5):
            k, p = MEM["now"] = pickle.loads(held.pop(0 if rng.random() < .7 else rng.randrange(len(held))))
            if rng.random() < .4:
                time.sleep(rng.choice([0.0003, 0.002]))
            try:
                out = T.unwrap_mm_inputs_from_ipc({"x": [p]})["x"][0]
                res = (k, raw(out))
            except BaseException as e:  # noqa: BLE001
                res = (k, f"{type(e).__name__}: {e}")
            b = pickle.dumps(res)
            os.write(wfd, len(b).to_bytes(4, "little") + b)


def one(i):
    r = random.Random(seed() * 1000003 + i)
    torch.manual_seed(i)
    size = r.choice([64, 256, 1000, 4096])
    ncon = r.choice([1, 1, 2, 3])
    mm = mmap.mmap(-1, size)
    counts = mmap.mmap(-1, 4096)
    MEM.clear()
    MEM.update(t=torch.frombuffer(mm, dtype=torch.int8), size=size, fail=r.random() < .2, rng=random.Random(i), done=counts, mutex=multiprocessing.Lock())
    rep = {"case": i, "seed": seed(), "size": size, "consumers": ncon}
    cons = []
    for k in range(ncon):
        a, b = os.pipe()
        x, y = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(b)
            os.close(x)
            for _, bb, xx in cons:
                os.close(bb)
                os.close(xx)
            try:
                consumer(a, y, random.Random(i * 7 + k))
            finally:
                os._exit(0)
        os.close(a)
        os.close(y)
        cons.append((pid, b, x))
    pool = T.MmItemMemoryPool(size, recycle_interval=0.0005, num_consumers=ncon, device=0)
    lock = threading.Lock()
    out, results = {}, {}          # outstanding: k -> (interval, bytes, consumers left)
    count = [0]
    log = []

    def reader(x):
        f = os.fdopen(x, "rb")
        while True:
            h = f.read(4)
            if len(h) < 4:
                return
            k, res = pickle.loads(f.read(int.from_bytes(h, "little")))
            with lock:
                iv, want, left = out[k]
                c.observe("received")
                if res != want:
                    c.violation("data", f"tensor {k} {want[:2]} at {iv} arrived as {str(res)[:160]}", rep)
                if left == 1:
                    del out[k]
                else:
                    out[k] = (iv, want, left - 1)
    readers = [threading.Thread(target=reader, args=(x,), daemon=True) for _, _, x in cons]
    for t in readers:
        t.start()

    def send(rr, n):
        for _ in range(n):
            t = tensor(rr, size)
            try:
                p = T._wrap_cuda_tensor(t, "cuda_ipc_pool", pool)
            except Exception as e:  # noqa: BLE001
                c.exception(e, "wrap", dict(rep, tensor=[str(t.dtype), list(t.shape), list(t.stride())]))
                return
            if not isinstance(p, T.CudaIpcTensorTransportProxy):
                c.observe("pool_full")
                if raw(p.as_subclass(torch.Tensor)) != raw(t):
                    c.violation("fallback", "the fall-back tensor differs", rep)
                time.sleep(0.0005)
                continue
            h = p._state["ipc_handle"]
            iv = (h["storage_offset"], h["storage_offset"] + h["shape"][0]) if h else None
            with lock:
                k = count[0]
                count[0] += 1
                log.append((k, iv))
                if iv and iv[1] > iv[0]:
                    c.observe("chunks")
                    if iv[0] < 0 or iv[1] > size:
                        c.violation("outside", f"chunk {iv} of a pool of {size}", rep)
                    for k2, (iv2, _, left) in out.items():
                        # some consumer has not even signalled that it copied tensor k2
                        if iv2 and iv2[0] < iv2[1] and iv2[0] < iv[1] and iv[0] < iv2[1] and HOOK[0] and MEM["done"][k2] < ncon:
                            c.violation("overlap", f"chunk {iv} handed out while {iv2} is in use by tensor {k2}", rep)
                elif not iv:
                    c.observe("no_ipc")
                out[k] = (iv, raw(t), ncon)
            data = pickle.dumps((k, p))
            for _, b, _ in cons:
                os.write(b, len(data).to_bytes(4, "little") + data)
            if rr.random() < .3:
                time.sleep(rr.choice([0, 0.0005, 0.003]))
    senders = [threading.Thread(target=send, args=(random.Random(i * 13 + j), r.randrange(10, 40))) for j in range(r.choice([1, 1, 2]))]
    for t in senders:
        t.start()
    for t in senders:
        t.join()
    end = time.time() + 20
    while time.time() < end and out:
        time.sleep(0.001)
    c.case(repr(log)[:2000], sample=[str(x) for x in log[:5]])
    if out:
        c.violation("lost", f"{len(out)} tensors never arrived", rep)
    else:
        # all consumers are done: the pool must become one free piece again
        full = torch.zeros(size, dtype=torch.int8)
        end = time.time() + 3
        ok = False
        while time.time() < end and not ok:
            with contextlib.suppress(Exception):
                ok = pool.get_slice_with_flag(full)[1] is not None
            if not ok:
                time.sleep(0.002)
        if not ok:
            c.violation("leak", f"the pool never came back whole: free {[x.area for x in pool.available_chunks]}, in use {[x.area for x in pool.occupied_chunks]}", rep)
        c.observe("coalesced")
    pool.shutdown()
    for pid, b, x in cons:
        os.close(b)
        os.waitpid(pid, 0)
    for t in readers:
        t.join(2)


def probe():
    """Is the consumers' signal seen by the monitor? (Otherwise received bytes alone decide.)"""
    MEM.update(t=torch.zeros(8, dtype=torch.int8), size=8, fail=False, done=[0], mutex=threading.Lock())
    pool = T.MmItemMemoryPool(8, recycle_interval=0.0005, num_consumers=1, device=0)
    p = T._wrap_cuda_tensor(torch.zeros(4, dtype=torch.int8), "cuda_ipc_pool", pool)
    MEM["now"] = (0, p)
    T.unwrap_mm_inputs_from_ipc({"x": p})
    pool.shutdown()


def main():
    probe()
    from multiprocessing import resource_tracker
    resource_tracker.ensure_running()
    parallel_fresh(c, one, scale(120, 3000))
    c.require("chunks", 500)
    c.require("coalesced", 50)
    c.finish()


run_main(c, main)

"""CUDA graphs on the CPU: capture records every tensor operation with the very tensors it ran on (so Python values, shapes and
addresses are frozen as in a real graph), replay repeats them into the recorded outputs.  Operations a capture forbids are reported."""
import contextlib
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten
import fakegpu

aten = torch.ops.aten
SYNC = {aten._local_scalar_dense.default, aten.nonzero.default, aten.masked_select.default, aten.equal.default, aten.is_nonzero.default, aten._unique2.default}
EMPTY = {aten.empty.memory_format, aten.empty_like.default, aten.new_empty.default, aten.empty_strided.default, aten.new_empty_strided.default}


class NotCapturable(AssertionError):
    pass


class Recorder(TorchDispatchMode):
    def __init__(self):
        super().__init__()
        self.ops = []

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func in SYNC or (func in (aten.index.Tensor, aten.index_put_.default) and any(t is not None and t.dtype == torch.bool for t in args[1])):
            raise NotCapturable(f"{func} reads device data on the host while a graph is captured")
        out = func(*args, **kwargs)
        self.ops.append((func, tree_map(lambda x: x, args), tree_map(lambda x: x, kwargs), out))
        return out


class CUDAGraph:
    def __init__(self):
        self.ops = None

    def replay(self):
        assert self.ops is not None, "replay of a graph that was never captured"
        fakegpu.hit("graph-replay")
        with torch.no_grad():
            for func, args, kwargs, out in self.ops:
                if args is None:
                    func()
                    continue
                if func in EMPTY:
                    if out.is_floating_point():
                        out.fill_(float("nan"))
                    continue
                sch = func._schema
                if sch.is_mutable:
                    func(*args, **kwargs)
                elif any(r.alias_info is not None for r in sch.returns):
                    continue          # a view
                else:
                    new = func(*args, **kwargs)
                    for o, n in zip(tree_flatten(out)[0], tree_flatten(new)[0]):
                        if isinstance(o, torch.Tensor) and o.data_ptr() != n.data_ptr():
                            assert o.shape == n.shape and o.dtype == n.dtype
                            o.copy_(n)


@contextlib.contextmanager
def graph(g, pool=None, stream=None, **kw):
    fakegpu.hit("graph-capture")
    rec = Recorder()
    fakegpu.GRAPH[0] = rec
    try:
        with rec:
            yield
    finally:
        fakegpu.GRAPH[0] = None
    g.ops = rec.ops


class Stream:
    def __init__(self, *a, **k):
        pass


@contextlib.contextmanager
def stream(s):
    yield


def install():
    c = torch.cuda
    c.Stream, c.stream, c.CUDAGraph, c.graph = Stream, stream, CUDAGraph, graph
    c.synchronize = lambda *a, **k: None
    c.graph_pool_handle = lambda: (0, 0)

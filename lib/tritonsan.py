"""A memory sanitizer for Triton kernels: run them in Triton's interpreter with every address they touch checked.

A launch may read the tensors it is given (a view's neighbours in its storage do not count) and write those that are
not protected; an unmasked lane outside, or one address written by two program instances, is recorded (with the load
or store kept from the memory, so that a bad kernel cannot take the monitor down)."""
import os
os.environ["TRITON_INTERPRET"] = "1"
import numpy as np
import triton.runtime.interpreter as I

B = I.InterpreterBuilder
_load, _store = B.create_masked_load, B.create_masked_store
NOW = None


class Launch:
    """the launches of a with block; protect: tensors whose storage no kernel may write"""

    def __init__(self, protect=()):
        self.protect = {t.untyped_storage().data_ptr() for t in protect}
        self.r, self.w, self.launches = [], [], 0
        self.bad, self.owner, self.lanes, self.programs = [], {}, 0, set()

    def begin(self, args):
        import torch
        ts = [t for t in args if isinstance(t, torch.Tensor)]
        self.r = [self._span(t) for t in ts]
        self.w = [self._span(t) for t in ts if t.untyped_storage().data_ptr() not in self.protect]
        self.owner = {}
        self.launches += 1

    @staticmethod
    def _span(t):
        """the elements the tensor itself covers (a view's neighbours in its storage are not its own)"""
        a = t.data_ptr()
        n = 0 if t.numel() == 0 else sum((s - 1) * st for s, st in zip(t.shape, t.stride())) + 1
        return a, a + n * t.element_size()

    def __enter__(self):
        global NOW
        self.prev, NOW = NOW, self
        return self

    def __exit__(self, *a):
        global NOW
        NOW = self.prev

    def inside(self, spans, p, size):
        ok = np.zeros(p.shape, bool)
        for a, b in spans:
            ok |= (p >= a) & (p + size <= b)
        return ok

    def seen(self, kind, b, ptrs, mask, size, spans):
        p, m = np.broadcast_arrays(np.asarray(ptrs.data).astype(np.int64), np.asarray(mask.data).astype(bool))
        self.programs.add(tuple(b.grid_idx))
        self.lanes += int(m.sum())
        out = m & ~self.inside(spans, p, size)
        if out.any():
            a = int(p[out].flat[0])
            near = min(spans, key=lambda s: min(abs(a - s[0]), abs(a - s[1]))) if spans else (0, 0)
            self.bad.append((kind, f"{int(out.sum())} lanes of program {b.grid_idx} {kind} outside; the first one {a - near[1]} bytes after the end of the nearest tensor ({near[1] - near[0]} bytes)"))
        return m & ~out, p


def _l(self, ptrs, mask, other, *a):
    if NOW is not None:
        size = np.dtype(I._get_np_dtype(ptrs.get_element_ty())).itemsize
        m, p = NOW.seen("read", self, ptrs, mask, size, NOW.r)
        mask = I.TensorHandle(m, mask.dtype)
    return _load(self, ptrs, mask, other, *a)


def _s(self, ptrs, value, mask, *a):
    if NOW is not None:
        size = np.dtype(I._get_np_dtype(ptrs.get_element_ty())).itemsize
        m, p = NOW.seen("write", self, ptrs, mask, size, NOW.w)
        g = tuple(self.grid_idx)
        for x in p[m].tolist():
            if NOW.owner.setdefault(x, g) != g:
                NOW.bad.append(("race", f"programs {NOW.owner[x]} and {g} both write one address"))
                break
        mask = I.TensorHandle(m, mask.dtype)
    return _store(self, ptrs, value, mask, *a)


B.create_masked_load, B.create_masked_store = _l, _s
_call = I.GridExecutor.__call__


def _launch(self, *args, **kwargs):
    if NOW is not None:
        NOW.begin(list(args) + list(kwargs.values()))
    return _call(self, *args, **kwargs)


I.GridExecutor.__call__ = _launch



def on_gpu(t):
    global _G
    import torch
    if "_G" not in globals():
        _G = type("OnGpuTensor", (torch.Tensor,), {"is_cuda": True})
    return t.as_subclass(_G)


def fused_rope():
    """Make apply_mrope_fused_ take the kernel's path for CPU tensors while the returned object's .on is set."""
    import types
    import pymllm.layers.rope as R
    s = types.SimpleNamespace(on=False)
    real = getattr(R, "_can_use_mrope_fused", None)
    if real is not None:
        R._can_use_mrope_fused = lambda *a, **k: real(*(on_gpu(x) for x in a), **{n: on_gpu(x) for n, x in k.items()}) if s.on else real(*a, **k)
    return s

"""Plain-torch stand-ins for the GPU kernels pymllm calls (documented contracts of FlashInfer and mllm-kernel), so that
everything above them runs for real on the CPU.  Each one also watches how it is called: shapes, index ranges, plans."""
import math
import torch

CALLS = {}


class Misuse(AssertionError):
    pass


def hit(k, n=1):
    CALLS[k] = CALLS.get(k, 0) + n


def need(ok, what):
    if not ok:
        raise Misuse(what)


def rmsnorm(x, weight, eps=1e-6, out=None, enable_pdl=None):
    hit("rmsnorm")
    need(x.shape[-1] == weight.shape[0], f"rmsnorm over {tuple(x.shape)} with weight {tuple(weight.shape)}")
    f = x.float()
    r = (f * torch.rsqrt(f.pow(2).mean(-1, keepdim=True) + eps) * weight.float()).to(x.dtype)
    if out is not None:
        out.copy_(r)
        return out
    return r


def gemma_rmsnorm(x, weight, eps=1e-6, out=None, enable_pdl=None):
    return rmsnorm(x, weight.float() + 1, eps, out)


def fused_add_rmsnorm(x, residual, weight, eps=1e-6, enable_pdl=None):
    need(x.shape == residual.shape and x.dim() == 2, f"fused add+norm of {tuple(x.shape)} and {tuple(residual.shape)}")
    need(x.data_ptr() != residual.data_ptr(), "fused add+norm of a tensor with itself as residual")
    residual.add_(x)
    x.copy_(rmsnorm(residual, weight, eps))


def gemma_fused_add_rmsnorm(x, residual, weight, eps=1e-6, enable_pdl=None):
    fused_add_rmsnorm(x, residual, weight.float() + 1, eps)


def gated(act):
    def f(x, out=None, enable_pdl=None):
        hit("gated-activation")
        need(x.shape[-1] % 2 == 0, "gated activation of an odd width")
        a, b = x.float().chunk(2, dim=-1)
        r = (act(a) * b).to(x.dtype)
        if out is not None:
            out.copy_(r)
            return out
        return r
    return f


F = torch.nn.functional
silu_and_mul = gated(F.silu)
gelu_and_mul = gated(F.gelu)
gelu_tanh_and_mul = gated(lambda a: F.gelu(a, approximate="tanh"))


def rotate(x, cos, sin, interleave):
    r = 2 * cos.shape[-1]
    y = x.clone()
    if interleave:
        a, b = x[..., 0:r:2].double(), x[..., 1:r:2].double()
        y[..., 0:r:2] = (a * cos - b * sin).to(x.dtype)
        y[..., 1:r:2] = (b * cos + a * sin).to(x.dtype)
    else:
        a, b = x[..., :r // 2].double(), x[..., r // 2:r].double()
        y[..., :r // 2] = (a * cos - b * sin).to(x.dtype)
        y[..., r // 2:r] = (b * cos + a * sin).to(x.dtype)
    return y


def apply_rope_pos_ids(q, k, pos_ids, rotary_dim=None, interleave=False, rope_scale=1, rope_theta=1e4):
    hit("rope")
    # like the kernel: a contiguous buffer of which the first nnz entries are read
    need(q.dim() == 3 and k.dim() == 3 and q.shape[0] == k.shape[0] and pos_ids.is_contiguous() and pos_ids.numel() >= q.shape[0], f"rope of {tuple(q.shape)}, {tuple(k.shape)} at {tuple(pos_ids.shape)}")
    pos_ids = pos_ids.reshape(-1)[:q.shape[0]]
    d = rotary_dim or q.shape[-1]
    inv = rope_theta ** (-torch.arange(0, d, 2, dtype=torch.float64) / d)
    ang = (pos_ids.double() / rope_scale)[:, None] * inv[None]
    c, s = ang.cos()[:, None], ang.sin()[:, None]
    return rotate(q, c, s, interleave), rotate(k, c, s, interleave)


def apply_rope_pos_ids_inplace(q, k, pos_ids, **kw):
    a, b = apply_rope_pos_ids(q, k, pos_ids, **kw)
    q.copy_(a)
    k.copy_(b)


def attend(q, k, v, scale, causal, cap=None, off=0, window=-1):
    """q [n,Hq,D], k [m,Hkv,D], v [m,Hkv,Dv] -> out [n,Hq,Dv], lse base 2 [n,Hq]"""
    n, Hq, D = q.shape
    m, Hk = k.shape[0], k.shape[1]
    if m == 0:
        return torch.zeros(n, Hq, v.shape[-1]), torch.full((n, Hq), float("-inf"))
    kk = k.double().repeat_interleave(Hq // Hk, 1)
    vv = v.double().repeat_interleave(Hq // Hk, 1)
    s = torch.einsum("nhd,mhd->hnm", q.double(), kk) * scale
    if cap:
        s = cap * torch.tanh(s / cap)
    i = torch.arange(n)[:, None] + (m - n)
    j = torch.arange(m)[None]
    if causal:
        s = s.masked_fill(j > i, float("-inf"))
    if window >= 0:
        s = s.masked_fill(j < i - window, float("-inf"))
    lse = torch.logsumexp(s, -1)
    p = torch.exp(s - lse[..., None])
    return torch.einsum("hnm,mhd->nhd", p, vv).float(), (lse.T / math.log(2)).float()


class Ragged:
    def __init__(self, ws, layout="NHD", use_cuda_graph=False, **kw):
        need(layout == "NHD", "layout")

    def begin_forward(self, qo_indptr, kv_indptr, hq, hk, d, *a, q_data_type=None, **kw):
        hit("ragged-plan")
        self.qo, self.kv, self.hq, self.hk, self.d = qo_indptr.tolist(), kv_indptr.tolist(), hq, hk, d

    plan = begin_forward

    def forward_return_lse(self, q, k, v, causal=True, sm_scale=None, logits_soft_cap=None, window_left=-1, **kw):
        hit("ragged")
        need(q.shape[0] == self.qo[-1] and k.shape[0] == self.kv[-1] == v.shape[0], f"ragged attention of {q.shape[0]} queries and {k.shape[0]} keys planned for {self.qo[-1]} and {self.kv[-1]}")
        need(q.shape[1] == self.hq and k.shape[1] == self.hk and q.shape[2] == self.d == k.shape[2], "heads other than planned")
        o, l = [], []
        for i in range(len(self.qo) - 1):
            a, b = attend(q[self.qo[i]:self.qo[i + 1]], k[self.kv[i]:self.kv[i + 1]], v[self.kv[i]:self.kv[i + 1]], sm_scale if sm_scale is not None else self.d ** -.5, causal, logits_soft_cap, window=window_left)
            o.append(a)
            l.append(b)
        return torch.cat(o).to(q.dtype), torch.cat(l)

    def forward(self, *a, **k):
        return self.forward_return_lse(*a, **k)[0]

    run = forward


class Paged:
    is_cuda_graph_enabled = False

    def __init__(self, ws, layout="NHD", use_cuda_graph=False, use_tensor_cores=False, **kw):
        need(layout == "NHD", "layout")

    def begin_forward(self, qo_indptr, kv_indptr, kv_indices, last, hq, hk, d, page, *a, q_data_type=None, kv_data_type=None, **kw):
        hit("paged-plan")
        need(page == 1, "page size")
        n = len(qo_indptr) - 1
        need(len(kv_indptr) == n + 1 and len(last) == n, f"plan for {n} sequences with {len(kv_indptr)} offsets and {len(last)} last pages")
        need(bool((last == 1).all()), "last page length of a one-token page")
        self.qo, self.kv, self.hq, self.hk, self.d = qo_indptr.tolist(), kv_indptr.tolist(), hq, hk, d
        self.ix = kv_indices[: self.kv[-1]].long().clone()

    plan = begin_forward

    def forward_return_lse(self, q, paged_kv, causal=True, sm_scale=None, logits_soft_cap=None, window_left=-1, **kw):
        hit("paged")
        kb, vb = (t[:, 0] for t in paged_kv)
        need(q.shape[0] == self.qo[-1], f"paged attention of {q.shape[0]} queries planned for {self.qo[-1]}")
        need(q.shape[1] == self.hq and kb.shape[1] == self.hk and q.shape[2] == self.d == kb.shape[2], "heads other than planned")
        need(self.ix.numel() == 0 or (int(self.ix.min()) >= 0 and int(self.ix.max()) < kb.shape[0]), "cache slot out of range")
        o, l = [], []
        for i in range(len(self.qo) - 1):
            ix = self.ix[self.kv[i]:self.kv[i + 1]]
            a, b = attend(q[self.qo[i]:self.qo[i + 1]], kb[ix], vb[ix], sm_scale if sm_scale is not None else self.d ** -.5, causal, logits_soft_cap, window=window_left)
            o.append(a)
            l.append(b)
        return torch.cat(o).to(q.dtype), torch.cat(l)

    def forward(self, *a, **k):
        return self.forward_return_lse(*a, **k)[0]

    run = forward


class Decode(Paged):
    """With use_cuda_graph the page table lives in the caller's buffers: planning copies into them, a replayed graph reads them."""

    def __init__(self, ws, layout="NHD", use_cuda_graph=False, use_tensor_cores=False, paged_kv_indptr_buffer=None, paged_kv_indices_buffer=None, paged_kv_last_page_len_buffer=None, **kw):
        super().__init__(ws, layout)
        self.is_cuda_graph_enabled = use_cuda_graph
        if use_cuda_graph:
            self._paged_kv_indptr_buf, self._paged_kv_indices_buf, self._paged_kv_last_page_len_buf = paged_kv_indptr_buffer, paged_kv_indices_buffer, paged_kv_last_page_len_buffer
            self._fixed = len(paged_kv_last_page_len_buffer)
            need(len(paged_kv_indptr_buffer) == self._fixed + 1, "graph wrapper with an offset buffer of the wrong size")

    def begin_forward(self, kv_indptr, kv_indices, last, hq, hk, d, page, *a, data_type=None, q_data_type=None, **kw):
        if self.is_cuda_graph_enabled:
            need(len(last) == self._fixed and len(kv_indptr) == self._fixed + 1, f"graph wrapper for {self._fixed} sequences planned for {len(last)}")
            need(int(kv_indptr[-1]) <= len(self._paged_kv_indices_buf), "page table larger than the graph's buffer")
            n = int(kv_indptr[-1])
            if kv_indices.data_ptr() != self._paged_kv_indices_buf.data_ptr():
                self._paged_kv_indices_buf[:n] = kv_indices[:n].clone()
            self._paged_kv_indptr_buf.copy_(kv_indptr.clone())
            self._paged_kv_last_page_len_buf.copy_(last.clone())
        super().begin_forward(torch.arange(len(kv_indptr)), kv_indptr, kv_indices, last, hq, hk, d, page)
        hit("decode-plan")

    plan = begin_forward

    def forward(self, q, paged_kv, sm_scale=None, logits_soft_cap=None, window_left=-1, **kw):
        hit("decode")

        def run():
            if self.is_cuda_graph_enabled:
                p = self._paged_kv_indptr_buf.tolist()
                need(p == self.kv, "the graph's page offsets are not the ones it was planned for")
                need(torch.equal(self._paged_kv_indices_buf[:p[-1]].long(), self.ix), "the graph's page table is not the one it was planned for")
            return self.forward_return_lse(q, paged_kv, causal=False, sm_scale=sm_scale, logits_soft_cap=logits_soft_cap)[0]
        return kernel(run)

    run = forward


GRAPH = [None]


def kernel(fn):
    """One opaque kernel: run now, and again (into the same output) whenever a graph that recorded it is replayed."""
    if GRAPH[0] is None:
        return fn()
    from torch.utils._python_dispatch import _disable_current_modes
    with _disable_current_modes():
        out = fn()
    GRAPH[0].ops.append((lambda: out.copy_(fn()), None, None, None))
    return out


def merge_state(a, s, b, t):
    hit("merge")
    m = torch.maximum(s, t)
    m = torch.where(torch.isinf(m), torch.zeros_like(m), m)
    x, y = torch.exp2(s - m), torch.exp2(t - m)
    return ((a.float() * x[..., None] + b.float() * y[..., None]) / (x + y)[..., None]).to(a.dtype), m + torch.log2(x + y)


def create_kv_indices(r2t, pool, lens, indptr, start, out):
    hit("kv-indices")
    for t in (pool, lens, indptr, out) + ((start,) if start is not None else ()):
        need(t.dtype == torch.int32, f"index tensor of type {t.dtype}")
    n = len(pool)
    need(len(lens) == n and len(indptr) == n + 1, "batch size of the index tensors")
    for i in range(n):
        s0 = int(start[i]) if start is not None else 0
        L, o = int(lens[i]), int(indptr[i])
        need(0 <= int(pool[i]) < r2t.shape[0] and 0 <= s0 and s0 + L <= r2t.shape[1] and o + L <= len(out), "index out of range")
        out[o:o + L] = r2t[int(pool[i]), s0:s0 + L].to(torch.int32)


def install():
    import os
    os.environ.setdefault("PYMLLM_FLASHINFER_WORKSPACE_SIZE", "1024")
    import flashinfer
    import flashinfer.norm
    import flashinfer.activation
    import flashinfer.rope
    import flashinfer.cascade
    for m, names in ((flashinfer.norm, ("rmsnorm", "gemma_rmsnorm", "fused_add_rmsnorm", "gemma_fused_add_rmsnorm")),
                     (flashinfer.activation, ("silu_and_mul", "gelu_and_mul", "gelu_tanh_and_mul")),
                     (flashinfer.rope, ("apply_rope_pos_ids", "apply_rope_pos_ids_inplace")),
                     (flashinfer.cascade, ("merge_state",))):
        for x in names:
            setattr(m, x, globals()[x])
            if hasattr(flashinfer, x):
                setattr(flashinfer, x, globals()[x])
    flashinfer.BatchPrefillWithRaggedKVCacheWrapper = Ragged
    flashinfer.BatchPrefillWithPagedKVCacheWrapper = Paged
    flashinfer.BatchDecodeWithPagedKVCacheWrapper = Decode
    import mllm_kernel.cuda.jit.create_kv_indices as m
    m.create_kv_indices = create_kv_indices
    import pymllm.layers.rms_norm as rn
    rn._patch_cuda_device_properties_for_flashinfer_norm = lambda: None
    import pymllm.layers.attention.flashinfer_backend as fb
    fb.create_kv_indices = create_kv_indices
    fb._has_fast_decode_plan = False

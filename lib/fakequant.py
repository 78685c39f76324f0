"""Stand-ins for the quantised CUDA kernels. They read the layouts the kernels read (Marlin tiles, permuted scales and zero
points, column-major int8) and refuse what the kernels refuse; the Triton kernel runs itself, in Triton's interpreter."""
import os
os.environ["TRITON_INTERPRET"] = "1"
import types
import vlib
vlib.setup_python_repo()
import numpy as np
import torch
import triton.language as tl
from fakegpu import need, hit

SMS = 46


def _half_away(x, **kw):
    h = x.handle
    d = h.data.astype(np.float64)
    h = type(h)((np.sign(d) * np.floor(np.abs(d) + 0.5)).astype(h.data.dtype), h.dtype)
    return tl.tensor(h, x.type)


def weight_perm(bits):
    out = []
    for i in range(32):
        one = []
        for block in (0, 1):
            for row in (2 * (i % 4), 2 * (i % 4) + 1, 2 * (i % 4 + 4), 2 * (i % 4 + 4) + 1):
                one.append(16 * row + i // 4 + 8 * block)
        for j in range(4):
            out += [p + 256 * j for p in one]
    inter = [0, 2, 4, 6, 1, 3, 5, 7] if bits == 4 else [0, 2, 1, 3]
    return np.array(out).reshape(-1, len(inter))[:, inter].ravel()


GROUPED = np.array([i + 8 * j for i in range(8) for j in range(8)])
SINGLE = np.array([2 * i + j for i in range(4) for j in (0, 1, 8, 9, 16, 17, 24, 25)])


def unpack(a, bits):
    """[.., n] int32 -> [.., n * 32/bits], lowest bits first."""
    a = a.numpy().astype(np.int64) & 0xFFFFFFFF
    return np.stack([(a >> (bits * i)) & ((1 << bits) - 1) for i in range(32 // bits)], -1).reshape(*a.shape[:-1], -1)


def pack(q, bits):
    q = q.reshape(*q.shape[:-1], -1, 32 // bits).astype(np.uint64)
    a = sum(q[..., i] << np.uint64(bits * i) for i in range(32 // bits))
    return torch.from_numpy(a.astype(np.uint32).view(np.int32).copy())


def to_marlin(q, bits):
    k, n = q.shape
    p = weight_perm(bits)
    t = q.reshape(k // 16, 16, n // 16, 16).transpose(0, 2, 1, 3).reshape(-1, p.size)[:, p].reshape(k // 16, n * 16)
    return pack(t, bits)


def from_marlin(m, k, n, bits):
    p = weight_perm(bits)
    t = np.empty((k * n // p.size, p.size), np.int64)
    t[:, p] = unpack(m, bits).reshape(-1, p.size)
    return t.reshape(k // 16, n // 16, 16, 16).transpose(0, 2, 1, 3).reshape(k, n)


def check_packed(t, shape, what):
    need(t.dtype == torch.int32 and t.is_contiguous() and tuple(t.shape) == shape, f"{what}: {t.dtype} {tuple(t.shape)}, contiguous {t.is_contiguous()}; int32 {shape} expected")


def gptq_repack(b_q_weight, perm, size_k, size_n, num_bits=4, *a):
    need(size_k % 16 == 0 and size_n % 64 == 0, f"repack of {size_k}x{size_n}")
    check_packed(b_q_weight, (size_k * num_bits // 32, size_n), "gptq_marlin_repack")
    need(perm is None or perm.numel() == 0, "activation order")
    hit("gptq_marlin_repack")
    f = 32 // num_bits
    w = b_q_weight.numpy().astype(np.int64) & 0xFFFFFFFF
    q = np.stack([(w >> (num_bits * i)) & ((1 << num_bits) - 1) for i in range(f)], 1).reshape(size_k, size_n)
    return to_marlin(q, num_bits)


def awq_repack(b_q_weight, size_k, size_n, num_bits=4, *a):
    need(size_k % 16 == 0 and size_n % 64 == 0, f"repack of {size_k}x{size_n}")
    check_packed(b_q_weight, (size_k, size_n * num_bits // 32), "awq_marlin_repack")
    hit("awq_marlin_repack")
    order = [0, 2, 4, 6, 1, 3, 5, 7] if num_bits == 4 else [0, 2, 1, 3]
    raw = unpack(b_q_weight, num_bits).reshape(size_k, -1, len(order))
    q = np.empty_like(raw)
    q[..., order] = raw                      # nibble i of a word holds column order[i]
    return to_marlin(q.reshape(size_k, size_n), num_bits)


TYPES = {}
for name, bits, bias in (("uint4", 4, 0), ("uint8", 8, 0), ("uint4b8", 4, 8), ("uint8b128", 8, 128)):
    TYPES[(bits << 8) | (bias << 17) | (1 << 50)] = (name, bits, bias)


def marlin_gemm(a, c, b_q_weight, b_scales, global_scale, b_zeros, g_idx, perm, workspace, b_q_type_id, size_m, size_n, size_k,
                is_k_full=True, use_atomic_add=False, use_fp32_reduce=False, is_zp_float=False):
    need(b_q_type_id in TYPES, f"unknown element type id {b_q_type_id}")
    name, bits, bias = TYPES[b_q_type_id]
    need(tuple(a.shape) == (size_m, size_k) and a.stride(-1) == 1, f"activations {tuple(a.shape)} for {size_m}x{size_k}")
    need(a.dtype == b_scales.dtype, f"activations {a.dtype}, scales {b_scales.dtype}")
    check_packed(b_q_weight, (size_k // 16, size_n * 16 * bits // 32), "marlin weights")
    need(b_scales.is_contiguous() and b_scales.dim() == 2 and b_scales.shape[1] == size_n, f"scales {tuple(b_scales.shape)}")
    need(workspace.dtype == torch.int32 and workspace.numel() >= SMS and not workspace.any(), "workspace")
    need(g_idx.numel() == 0 and perm.numel() == 0 and global_scale is None and not is_zp_float, "options")
    groups = b_scales.shape[0]
    need(size_k % groups == 0 and (groups == 1 or size_k // groups in (16, 32, 64, 128)), f"{groups} groups of {size_k}")
    hit("marlin_gemm " + name)
    q = from_marlin(b_q_weight, size_k, size_n, bits).astype(np.float32)
    sp = GROUPED if groups > 1 else SINGLE
    s = np.empty((groups * size_n // sp.size, sp.size), np.float32)
    s[:, sp] = b_scales.float().numpy().reshape(-1, sp.size)
    s = s.reshape(groups, size_n)
    if b_zeros is not None and b_zeros.numel():
        need(bias == 0, "zero points with a biased type")
        check_packed(b_zeros, (groups, size_n * bits // 32), "zero points")
        inter = [0, 2, 4, 6, 1, 3, 5, 7] if bits == 4 else [0, 2, 1, 3]
        t = unpack(b_zeros, bits).reshape(-1, len(inter))
        z = np.empty_like(t)
        z[:, inter] = t
        z, t = np.empty((groups * size_n // 64, 64), np.float32), z.reshape(-1, 64)
        z[:, GROUPED] = t
        z = z.reshape(groups, size_n)
    else:
        need(bias != 0, "an unsigned type without zero points")
        z = np.full((groups, size_n), bias, np.float32)
    r = size_k // groups
    w = (q - np.repeat(z, r, 0)) * np.repeat(s, r, 0)
    return (a.float() @ torch.from_numpy(w)).to(a.dtype)


def int8_mm(mat_a, mat_b, scales_a, scales_b, out_dtype, bias=None):
    m, k = mat_a.shape
    n = mat_b.shape[1]
    need(mat_a.dtype == torch.int8 and mat_a.stride() == (k, 1), "left operand: int8 rows expected")
    need(mat_b.dtype == torch.int8 and mat_b.shape[0] == k and mat_b.stride(0) == 1, "right operand: int8 columns expected")
    need(k % 16 == 0 and n % 8 == 0, f"alignment of {k}x{n}")
    if scales_a.dim() == 2:
        scales_a = scales_a.squeeze(-1)
    need(scales_a.dtype == torch.float32 and tuple(scales_a.shape) == (m,) and scales_a.is_contiguous(), f"activation scales {scales_a.dtype} {tuple(scales_a.shape)}")
    need(scales_b.dtype == torch.float32 and tuple(scales_b.shape) == (n,) and scales_b.is_contiguous(), f"weight scales {scales_b.dtype} {tuple(scales_b.shape)}")
    need(bias is None or (bias.dtype == out_dtype and tuple(bias.shape) == (n,)), "bias")
    hit("int8_scaled_mm")
    acc = mat_a.to(torch.float64) @ mat_b.to(torch.float64)
    out = acc * scales_a[:, None].double() * scales_b[None].double()
    if bias is not None:
        out = out + bias.double()
    return out.to(out_dtype)


def install():
    import importlib
    J = importlib.import_module("mllm_kernel.cuda.jit")
    for mod, name, fn in (("awq_marlin_repack", "awq_marlin_repack", awq_repack), ("gptq_marlin", "gptq_marlin_gemm", marlin_gemm),
                          ("gptq_marlin_repack", "gptq_marlin_repack", gptq_repack), ("int8_scaled_mm_cutlass", "int8_scaled_mm", int8_mm)):
        setattr(importlib.import_module("mllm_kernel.cuda.jit." + mod), name, fn)
        setattr(J, name, fn)
    torch.cuda.get_device_capability = lambda *a: (8, 6)
    torch.cuda.get_device_properties = lambda *a: types.SimpleNamespace(multi_processor_count=SMS, major=8, minor=6, total_memory=8 << 30, name="stand-in")
    tl.extra.cuda.libdevice.round = _half_away

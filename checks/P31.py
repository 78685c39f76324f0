"""P31: a converted model file holds exactly the tensors of the checkpoint it was made from."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import struct
import tempfile
import types
import warnings
warnings.filterwarnings("ignore")
import vlib
vlib.setup_python_repo()
from vlib import Check, REPO, run_main, scale, seed
import numpy as np
import torch
from safetensors.torch import save_file
import cpp
torch.set_num_threads(1)


class FTensor:
    """What the converter needs of an mllm tensor."""

    def __init__(self, data=b"", shape=(), dtype=134, name=""):
        self.data, self.shape, self._d, self.name = data, shape, dtype, name

    dtype = property(lambda s: types.SimpleNamespace(to_pod=lambda: s._d))

    def tobytes(self):
        return self.data

    def set_name(self, n):
        self.name = n


def from_torch(t):
    assert t.dtype == torch.float32, f"from_torch of {t.dtype}"
    return FTensor(t.contiguous().numpy().tobytes(), tuple(t.shape), 0)


def from_numpy(t):
    assert t.dtype == np.float32, f"from_numpy of {t.dtype}"
    return FTensor(t.tobytes(), t.shape, 0)


def pack(tile, w, b):
    """Stands for the ARM packer: a byte buffer that depends on everything it is given."""
    h = hashlib.sha256(tile.encode() + b"|" + w.data + b"|" + b.data + repr(tuple(w.shape)).encode()).digest()
    n = len(w.data) // 6 + 9
    d = (h * (n // 32 + 1))[:n]
    return FTensor(d, (n,), 134, w.name)


class ForeignTensor(types.ModuleType):
    pass


def stub():
    tv = types.ModuleType("tvm_ffi")
    tv.get_global_func = lambda n: {"mllm.quantize_pack.KaiLinear_f32_qai8dxp_qsi4c32p_mxk_nxk": pack}[n]
    sys.modules["tvm_ffi"] = tv
    pkg = types.ModuleType("pymllm.mobile")
    pkg.__path__ = [str(REPO / "pymllm" / "mobile")]
    sys.modules["pymllm.mobile"] = pkg
    ffi = types.ModuleType("pymllm.mobile.ffi")
    ffi.MLLM_FIND_TORCH_AVAILABLE = ffi.MLLM_FIND_NUMPY_AVAILABLE = True
    ffi.Tensor, ffi.from_torch, ffi.from_numpy = FTensor, from_torch, from_numpy
    sys.modules["pymllm.mobile.ffi"] = ffi
    pkg.ffi = ffi
    ut = types.ModuleType("pymllm.mobile.utils")
    ut.__path__ = [str(REPO / "pymllm" / "mobile" / "utils")]
    sys.modules["pymllm.mobile.utils"] = ut


stub()
import pymllm.mobile.utils.mllm_convertor as MC
from pymllm.mobile.convertor.model_file_v2 import ModelFileV2
from pymllm.mobile.quantize.solver import QuantizeSolver
from pymllm.mobile.quantize.kai.w4a32 import W4A32KAIQuantizePass
from pymllm.mobile.quantize.cast2fp32_pass import Cast2Fp32QuantizePass

c = Check("P31", "random checkpoints (single and sharded safetensors, torch files; every element type the runtime knows, views, scalars, empty tensors, long and non-ASCII names) put through the real converter command, its quantisation "
          "pipelines and the streaming and static writers; each file parsed by an independent reader and loaded, mapped and read, by the real C++ runtime under ASan/UBSan; unfinished files and failing disks included; non-trivial = distinct (route, shape of the model)")
TY = {torch.float32: 0, torch.float16: 1, torch.int8: 16, torch.int16: 17, torch.int32: 18, torch.int64: 132, torch.uint8: 129, torch.uint16: 130, torch.bool: 129, torch.bfloat16: 128}
NP = {np.float32: 0, np.float16: 1, np.int8: 16, np.int16: 17, np.int32: 18, np.int64: 132, np.uint8: 129, np.bool_: 129}
MAN = []
TILES = ["qai8dxp1x8_qsi4c32p4x8_1x4x32", "qai8dxp1x8_qsi4c32p8x8_1x8x32", "qai8dxp4x8_qsi4c32p8x8_4x8x32"]


def raw(t):
    if isinstance(t, FTensor):
        return t.data
    if isinstance(t, np.ndarray):
        return np.ascontiguousarray(t).tobytes()
    t = t.detach().contiguous()
    return t.reshape(-1).view(torch.uint8).numpy().tobytes() if t.numel() else b""


def entry(t):
    if isinstance(t, FTensor):
        return t._d, list(t.shape), t.data
    if isinstance(t, np.ndarray):
        return NP[t.dtype.type], list(t.shape), raw(t)
    return TY[t.dtype], list(t.shape), raw(t)


def parse(b):
    """Independent reader of the published layout (version 2)."""
    assert len(b) >= 532, "shorter than its header"
    magic, ver, name, n, off = struct.unpack_from("<II512sIQ", b)
    assert (magic, ver) == (0x519A, 2), "no magic number"
    out, spans = {}, [(0, 532, "header"), (off, off + 352 * n, "descriptors")]
    ids = []
    for i in range(n):
        pid, ty, size, o, dims, *rest = struct.unpack_from("<IIQQQ16i256s", b, off + 352 * i)
        nm = rest[16].split(b"\0")[0].decode()
        assert nm not in out, f"{nm} is there twice"
        assert dims <= 16 and o + size <= len(b), f"{nm} lies outside the file"
        out[nm] = (ty, list(rest[:dims]), b[o:o + size])
        ids.append(pid)
        if size:
            spans.append((o, o + size, nm))
    assert ids == list(range(n)), "parameter ids"
    spans.sort()
    for a, x in zip(spans, spans[1:]):
        assert a[1] <= x[0], f"{a[2]} and {x[2]} overlap"
    return name.split(b"\0")[0].decode(errors="replace"), out


def judge(path, want, kind, info, model=None):
    try:
        name, got = parse(open(path, "rb").read())
    except AssertionError as e:
        c.violation("file:" + kind, f"{kind}: the written file is broken: {e} ({info})", info)
        return
    exp = {k: entry(v) for k, v in want.items()}
    for k in exp.keys() | got.keys():
        a, b = exp.get(k), got.get(k)
        if a is None or b is None:
            c.violation("params:" + kind, f"{kind}: parameter {k!r} is {'not in the file' if b is None else 'in the file but not in the model'} ({info})", info)
            return
        if a[1] == [] and b[1] in ([], [1]):
            a = b = (a[0], [], a[2]) if a[2] == b[2] and a[0] == b[0] else a
        if a != b:
            c.violation("content:" + kind, f"{kind}: {k!r} has type {b[0]}, shape {b[1]}, {len(b[2])} bytes in the file, expected type {a[0]}, shape {a[1]}, {len(a[2])} bytes{'' if a[2] == b[2] else '; the bytes differ'} ({info})", info)
            return
    if model is not None and name != model:
        c.violation("model-name", f"{kind}: converted as {model!r}, the file says {name!r}", info)
    c.observe("files")
    c.observe("files by " + kind)
    c.observe("parameters", len(exp))
    if not any(v[0] == 128 for v in exp.values()):      # the runtime has no bfloat16
        MAN.append(dict(path=path, kind=kind, params=[dict(name=k, dtype=v[0], shape=got[k][1], hex=v[2].hex()) for k, v in exp.items()]))


def tensor(r, g, types_=None):
    dt = r.choice(types_ or [torch.float32, torch.float32, torch.float16, torch.bfloat16, torch.int8, torch.int16, torch.int32, torch.int64, torch.uint8, torch.uint16, torch.bool])
    sh = [r.randint(1, 6) for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 4, 5]))]
    if r.random() < 0.04 and sh:
        sh[r.randrange(len(sh))] = 0
    x = torch.randint(0, 256, (int(np.prod(sh)) * 8,), generator=g, dtype=torch.int64)
    if dt in (torch.float32, torch.float16, torch.bfloat16):
        t = torch.randn(sh, generator=g).to(dt)
    elif dt == torch.bool:
        t = (x[:int(np.prod(sh))] & 1).to(torch.bool).reshape(sh)
    else:
        n = int(np.prod(sh)) * torch.empty(0, dtype=dt).element_size()
        t = x[:n].to(torch.uint8).view(dt).reshape(sh).clone() if n else torch.empty(sh, dtype=dt)
    if t.dim() >= 2 and r.random() < 0.3:
        t = t.transpose(0, 1)
    return t


def names(r, n):
    out = set()
    while len(out) < n:
        k = f"model.layers.{r.randrange(4)}." + r.choice(["self_attn.q_proj", "self_attn.k_proj", "mlp.up_proj", "mlp.down_proj", "input_layernorm", "écoder.块"]) + r.choice([".weight", ".weight", ".bias"])
        if r.random() < 0.15:
            k = r.choice(["lm_head.weight", "model.embed_tokens.weight", "model.norm.weight", "x" * r.choice([200, 254, 255]), "é" * r.choice([30, 120])])
        out.add(k)
    return sorted(out, key=lambda _: r.random())


def checkpoint(r, d, params):
    how = r.choice(["single", "sharded", "sharded", "pt", "pth", "bin"])
    if how in ("pt", "pth", "bin"):
        p = f"{d}/m.{how}"
        torch.save(params, p)
        return p, how, params
    st = {k: v.contiguous().clone() for k, v in params.items()}
    if how == "single":
        save_file(st, f"{d}/m.safetensors")
        return f"{d}/m.safetensors", how, st
    k = r.randint(1, 4)
    wm = {}
    for n in st:
        wm[n] = f"model-{r.randint(1, k):05d}-of-{k:05d}.safetensors"
    for s in set(wm.values()):
        extra = {"unlisted.weight": torch.ones(2)} if r.random() < 0.2 else {}
        save_file({**{n: st[n] for n in st if wm[n] == s}, **extra}, f"{d}/{s}")
    json.dump({"metadata": {}, "weight_map": wm}, open(f"{d}/model.safetensors.index.json", "w"))
    return f"{d}/model.safetensors.index.json", how, st


def kai(r, params):
    """A quantisation recipe in the shape of the published ones, and what it must give."""
    cfg, left, out = {}, dict(params), {}
    for proj in r.sample(["self_attn.q_proj", "self_attn.k_proj", "mlp.up_proj", "mlp.down_proj"], r.randint(1, 4)):
        mode = r.choice(["replace", "replace", "replace", "unmatched", "keep"])
        hit = [k for k in params if k.split(".", 3)[-1].rsplit(".", 1)[0] == proj and k.startswith("model.layers.")]
        layers = sorted({k.rsplit(".", 1)[0] for k in hit})
        rx = r"^model\.layers\.\d+\." + proj.replace(".", r"\.") + ".(bias|weight)"
        if mode == "keep":
            if not layers:
                continue
            layers = [r.choice(layers)]
            rx = "^" + layers[0].replace(".", r"\.") + ".(bias|weight)"
        layers = [l for l in layers if l + ".weight" in params]
        if any(k.rsplit(".", 1)[0] not in layers for k in hit if mode != "keep"):
            continue      # a bias without its weight cannot be packed
        if not layers:
            continue
        h = dict(quant_method="kai" if mode != "unmatched" else r.choice(["gguf", "cast_2_fp32"]), kai_matmul_triplet="f32_qai8dxp_qsi4c32p", kai_matmul_layout="mxk_nxk", kai_matmul_tile_cfg=r.choice(TILES), replace=mode != "keep")
        if mode == "unmatched" and r.random() < 0.5:
            h["quant_method"], h["kai_matmul_layout"] = "kai", "mxk_kxn"
        if mode == "keep":
            h["rename"] = "packed." + layers[0] + ".weight"
        cfg[rx] = dict(hints=h)
        if mode == "unmatched":
            c.observe("groups no pass takes")
            continue
        for l in layers:
            w = from_torch(params[l + ".weight"].float())
            b = from_torch(params[l + ".bias"].float()) if l + ".bias" in params else FTensor()
            p = pack(h["kai_matmul_tile_cfg"], w, b)
            c.observe("layers packed")
            if mode == "keep":
                out[h["rename"]] = p
            else:
                left.pop(l + ".weight")
                left.pop(l + ".bias", None)
                out[l + ".weight"] = p
    return cfg, {**{k: v.float() for k, v in left.items()}, **out}


def command(i, root):
    r = random.Random(seed() * 1000003 + i)
    g = torch.Generator().manual_seed(r.randrange(1 << 30))
    d = tempfile.mkdtemp(dir=root)
    route = r.choice(["raw", "raw pipeline", "cast pipeline", "kai"])
    ty = [torch.float32, torch.float16, torch.bfloat16] if route == "kai" else None
    params = {}
    for n in names(r, r.randint(1, 14)):
        params[n] = tensor(r, g, ty) if route != "kai" else torch.randn(*[r.randint(1, 9) for _ in range(2 if n.endswith("weight") else 1)], generator=g).to(r.choice(ty))
    if route != "raw" and route != "raw pipeline":
        for n in params:
            pass
    src, how, params = checkpoint(r, d, params)
    model = r.choice(["qwen3-0.6B", "m", "模型", "a b c"])
    out = f"{d}/out.mllm"
    argv = ["mllm-convertor", "--input_path", src, "--output_path", out, "--model_name", model]
    want = params
    if route == "raw pipeline":
        argv += ["--pipeline", "_raw"]
        want = {k: v.float() for k, v in params.items()}
    elif route == "cast pipeline":
        argv += ["--pipeline", "cast2fp32_pipeline"]
        want = {k: v.float() for k, v in params.items()}
    elif route == "kai":
        cfg, want = kai(r, params)
        json.dump(cfg, open(f"{d}/cfg.json", "w"))
        argv += ["--pipeline", "w4a32_kai_pipeline", "--cfg_path", f"{d}/cfg.json"]
    if r.random() < 0.2:
        argv.append("--verbose")
    info = dict(case=i, route=route, source=how, params={k: (str(v.dtype), list(v.shape)) for k, v in list(params.items())[:6]})
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            MC.main()
    except (Exception, SystemExit) as e:
        c.exception(e, "convert, " + route, replay=info)
        return
    finally:
        sys.argv = old
    c.case((route, how, len(params)), sample=info)
    judge(out, want, "command, " + route, info, model)


def writer(i, root):
    r = random.Random(seed() * 1000033 + i)
    g = torch.Generator().manual_seed(r.randrange(1 << 30))
    d = tempfile.mkdtemp(dir=root)
    out = f"{d}/w.mllm"
    kind = r.choice(["streaming", "streaming", "static", "one too many", "unwritten", "disk full", "long name", "passes", "numpy model"])
    params = {}
    for n in names(r, r.randint(1, 9)):
        x = r.random()
        if x < 0.3 or kind == "numpy model":
            t = tensor(r, g, [torch.float32, torch.float16, torch.int8, torch.int16, torch.int32, torch.int64, torch.uint8, torch.bool]).numpy()
        elif x < 0.45:
            n_ = r.randint(1, 40)
            t = FTensor(bytes(r.randrange(256) for _ in range(n_)), (n_,), 134, n)
        else:
            t = tensor(r, g)
        params[n] = t
    info = dict(case=i, kind=kind, params={k: (type(v).__module__, list(v.shape)) for k, v in list(params.items())[:6]})
    c.case((kind, len(params)), sample=info)
    try:
        if kind == "static":
            w = ModelFileV2(out, "m", "Static")
            w.static_write(params)
            w.finalize()
            judge(out, params, kind, info, "m")
        elif kind == "numpy model":
            w = ModelFileV2(out, "m", "Streaming", max_params_descriptor_buffer_num=len(params))
            cast = r.random() < 0.5
            QuantizeSolver().stream_quantize(None, dict(params), writer=w, cast_left_2_fp32=cast)
            judge(out, {k: v.astype(np.float32) if cast else v for k, v in params.items()}, kind, info, "m")
        elif kind == "passes":
            s = QuantizeSolver()
            for p in r.sample([W4A32KAIQuantizePass(), Cast2Fp32QuantizePass()], 2):
                s.register_pass(p)
            params = {n: torch.randn(*[r.randint(1, 6) for _ in range(r.choice([1, 2, 3]))], generator=g).to(r.choice([torch.float16, torch.bfloat16, torch.float32])) for n in params if n.endswith(".weight")}
            pick = [k for k in params if k.startswith("model.layers") and r.random() < 0.6]
            cfg = {"^" + k.replace(".", r"\.") + "$": dict(hints=dict(quant_method="cast_2_fp32", replace=True)) for k in pick}
            n = s.stream_quantize_params_size(cfg, dict(params))
            if n != len(params):
                c.violation("plan-count", f"{len(params)} parameters, {len(pick)} of them cast, are planned as {n}", info)
                return
            w = ModelFileV2(out, "m", "Streaming", max_params_descriptor_buffer_num=n)
            s.stream_quantize(cfg, dict(params), writer=w)
            judge(out, {k: v.float() if k in pick else v for k, v in params.items()}, kind, info, "m")
        else:
            extra = r.randint(0, 3)
            w = ModelFileV2(out, "m", "Streaming", max_params_descriptor_buffer_num=len(params) + extra if kind != "one too many" else len(params))
            done = {}
            for k, v in params.items():
                if kind == "disk full" and r.random() < 0.3:
                    break
                w.streaming_write(k, v)
                done[k] = v
                w.file_handler.flush()
                if struct.unpack_from("<I", open(out, "rb").read(4))[0] == 0x519A:
                    c.violation("early", f"an unfinished file ({len(done)} of {len(params)} parameters) already looks complete", info)
                    return
                c.observe("unfinished files")
            if kind == "one too many":
                try:
                    w.streaming_write("surplus.weight", torch.arange(64, dtype=torch.float32))
                    w.finalize()
                except Exception:
                    c.observe("surplus parameters refused")
                    w.finalize()
                    judge(out, params, kind, info, "m")
                    return
                judge(out, {**params, "surplus.weight": torch.arange(64, dtype=torch.float32)}, kind, info, "m")
                return
            if kind == "long name":
                n = r.choice([256, 257, 300])
                a, b = "n" * (n - 1) + "a", "n" * (n - 1) + "b"
                try:
                    w2 = ModelFileV2(out, "m", "Streaming", max_params_descriptor_buffer_num=2)
                    w2.streaming_write(a, torch.ones(3))
                    w2.streaming_write(b, torch.zeros(3))
                    w2.finalize()
                except Exception:
                    c.observe("names too long refused")
                    if n <= 256:
                        c.violation("long-name", f"a name of {n} bytes, which the format can hold, is refused", info)
                    return
                judge(out, {a: torch.ones(3), b: torch.zeros(3)}, kind, info, "m")
                return
            if kind == "unwritten":
                w.file_handler.close()
                c.observe("abandoned files")
                return
            w.finalize()
            judge(out, done, kind, info, "m")
    except Exception as e:
        c.exception(e, kind, replay=info)


def main():
    root = tempfile.mkdtemp(prefix="p31-")
    try:
        for i in range(scale(160, 2500)):
            command(i, root)
        for i in range(scale(160, 2500)):
            writer(i, root)
        json.dump(MAN, open(f"{root}/man.json", "w"))
        b = cpp.Build("P31", san="asan", opt="-O0")
        exe = b.build(cpp.runtime(), ["c06_params.cpp"], focus=r"/core/(ParameterFile|MappedFile|TensorStorage)")
        cpp.run(c, exe, args=[f"{root}/man.json"], timeout=scale(200, 2400), label="load")
    finally:
        shutil.rmtree(root)
    c.require("files", 150)
    c.require("converter_files", 80)
    c.require("layers packed", 20)
    c.require("groups no pass takes", 5)
    c.require("unfinished files", 100)
    c.require("surplus parameters refused", 5)
    c.finish()


run_main(c, main)

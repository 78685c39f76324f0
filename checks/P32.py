"""P32: a quantised checkpoint is served with the numbers it stores."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import random
import shutil
import tempfile
import warnings
warnings.filterwarnings("ignore")
import tritonsan
import fakequant as Q
import realmodel as rm
from vlib import Check, parallel, run_main, scale, seed
import fakegpu
import numpy as np
import torch
import transformers
from transformers import Qwen3Config, Qwen3ForCausalLM
transformers.utils.logging.set_verbosity_error()
Q.install()
from pymllm.layers.linear import Linear, MergedLinear
from pymllm.quantization import get_quantization_config

c = Check("P32", "random quantised layers and whole Qwen3 checkpoints (AWQ 4 and 8 bit with zero points, compressed-tensors 4-bit groups and channels, 8-bit weights and activations; fused or single, shards in any order, layers kept "
          "in full precision by name, by pattern or by list) loaded by the real configuration probe, loader and repacking and run over stand-ins of the kernels that read the kernels' layouts, the Triton kernel itself in its interpreter; "
          "every output against the numbers the checkpoint's format defines; non-trivial = distinct (format, options, schedule)")


def awq_order(bits):
    return [0, 2, 4, 6, 1, 3, 5, 7] if bits == 4 else [0, 2, 1, 3]


def awq_pack(q, bits):
    o = awq_order(bits)
    return Q.pack(q.reshape(q.shape[0], -1, len(o))[..., o].reshape(q.shape), bits)


class Fmt:
    """One quantisation format with its options: makes random stored weights and says what they mean."""

    def __init__(self, r, sizes):
        self.r, self.rng = r, np.random.default_rng(r.randrange(1 << 30))
        self.kind = r.choice(["awq", "w4", "w8"])
        self.bits = 8 if self.kind == "w8" or (self.kind == "awq" and r.random() < 0.25) else 4
        self.group = r.choice([32, 64, 128, -1]) if self.kind != "w8" else None
        self.actorder = r.choice([None, None, "static"]) if self.kind == "w4" else None

    def config(self, skip=()):
        r = self.r
        if self.kind == "awq":
            d = {"quant_method": r.choice(["awq", "awq", "awq_marlin"]), "group_size": self.group, "zero_point": True, "version": "gemm"}
            d[r.choice(["bits", "bits", "w_bit"])] = self.bits
            if skip or r.random() < 0.5:
                d["modules_to_not_convert"] = list(skip) or r.choice([None, []])
            return d
        if self.kind == "w4":
            w = {"num_bits": 4, "type": "int", "symmetric": True, "group_size": self.group, "strategy": "channel" if self.group == -1 else "group", "dynamic": False, "actorder": self.actorder, "observer": "minmax"}
            if self.group == -1 and r.random() < 0.5:
                w["group_size"] = None
            a = None
        else:
            w = {"num_bits": 8, "type": "int", "symmetric": True, "group_size": None, "strategy": "channel", "dynamic": False, "actorder": None, "observer": "minmax"}
            a = {"num_bits": 8, "type": "int", "symmetric": True, "group_size": None, "strategy": "token", "dynamic": True, "actorder": None}
        return {"quant_method": "compressed-tensors", "format": "pack-quantized" if self.kind == "w4" else "int-quantized", "ignore": list(skip),
                "config_groups": {"group_0": {"targets": ["Linear"], "weights": w, "input_activations": a, "output_activations": None}}}

    def shard(self, n, k, dtype):
        """(stored tensors, the [n, k] weight they stand for)"""
        g = k if self.group in (-1, None) else self.group
        rng, scale_ = self.rng, 1.2 / np.sqrt(k)
        if self.kind == "awq":
            top = 1 << self.bits
            q, z = rng.integers(0, top, (k, n)), rng.integers(0, top, (k // g, n))
            s = torch.tensor(rng.uniform(0.2, 1, (k // g, n)) * scale_ / top * 2).to(dtype)
            w = (q - np.repeat(z, g, 0)) * np.repeat(s.double().numpy(), g, 0)
            return {"qweight": awq_pack(q, self.bits), "qzeros": awq_pack(z, self.bits), "scales": s}, torch.tensor(w.T)
        if self.kind == "w4":
            q = rng.integers(-8, 8, (n, k))
            s = torch.tensor(rng.uniform(0.2, 1, (n, k // g)) * scale_ / 5).to(dtype)
            return {"weight_packed": Q.pack(q + 8, 4), "weight_scale": s, "weight_shape": torch.tensor([n, k])}, torch.tensor(q * np.repeat(s.double().numpy(), g, 1))
        q = rng.integers(-128, 128, (n, k))
        s = torch.tensor(rng.uniform(0.2, 1, (n, 1)) * scale_ / 75).to(self.r.choice([torch.float32, dtype]))
        return {"weight": torch.tensor(q, dtype=torch.int8), "weight_scale": s}, torch.tensor(q * s.double().numpy())


def act8(x):
    """What an activation becomes: whole steps of a 127th of the row's largest value."""
    s = (x.float().abs().amax(-1, keepdim=True).clamp(min=1e-10) / 127).double()
    return torch.round(x.double() / s) * s, s


def layer_case(i):
    r = random.Random(seed() * 77003 + i)
    f = Fmt(r, None)
    dtype = r.choice([torch.float16, torch.bfloat16, torch.float32])
    k = 128 * r.choice([1, 2, 3, 5])
    if r.random() < 0.6:
        kind, parts = "qkv", [64 * r.choice([1, 2, 4])] + [32 * r.choice([1, 2])] * 2
    else:
        kind, parts = "plain", [64 * r.choice([1, 2, 3])]
    if r.random() < 0.4:
        kind, parts = "gate_up", [64 * r.choice([1, 2, 3])] * 2
    if sum(parts) % 64:
        parts[0] += 64 - sum(parts) % 64
    bias = r.random() < 0.4
    info = dict(case=i, format=f.kind, bits=f.bits, group=f.group, dtype=str(dtype), k=k, parts=parts, bias=bias)
    old = torch.get_default_dtype()
    try:
        cls = get_quantization_config({"awq": "awq_marlin"}.get(f.kind, "compressed-tensors"))
        qm = cls.from_config(f.config()).get_quant_method(layer=None, prefix="layers.0.self_attn.x_proj")
        torch.set_default_dtype(dtype)
        layer = Linear(k, parts[0], bias=bias, quant_method=qm) if kind == "plain" else MergedLinear(k, parts, bias=bias, quant_method=qm)
        torch.set_default_dtype(old)
        jobs, ws = [], []
        for j, n in enumerate(parts):
            t, w = f.shard(n, k, dtype)
            ws.append(w)
            jobs += [(name, v, ("q", "k", "v")[j] if kind == "qkv" else j) for name, v in t.items()]
        W = torch.cat(ws)
        r.shuffle(jobs)
        for name, v, sid in jobs:
            p = getattr(layer, name)
            p.weight_loader(p, v) if kind == "plain" else p.weight_loader(p, v, sid)
        b = None
        if bias:
            b = torch.randn(sum(parts)).to(dtype)
            layer.bias.data.copy_(b)
        layer.quant_method.process_weights_after_loading(layer)
        for _ in range(3):
            shape = r.choice([(1, k), (7, k), (2, 3, k), (k,), (33, k)]) if f.kind != "w8" else r.choice([(1, k), (7, k), (2, 3, k), (33, k)])
            x = torch.randn(shape) * r.choice([0.1, 1, 8])
            if r.random() < 0.2:
                x[..., r.randrange(k)] *= 50
            if r.random() < 0.1 and len(shape) > 1:
                x[0] = 0
            x = x.to(dtype)
            if r.random() < 0.3 and len(shape) > 1:     # a view with a stride of its own
                x = torch.cat([x, x], -1)[..., :k] if f.kind == "w8" or len(shape) == 2 else x
            got = layer(x)
            if f.kind == "w8":
                xa, s = act8(x)
                y = (x.double() / s).abs()
                tie = ((y - y.floor() - 0.5).abs() < 1e-3).double()     # rounded either way
                slack = (tie @ W.abs().T) * s
            else:
                xa, slack = x.double(), 0
            want = xa @ W.T
            parts_ = want.abs()
            if b is not None:
                want = want + b.double()
                parts_ = parts_ + b.double().abs()
            eps = {torch.float16: 2e-3, torch.bfloat16: 1.6e-2, torch.float32: 1e-4}[dtype]
            room = eps * (parts_ + want.abs() + (xa.abs() @ W.abs().T) * 0.02 + 1e-3) + slack
            c.observe("layer outputs", got.numel())
            c.observe(f"layers of {f.kind}", 1)
            if tuple(got.shape) != tuple(want.shape) or got.dtype != dtype:
                c.violation(f"layer-shape-{f.kind}", f"output {tuple(got.shape)} {got.dtype}, {tuple(want.shape)} {dtype} expected: {info}", info)
                return
            e = (got.double() - want).abs()
            if not bool((e <= room).all()):
                at = int((e - room).flatten().argmax())
                c.violation(f"layer-{f.kind}", f"output {at} is {got.flatten()[at].item():.6g}, its definition gives {want.flatten()[at].item():.6g} ({int((e > room).sum())} of {e.numel()} outputs wrong): {info}", info)
                return
        c.seen("layer kinds", (f.kind, f.bits, f.group, str(dtype), kind, bias))
        c.case(("layer", i), sample=info if i < 40 else None)
    except Exception as e:
        c.exception(e, f"layer-{f.kind}", replay=info)
    finally:
        torch.set_default_dtype(old)


LEAVES = ["self_attn.q_proj", "self_attn.k_proj", "self_attn.v_proj", "self_attn.o_proj", "mlp.gate_proj", "mlp.up_proj", "mlp.down_proj"]
FUSED = [LEAVES[:3], LEAVES[3:4], LEAVES[4:6], LEAVES[6:]]


def skipping(r, layers, awq):
    """(entries of the configuration, set of (layer, leaf) they keep in full precision, style)"""
    every = [(l, m) for l in range(layers) for m in LEAVES]
    style = r.choice(["none", "none", "list", "list", "layer", "module", "split"] + ([] if awq else ["re-layer", "re-module", "re-full", "re-leaf"]))
    l = r.randrange(layers)
    tail = [] if awq else ["lm_head"]
    pre = r.choice(["model.", "model."] + ([] if awq else ["model.language_model."]))
    if style == "none":
        return tail, set(), style
    if style == "list":           # what quantisers write: each kept module by its full name
        keep = set()
        for l in range(layers):
            for grp in FUSED:
                if r.random() < 0.3:
                    keep |= {(l, m) for m in grp}
        return tail + [f"{pre}layers.{l}.{m}" for l, m in sorted(keep, key=lambda _: r.random())], keep, style
    if style == "layer":
        return tail + [f"{pre}layers.{l}." if awq else f"{pre}layers.{l}"], {x for x in every if x[0] == l}, style
    if style == "module":
        m = r.choice(["self_attn", "mlp", "o_proj", "down_proj"])
        return tail + [m], {x for x in every if m in x[1].split(".")}, style
    if style == "split":          # one part of what is computed as one product: cannot be served, or must be served right
        grp = r.choice([FUSED[0], FUSED[2]])
        keep = {(l, m) for m in r.sample(grp, r.randint(1, len(grp) - 1))}
        return tail + [f"model.layers.{l}.{m}" for l, m in keep], keep, style
    if style == "re-layer":
        return tail + [rf"re:.*layers\.{l}\..*"], {x for x in every if x[0] == l}, style
    if style == "re-module":
        m = r.choice(["self_attn", "mlp"])
        return tail + [f"re:.*{m}.*"], {x for x in every if m in x[1]}, style
    if style == "re-full":
        m = r.choice(["self_attn", "mlp"])
        return tail + [rf"re:^model\.layers\.{l}\.{m}\..*"], {x for x in every if x[0] == l and x[1].startswith(m)}, style
    m = r.choice(["o_proj", "down_proj", "[qkv]_proj", "(gate|up)_proj"])
    return tail + [f"re:.*{m}$"], {x for x in every if __import__("re").search(m + "$", x[1])}, style


class W8(torch.nn.Module):
    def __init__(self, w, b):
        super().__init__()
        self.w, self.b = w, b

    def forward(self, x):
        y = (act8(x)[0] @ self.w.T.double()).float()
        return y if self.b is None else y + self.b


def model_case(i):
    r = random.Random(seed() * 55001 + i)
    f = Fmt(r, None)
    if f.group == -1 and r.random() < 0.5:
        f.group = 64
    hk = r.choice([1, 2])
    hq, hd = hk * r.choice([1, 2]), 64
    if hq * hd % 128:
        hq, hk = 2, r.choice([1, 2])
    if (hq + 2 * hk) * hd % 64:
        hk = hq
    layers = r.choice([1, 2, 2, 3]) if r.random() < 0.9 else 11
    hid, inter = r.choice([128, 256]), r.choice([128, 256])
    if r.random() < 0.2:
        inter = 384
    cfg = Qwen3Config(vocab_size=67, hidden_size=hid, intermediate_size=inter, num_hidden_layers=layers, num_attention_heads=hq, num_key_value_heads=hk, head_dim=hd,
                      max_position_embeddings=64, attention_bias=r.random() < 0.3, tie_word_embeddings=r.random() < 0.4, rope_theta=1e4, architectures=["Qwen3ForCausalLM"])
    cfg._attn_implementation = "eager"
    hf = rm.tiny_init(Qwen3ForCausalLM(cfg).eval(), r)
    entries, keep, style = skipping(r, layers, f.kind == "awq")
    sd = dict(hf.state_dict())
    if cfg.tie_word_embeddings:
        sd.pop("lm_head.weight", None)
    for l in range(layers):
        for m in LEAVES:
            mod = hf.model.layers[l].get_submodule(m)
            if (l, m) in keep:
                continue
            n, k = mod.weight.shape
            t, w = f.shard(n, k, torch.float32)
            name = f"model.layers.{l}.{m}"
            del sd[name + ".weight"]
            sd.update({f"{name}.{a}": v for a, v in t.items()})
            mod.weight.data.copy_(w)
            if f.kind == "w8":
                parent, leaf = m.split(".")
                setattr(getattr(hf.model.layers[l], parent), leaf, W8(mod.weight.data, mod.bias.data if mod.bias is not None else None))
    if style == "layer" and layers > 10 and f.kind != "awq":
        pass
    qc = f.config(entries)
    bad = None
    if style != "split" and r.random() < 0.22:
        bad = spoil(r, f, qc)
    info = dict(case=i, format=f.kind, bits=f.bits, group=f.group, kept=style, entries=entries[:6], layers=layers, hidden=hid, inter=inter, heads=(hq, hk), spoiled=bad)
    d = tempfile.mkdtemp(prefix="p32-")
    try:
        sep = f.kind == "awq" and r.random() < 0.3
        rm.write_checkpoint(d, sd, r, config={"architectures": ["Qwen3ForCausalLM"]} if sep else {"architectures": ["Qwen3ForCausalLM"], "quantization_config": qc})
        if sep:
            import json
            with open(d + "/quantize_config.json", "w") as fh:
                json.dump(qc, fh)
        try:
            run = rm.runner(cfg, d)
        except Exception as e:
            if bad or style == "split":
                c.observe("refused", 1)
                c.seen("refusals", (f.kind, bad or style))
                c.case(("refused", i))
                return
            c.exception(e, f"load-{f.kind}-{style}", replay=info)
            return
    finally:
        shutil.rmtree(d)
    if bad:
        c.violation(f"not-refused-{bad}", f"a checkpoint the server cannot compute ({bad}) was loaded: {info}", info)
        return
    c.observe("models", 1)
    c.seen("kept", (f.kind, style))
    seqs = [rm.Seq([r.randrange(67) for _ in range(r.randint(2, 12))], q) for q in r.sample(range(8), r.randint(1, 3))]
    with torch.no_grad():
        for s in seqs:
            s.ref = hf(torch.tensor([s.toks])).logits[0]
    wrong = []
    tol = 3e-2 if f.kind == "w8" else 6e-4

    def row(s, m, got, mode, pre=0, bs=1):
        if got is None:
            wrong.append(("shape", "no row"))
            return
        c.observe("rows", 1)
        want = s.ref[m - 1]
        e = (got.float() - want).abs().max().item()
        if not e <= tol * (1 + want.abs().max().item()):
            wrong.append((mode, f"logits of token {m - 1} differ by {e:.3g} (largest {want.abs().max():.3g})"))
    try:
        with torch.no_grad():
            rm.play(run, seqs, r, row)
    except Exception as e:
        c.exception(e, f"forward-{f.kind}", replay=info)
        return
    c.case(("model", i), sample=info if i < 30 else None)
    if wrong:
        c.violation(f"model-{f.kind}-{style}", f"{wrong[0][1]} ({len(wrong)} rows wrong): {info}", info)


def spoil(r, f, qc):
    """Turn the configuration into one the server does not support."""
    if f.kind == "awq":
        what = r.choice(["bits", "group", "gemv"])
        if what == "bits":
            qc.pop("w_bit", None)
            qc["bits"] = r.choice([2, 3, 5])
        elif what == "group":
            qc["group_size"] = r.choice([16, 48, 256])
        else:
            qc["version"] = "gemv"
        return what
    g = qc["config_groups"]["group_0"]
    w = g["weights"]
    opts = ["asymmetric", "bits", "format"]
    if f.kind == "w4":
        opts += ["group", "actorder"]
    else:
        opts += ["static-input", "tensor-weights", "asymmetric-input", "no-input", "dynamic-weights"]
    what = r.choice(opts)
    if what == "asymmetric":
        w["symmetric"] = False
    elif what == "bits":
        w["num_bits"] = 3 if f.kind == "w4" else 6
    elif what == "format":
        qc["format"] = r.choice(["float-quantized", "marlin-24", "dense", "naive-quantized"])
    elif what == "group":
        w["group_size"], w["strategy"] = r.choice([16, 48, 256]), "group"
    elif what == "actorder":
        w["actorder"] = r.choice(["group", "weight", "dynamic"])
        if w["actorder"] == "weight":
            w["actorder"] = "group"
    elif what == "static-input":
        g["input_activations"]["dynamic"] = False
    elif what == "tensor-weights":
        w["strategy"] = "tensor"
    elif what == "asymmetric-input":
        g["input_activations"]["symmetric"] = False
    elif what == "no-input":
        g["input_activations"] = None
    else:
        w["dynamic"] = True
    return what


def quant_case(i):
    """The activation kernel itself."""
    from pymllm.quantization.kernels.int8_activation_triton import per_token_quant_int8
    r = random.Random(seed() * 991 + i)
    n = r.choice([1, 5, 16, 64, 100, 128, 257, 700])
    lead = r.choice([(1,), (3,), (9,), (2, 4)])
    g = torch.Generator().manual_seed(i + seed())
    x = torch.randn(lead + (n,), generator=g) * 10 ** r.uniform(-6, 4)
    if r.random() < 0.2:
        x[0] = 0
    if r.random() < 0.3:
        x[..., -1] = -x.abs().max() * 3
    x = x.to(r.choice([torch.float32, torch.float16, torch.bfloat16]))
    if not torch.isfinite(x).all():
        x = x.clamp(-60000, 60000)
    info = dict(case=i, shape=list(x.shape), dtype=str(x.dtype))
    with tritonsan.Launch(protect=[x]) as san:
        q, s = per_token_quant_int8(x)
    for kind, text in san.bad[:1]:
        c.violation("activation-memory:" + kind, f"{text}: {info}", info)
    c.observe("addresses checked", san.lanes)
    c.observe("activations quantised", x.numel())
    if q.dtype != torch.int8 or q.shape != x.shape or tuple(s.shape) != lead + (1,):
        c.violation("activation-shape", f"{q.dtype} {tuple(q.shape)}, scales {tuple(s.shape)}: {info}", info)
        return
    top = x.float().abs().amax(-1, keepdim=True)
    step = top.clamp(min=1e-10).double() / 127
    e = (q.double() * s.double() - x.double()).abs()
    if not bool((e <= step * 0.5001 + 1e-12).all()):
        c.violation("activation-step", f"a value moved by {float((e / step).max()):.3g} steps of its row: {info}", info)
    elif not bool(torch.allclose(s.double(), step, rtol=1e-5, atol=0)):
        c.violation("activation-scale", f"scales {s.flatten()[:3].tolist()}, {step.flatten()[:3].tolist()} expected: {info}", info)
    c.case(("act", i))


def one(i):
    fakegpu_before = None
    if i % 8 == 7:
        quant_case(i)
    elif i % 2:
        layer_case(i)
    else:
        model_case(i)


def main():
    parallel(c, one, scale(640, 9000), workers=8)
    c.require("layer outputs", 20000)
    c.require("rows", 900)
    c.require("models", 120)
    c.require("refused", 15)
    c.require("kept", 12)
    c.require("layer kinds", 40)
    c.require("activations quantised", 4000)
    c.finish()


if __name__ == "__main__":
    run_main(c, main)

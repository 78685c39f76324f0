"""P25: a served Qwen3.5 hybrid model computes the function its checkpoint defines, text and images."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import random
import shutil
import tempfile
import types
import warnings
warnings.filterwarnings("ignore")
import tritonsan
import realmodel as rm
from vlib import Check, parallel, run_main, scale, seed
import torch
import transformers
from transformers import Qwen3NextConfig, Qwen3NextForCausalLM, Qwen3VLConfig
from transformers.models.qwen3_next import modeling_qwen3_next as QN
from transformers.models.qwen3_vl.modeling_qwen3_vl import Qwen3VLModel, Qwen3VLVisionModel
import pymllm.layers.attention.gdn_backend as GB
transformers.utils.logging.set_verbosity_error()
for f in ("_get_mllm_gdn_extend_chunkwise", "_get_mllm_gdn_decode", "_get_mllm_gdn_extend"):
    setattr(GB, f, lambda: None)
GB._get_flashinfer_gdn = lambda: (False, None, None)
QN.l2norm = lambda x, dim=-1, eps=1e-6: x / (x.norm(dim=dim, keepdim=True) + 1e-6)     # the two published forms differ for vanishing vectors only

c = Check("P25", "random tiny Qwen3.5 checkpoints (hybrid gated-delta and gated full attention, partial rotary, interleaved M-RoPE, tied or not, text-only or with the vision encoder) loaded by the real ModelRunner; sequences with zero to two images "
          "prefilled, extended and decoded in mixed batches over the hybrid back end and its state pool; every row of logits against the same checkpoint in the transformers Qwen3-Next layers and Qwen3-VL encoder; non-trivial = distinct (configuration, schedule)")
TOL = 1e-3
VOC, IMG, VID, VS, VE = 60, 50, 51, 52, 53


class MRope(torch.nn.Module):
    """Interleaved three-axis rotary embedding on the rotated part of a head."""

    def __init__(self, dim, theta, section):
        super().__init__()
        self.inv = theta ** (-torch.arange(0, dim, 2, dtype=torch.float64) / dim)
        self.axis = [0] * (dim // 2)
        for ax in (1, 2):
            for j in range(ax, min(3 * section[ax], dim // 2), 3):
                self.axis[j] = ax
        self.pos = None

    def forward(self, x, position_ids):
        p = self.pos if self.pos is not None else position_ids[0][None].expand(3, -1)
        f = p.double()[self.axis].t() * self.inv
        e = torch.cat((f, f), -1)[None]
        return e.cos().to(x.dtype), e.sin().to(x.dtype)


def config(r):
    hk = r.choice([1, 2])
    hid = r.choice([16, 24])
    n = r.choice([2, 3, 4])
    inter = r.choice([2, 2, 3, 4])
    lt = ["full_attention" if (i + 1) % inter == 0 else "linear_attention" for i in range(n)]
    irregular = r.random() < 0.25
    if irregular:
        lt = [r.choice(["full_attention", "linear_attention"]) for _ in range(n)]
    gk = r.choice([1, 2])
    hd = r.choice([16, 32, 24, 40])
    prf = r.choice([0.25, 0.5, 1.0, 0.75])
    rd = int(hd * prf)
    h = rd // 2
    sh = r.randint(0, max(0, (h + 1) // 3))
    sw = min(sh, h // 3)
    t = dict(vocab_size=VOC, hidden_size=hid, intermediate_size=r.choice([12, 32]), num_hidden_layers=n, num_attention_heads=hk * r.choice([1, 2]), num_key_value_heads=hk, head_dim=hd, hidden_act="silu",
             max_position_embeddings=256, rms_norm_eps=r.choice([1e-6, 1e-6, 1e-3]), linear_conv_kernel_dim=r.choice([2, 4, 4]), linear_key_head_dim=r.choice([4, 8]), linear_value_head_dim=r.choice([4, 8, 16]),
             linear_num_key_heads=gk, linear_num_value_heads=gk * r.choice([1, 2]), attention_bias=False)
    theta = r.choice([100.0, 10000.0, 1e7])
    tied = r.random() < 0.4
    rope = dict(rope_type="default", rope_theta=theta, mrope_section=[h - sh - sw, sh, sw], mrope_interleaved=True)
    tc = dict(t, tie_word_embeddings=tied, attn_output_gate=True, rope_parameters=rope)
    if r.random() < 0.5:
        rope["partial_rotary_factor"] = prf           # where current releases put it
    else:
        tc["partial_rotary_factor"] = prf
    if irregular or r.random() < 0.5:
        tc["layer_types"] = lt
    if not irregular:
        tc["full_attention_interval"] = inter
    ref = Qwen3NextConfig(**t, rope_theta=theta, partial_rotary_factor=prf, tie_word_embeddings=tied, layer_types=lt, num_experts=0, mlp_only_layers=list(range(n)))
    ref._attn_implementation = "eager"
    vl = r.random() < 0.6
    ve = r.choice([8, 16, 24])
    vc = dict(depth=r.randint(1, 2), hidden_size=ve, hidden_act=r.choice(["gelu_pytorch_tanh", "gelu"]), intermediate_size=r.choice([12, 20]), num_heads=2, in_channels=3, patch_size=r.choice([2, 4]),
              spatial_merge_size=r.choice([2, 2, 1]), temporal_patch_size=2, out_hidden_size=hid, num_position_embeddings=r.choice([4, 16, 25]))
    return tc, ref, rope, rd, theta, vc if vl else None, lt


def build(r, tc, ref, rd, theta, rope, vc):
    hf = rm.tiny_init(Qwen3NextForCausalLM(ref).eval(), r)
    g = torch.Generator().manual_seed(r.randrange(1 << 30))
    sd = {}
    with torch.no_grad():
        for n, p in hf.named_parameters():
            if n.endswith("A_log"):
                p.copy_(torch.log(torch.rand(p.shape, generator=g) * r.choice([0.5, 16]) + 1e-3))
            elif "norm" in n and "linear_attn" not in n:
                p.copy_(torch.randn(p.shape, generator=g) * 0.3)       # 1 + w
    hf.model.rotary_emb = MRope(rd, theta, rope["mrope_section"])
    H, HV, K, V = (tc[x] for x in ("linear_num_key_heads", "linear_num_value_heads", "linear_key_head_dim", "linear_value_head_dim"))
    for n, v in hf.state_dict().items():
        if n.endswith("in_proj_qkvz.weight"):
            w = v.view(H, 2 * K + 2 * V * HV // H, -1)
            q, k, vv, z = w.split([K, K, V * HV // H, V * HV // H], 1)
            f = lambda x: x.reshape(-1, x.shape[-1])
            sd[n.replace("qkvz", "qkv")] = torch.cat([f(q), f(k), f(vv)])
            sd[n.replace("qkvz", "z")] = f(z)
        elif n.endswith("in_proj_ba.weight"):
            w = v.view(H, 2 * HV // H, -1)
            b, a = w.split([HV // H, HV // H], 1)
            sd[n.replace("_ba.", "_b.")] = b.reshape(HV, -1)
            sd[n.replace("_ba.", "_a.")] = a.reshape(HV, -1)
        else:
            sd[n] = v
    if tc["tie_word_embeddings"]:
        sd.pop("lm_head.weight")
    vis = vlm = None
    if vc:
        cfg = Qwen3VLConfig(vision_config=dict(vc, deepstack_visual_indexes=[]), image_token_id=IMG, video_token_id=VID, vision_start_token_id=VS)
        cfg.vision_config._attn_implementation = "eager"
        vis = rm.tiny_init(Qwen3VLVisionModel._from_config(cfg.vision_config).eval(), r)
        vlm = types.SimpleNamespace(config=cfg)
        sd = {("model.language_model." + k[6:] if k.startswith("model.") else k): v for k, v in sd.items()}
        sd.update({"model.visual." + k: v for k, v in vis.state_dict().items()})
    if r.random() < 0.4:      # the multi-token-prediction head is not used for serving
        sd["mtp.fc.weight"] = torch.full((4, 4), 9.0)
        sd["mtp.layers.0.mlp.gate_proj.weight"] = torch.full((tc["intermediate_size"], tc["hidden_size"]), 9.0)
        sd["mtp.norm.weight"] = torch.full((tc["hidden_size"],), 9.0)
    return hf, vis, vlm, sd


def sequence(r, vc, q):
    toks, grids = [], []
    stray = False
    m = vc["spatial_merge_size"] if vc else 1

    def text(k):
        nonlocal stray
        for _ in range(k):
            if vc and r.random() < 0.04:
                stray = True
                toks.append(r.choice([VS, VE] if not toks or toks[-1] == VS else [VE, VS]))
            else:
                toks.append(r.randrange(50))
    text(r.randint(1, 5))
    if toks[-1] == VS:
        toks.append(3)
    for _ in range(r.choice([0, 0, 1, 1, 2, 4]) if vc else 0):
        g = (1, m * r.randint(1, 4), m * r.randint(1, 4))
        grids.append(g)
        toks.append(VS)
        toks += [IMG] * (g[0] * g[1] * g[2] // m // m)
        toks.append(VE)
        toks.append(r.randrange(50))
        text(r.randint(0, 3))
        toks.append(r.randrange(50))
    text(r.randint(1, 12))
    toks.append(r.randrange(50))
    s = rm.Seq(toks, q)
    s.prompt = len(toks)
    s.grids, s.stray = grids, stray
    s.pix = torch.randn(sum(g[0] * g[1] * g[2] for g in grids), 3 * 2 * (vc["patch_size"] ** 2 if vc else 1), generator=torch.Generator().manual_seed(r.randrange(1 << 30)))
    s.toks += [r.randrange(50) for _ in range(r.randint(0, 6))]
    if grids:
        a = toks.index(IMG) - 1 if VS == toks[toks.index(IMG) - 1] else toks.index(IMG)
        a = r.randint(1, a) if a > 0 and r.random() < 0.4 else 0     # text in front of the images may be cached already
        s.extra["cuts"] = {0: a, a: s.prompt - a} if a else {0: s.prompt}
        s.first = a
        s.extra["whole"] = True
    return s


def reference(hf, vis, vlm, s):
    ids = torch.tensor([s.toks])
    e = hf.model.embed_tokens(ids)
    s.delta = 0
    hf.model.rotary_emb.pos = None
    if s.grids:
        g = torch.tensor(s.grids)
        e = e.masked_scatter((ids == IMG)[..., None].expand_as(e), vis(s.pix, g)[0])
        pos, d = Qwen3VLModel.get_rope_index(vlm, ids, g, attention_mask=torch.ones_like(ids))
        hf.model.rotary_emb.pos = pos[:, 0]
        s.delta = int(d.reshape(-1)[0])
    return hf.lm_head(hf.model(inputs_embeds=e, use_cache=False).last_hidden_state)[0]


FUSED = tritonsan.fused_rope()


def one(i):
    FUSED.on = i % 6 == 0    # the fused rotary kernel instead of its PyTorch form
    with tritonsan.Launch() as san:
        case(i)
    for kind, text in san.bad[:1]:
        c.violation("memory:" + kind, f"case {i}: {text}", {"case": i})
    c.observe("fused rotary programs", len(san.programs))
    c.observe("fused rotary launches", san.launches)


def case(i):
    r = random.Random(seed() * 1000003 + i)
    tc, ref, rope, rd, theta, vc, lt = config(r)
    hf, vis, vlm, sd = build(r, tc, ref, rd, theta, rope, vc)
    d = tempfile.mkdtemp(prefix="p25-")
    ns = types.SimpleNamespace(**tc)
    cfg = types.SimpleNamespace(architectures=["Qwen3_5ForConditionalGeneration"], text_config=ns, vision_config=types.SimpleNamespace(**vc), image_token_id=IMG, video_token_id=VID, vision_start_token_id=VS, vision_end_token_id=VE,
                                tie_word_embeddings=tc["tie_word_embeddings"]) if vc else types.SimpleNamespace(architectures=["Qwen3_5ForCausalLM"], **tc)
    info = dict(case=i, text={k: v for k, v in tc.items() if k not in ("vocab_size", "hidden_act", "max_position_embeddings", "attention_bias")}, layers=lt, vision=vc)
    try:
        rm.write_checkpoint(d, sd, r)
        try:
            run = rm.runner(cfg, d, max_total_tokens=1024)
        except Exception as e:
            c.exception(e, "load", replay=info)
            return
    finally:
        shutil.rmtree(d)
    seqs = [sequence(r, vc, q) for q in r.sample(range(1, 8), r.randint(2, 5))]
    with torch.no_grad():
        for s in seqs:
            s.ref = reference(hf, vis, vlm, s)
    bad, deltas = [], {}

    def before(fb, pick, ext, el, pl):
        if ext:
            new = [s.req for s, p in zip(pick, pl) if p == 0]
            if new and run.gdn_pool is not None:
                run.gdn_pool.reset_states(torch.tensor(new))
            im = [s for s, p in zip(pick, pl) if s.grids and p == s.first]
            if im:
                fb.pixel_values = torch.cat([s.pix for s in im])
                fb.image_grid_thw = torch.tensor([g for s in im for g in s.grids])
                if any(s.first for s in im):
                    c.observe("images after a cached prefix")
                c.observe("images in mixed batches" if len(pick) > 1 else "image batches")
        else:
            dl = [deltas.get(s.req, 0) for s in pick]
            if any(dl) or r.random() < 0.5:       # a batch without offsets need not carry any
                fb.mrope_position_deltas = torch.tensor(dl, dtype=torch.int64)

    def row(s, m, got, mode, pre=0, bs=1):
        if got is None:
            bad.append(("shape", mode))
            return
        c.observe("rows")
        c.observe(("image " if s.grids else "text ") + mode + " rows")
        want = s.ref[m - 1]
        e = (got.float() - want).abs().max().item()
        if not e <= TOL * (1 + want.abs().max().item()):
            what = "stray-marker" if any(x.stray for x in seqs) else "image" if s.grids else "text"
            bad.append((what + "-" + mode, f"token {m - 1} of {s.toks} with images {s.grids} ({mode}, {pre} cached, batch of {bs}): logits differ by {e:.3g} from the reference (largest {want.abs().max():.3g})"))
    real = run.forward

    def fwd(fb):
        out = real(fb)
        if fb.forward_mode.is_extend():
            dl = getattr(fb, "mrope_position_deltas", None)
            for q, x in zip(fb.req_pool_indices.tolist(), dl.tolist() if dl is not None else []):
                deltas[q] = x
        return out
    run.forward = fwd
    try:
        with torch.no_grad():
            if run.gdn_pool is not None:
                run.gdn_pool.recurrent_state.fill_(float("nan"))     # a slot nobody reset
                run.gdn_pool.conv_state.fill_(float("nan"))
            steps = rm.play(run, seqs, r, row, before=before, image_whole=True)
    except Exception as e:
        c.exception(e, "forward", replay=dict(info, tokens=[(s.toks, s.grids) for s in seqs]))
        return
    for s in seqs:
        if s.grids and s.done >= s.prompt and deltas.get(s.req) != s.delta and not bad:
            bad.append(("delta", f"the position delta of {s.toks} with images {s.grids} is {deltas.get(s.req)}, the reference's {s.delta}"))
    c.seen("layer patterns", ("".join(x[0] for x in lt), bool(vc), tc["tie_word_embeddings"]))
    c.case(i, sample=dict(info, sequences=[(len(s.toks), s.grids) for s in seqs], batches=steps))
    if bad:
        c.violation(bad[0][0], f"{bad[0][1]} ({len(bad)} rows wrong) in {info}", dict(info, tokens=[(s.toks, s.grids) for s in seqs]))


def main():
    parallel(c, one, scale(240, 5000), workers=8)
    c.require("rows", 1500)
    c.require("image extend rows", 60)
    c.require("image decode rows", 60)
    c.require("images in mixed batches", 40)
    c.require("images after a cached prefix", 20)
    c.require("text decode rows", 300)
    c.require("layer patterns", 10)
    c.finish()


if __name__ == "__main__":
    run_main(c, main)

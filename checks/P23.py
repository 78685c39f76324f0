"""P23: a served Qwen3-VL model computes the function its checkpoint defines, images included, whatever shares the batch."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import random
import shutil
import tempfile
import warnings
warnings.filterwarnings("ignore")
import tritonsan
import realmodel as rm
from vlib import Check, parallel, run_main, scale, seed
import torch
import transformers
from transformers import Qwen3VLConfig, Qwen3VLForConditionalGeneration
transformers.utils.logging.set_verbosity_error()

c = Check("P23", "random tiny Qwen3-VL checkpoints loaded by the real ModelRunner; sequences with zero to three images of random grids (and stray vision markers in the text) prefilled and decoded in mixed batches by the real model; "
          "every row of logits, the vision features and the position deltas against the transformers reference of each sequence alone; non-trivial = distinct (configuration, schedule)")
TOL = 4e-4
VOC, IMG, VID, VS, VE = 60, 50, 51, 52, 53


def config(r):
    hk = r.choice([1, 2])
    tied = r.random() < 0.4
    hid = r.choice([16, 24])
    sec = r.choice([[4, 2, 2], [2, 3, 3], [6, 1, 1], [4, 2, 2]])
    ve = r.choice([8, 16, 24])
    depth = r.randint(1, 3)
    merge = r.choice([2, 2, 2, 1])
    layers = r.choice([1, 2, 3])
    ds = sorted(r.sample(range(depth), r.randint(0, min(depth, layers))))
    cfg = Qwen3VLConfig(
        text_config=dict(tie_word_embeddings=tied, vocab_size=VOC, hidden_size=hid, intermediate_size=r.choice([12, 32]), num_hidden_layers=layers, num_attention_heads=hk * r.choice([1, 2]),
                         num_key_value_heads=hk, head_dim=16, max_position_embeddings=256, rope_theta=r.choice([100.0, 10000.0, 5e6]), rms_norm_eps=r.choice([1e-6, 1e-6, 1e-3]),
                         attention_bias=r.random() < 0.2, rope_scaling={"mrope_interleaved": True, "mrope_section": sec, "rope_type": "default"}),
        vision_config=dict(depth=depth, hidden_size=ve, hidden_act=r.choice(["gelu_pytorch_tanh", "gelu", "silu"]), intermediate_size=r.choice([12, 20]), num_heads=2, in_channels=3, patch_size=r.choice([2, 4]),
                           spatial_merge_size=merge, temporal_patch_size=2, out_hidden_size=hid, num_position_embeddings=r.choice([4, 16, 25]), deepstack_visual_indexes=ds),
        image_token_id=IMG, video_token_id=VID, vision_start_token_id=VS, vision_end_token_id=VE, tie_word_embeddings=tied, architectures=["Qwen3VLForConditionalGeneration"])
    cfg._attn_implementation = "eager"
    return cfg


def sequence(r, cfg, q):
    v = cfg.vision_config
    m = v.spatial_merge_size
    toks, grids = [], []
    stray = False

    def text(k):
        nonlocal stray
        for _ in range(k):
            x = r.random()
            if x < 0.04:
                stray = True
                toks.append(r.choice([VS, VE, VID] if not toks or toks[-1] != VS else [VS, VE]))
            else:
                toks.append(r.randrange(50))
    text(r.randint(1, 5))
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
        g = (r.choice([1] * 9 + [2]), m * r.randint(1, 4), m * r.randint(1, 4))
        grids.append(g)
        toks.append(VS)
        toks += [IMG] * (g[0] * g[1] * g[2] // m // m)
        if r.random() < 0.9:
            toks.append(VE)
        text(r.randint(0 if toks[-1] == VE else 1, 3))
    text(r.randint(1, 3))
    toks.append(r.randrange(50))
    s = rm.Seq(toks, q)
    s.prompt = len(toks)
    s.grids, s.stray = grids, stray
    s.pix = torch.randn(sum(g[0] * g[1] * g[2] for g in grids), 3 * 2 * v.patch_size ** 2, generator=torch.Generator().manual_seed(r.randrange(1 << 30)))
    s.toks += [r.randrange(50) for _ in range(r.randint(0, 5))]
    if grids:
        a = toks.index(IMG) - 1 if VS == toks[toks.index(IMG) - 1] else toks.index(IMG)
        a = r.randint(1, a) if a > 0 and r.random() < 0.4 else 0     # text in front of the images may be cached already
        s.extra["cuts"] = {0: a, a: s.prompt - a} if a else {0: s.prompt}
        s.first = a
        s.extra["whole"] = True
    return s


FUSED = tritonsan.fused_rope()


def one(i):
    FUSED.on = i % 6 == 0    # the fused rotary kernel instead of its PyTorch form
    with tritonsan.Launch() as san:
        case(i)
    for kind, text in san.bad[:1]:
        c.violation("memory:" + kind, f"case {i}: {text}", {"case": i})
    c.observe("fused rotary programs", len(san.programs))
    c.observe("fused rotary launches", san.launches)


def case(i):
    r = random.Random(seed() * 1000003 + i)
    cfg = config(r)
    hf = rm.tiny_init(Qwen3VLForConditionalGeneration(cfg).eval(), r)
    sd = dict(hf.state_dict())
    if r.random() < 0.3:     # checkpoints of older releases
        sd = {k.replace("model.visual.", "visual.").replace("model.language_model.", "model."): v for k, v in sd.items()}
    d = tempfile.mkdtemp(prefix="p23-")
    t = cfg.text_config
    info = dict(case=i, text={k: getattr(t, k) for k in ("num_hidden_layers", "num_attention_heads", "num_key_value_heads", "attention_bias", "rms_norm_eps", "rope_theta")}, sections=t.rope_scaling["mrope_section"],
                vision={k: getattr(cfg.vision_config, k) for k in ("depth", "hidden_size", "hidden_act", "patch_size", "spatial_merge_size", "num_position_embeddings", "deepstack_visual_indexes")}, tied=cfg.tie_word_embeddings)
    try:
        rm.write_checkpoint(d, sd, r)
        try:
            run = rm.runner(cfg, d, max_total_tokens=1024)
        except Exception as e:
            c.exception(e, "load", replay=info)
            return
    finally:
        shutil.rmtree(d)
    seqs = [sequence(r, cfg, q) for q in r.sample(range(8), r.randint(2, 5))]
    with torch.no_grad():
        for s in seqs:
            kw = dict(pixel_values=s.pix, image_grid_thw=torch.tensor(s.grids)) if s.grids else {}
            s.ref = hf(torch.tensor([s.toks]), attention_mask=torch.ones(1, len(s.toks), dtype=torch.long), **kw).logits[0]
            s.delta = int(hf.model.rope_deltas.reshape(-1)[0]) if s.grids else 0
    bad = []
    deltas = {}

    def before(fb, pick, ext, el, pl):
        if ext:
            im = [s for s, p in zip(pick, pl) if s.grids and p == s.first]
            if im:
                fb.pixel_values = torch.cat([s.pix for s in im])
                fb.image_grid_thw = torch.tensor([g for s in im for g in s.grids])
                c.observe("image batches")
                if any(s.first for s in im):
                    c.observe("images after a cached prefix")
                if len(pick) > 1:
                    c.observe("images in mixed batches")
        else:
            dl = [deltas.get(s.req, 0) for s in pick]
            if any(dl) or r.random() < 0.5:       # a batch without offsets need not carry any
                fb.mrope_position_deltas = torch.tensor(dl, dtype=torch.int64)
        s_fb[0] = fb
    s_fb = [None]

    def row(s, m, got, mode, pre=0, bs=1):
        if got is None:
            bad.append(("shape", mode))
            return
        c.observe("rows")
        c.observe(("image " if s.grids else "text ") + mode + " rows")
        want = s.ref[m - 1]
        e = (got.float() - want).abs().max().item()
        if not e <= TOL * (1 + want.abs().max().item()):
            what = "stray-marker" if any(x.stray for x in seqs) else "logits"
            bad.append((what + "-" + mode, f"token {m - 1} of {s.toks} with images {s.grids} ({mode}, {pre} cached, batch of {bs}): logits differ by {e:.3g} from the reference (largest {want.abs().max():.3g})"))

    real = run.forward

    def fwd(fb):
        out = real(fb)
        if fb.forward_mode.is_extend():
            dl = fb.mrope_position_deltas
            for q, x in zip(fb.req_pool_indices.tolist(), dl.tolist()):
                deltas[q] = x
        return out
    run.forward = fwd
    # an image prompt is prefilled whole, as the server does
    try:
        with torch.no_grad():
            steps = rm.play(run, seqs, r, row, before=before, image_whole=True)
    except Exception as e:
        c.exception(e, "forward", replay=dict(info, tokens=[(s.toks, s.grids) for s in seqs]))
        return
    for s in seqs:
        if s.grids and s.done >= s.prompt and deltas.get(s.req) != s.delta and not bad:
            bad.append(("delta", f"the position delta of {s.toks} with images {s.grids} is {deltas.get(s.req)}, the reference's {s.delta}"))
    c.seen("configurations", repr(info["vision"]) + repr(info["text"]))
    c.case(i, sample=dict(info, sequences=[(len(s.toks), s.grids) for s in seqs], batches=steps))
    if bad:
        c.violation(bad[0][0], f"{bad[0][1]} ({len(bad)} rows wrong) in {info}", dict(info, tokens=[(s.toks, s.grids) for s in seqs]))


def main():
    parallel(c, one, scale(240, 5000), workers=8)
    c.require("rows", 1500)
    c.require("image extend rows", 150)
    c.require("image decode rows", 150)
    c.require("images in mixed batches", 60)
    c.require("images after a cached prefix", 30)
    c.finish()


if __name__ == "__main__":
    run_main(c, main)

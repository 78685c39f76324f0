"""P22: a served Qwen3 text model computes the function its checkpoint defines."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import random
import shutil
import tempfile
import warnings
warnings.filterwarnings("ignore")
import realmodel as rm
from vlib import Check, parallel, run_main, scale, seed
import torch
import fakegpu
import transformers
from transformers import Qwen3Config, Qwen3ForCausalLM
transformers.utils.logging.set_verbosity_error()

c = Check("P22", "random tiny Qwen3 checkpoints (grouped heads, biases, tied or not, odd sizes, several shard files, foreign name prefixes, .bin) loaded by the real ModelRunner and run by the real model, pools, FlashInfer "
          "back end and batch builders over a torch stand-in of the GPU kernels; random schedules of extends (split anywhere) and decodes; every row of logits against the transformers reference on the whole sequence; non-trivial = distinct (configuration, schedule)")
TOL = 3e-4


def config(r):
    hk = r.choice([1, 2, 3])
    hq = hk * r.choice([1, 2, 4])
    hd = r.choice([4, 8, 16, 16, 128])
    cfg = Qwen3Config(vocab_size=r.choice([31, 64, 97]), hidden_size=r.choice([16, 24, 40]), intermediate_size=r.choice([12, 32, 56]),
                      num_hidden_layers=r.choice([1, 2, 3, 4]), num_attention_heads=hq, num_key_value_heads=hk, head_dim=hd,
                      max_position_embeddings=64, attention_bias=r.random() < 0.4, tie_word_embeddings=r.random() < 0.5,
                      rope_theta=r.choice([100.0, 10000.0, 1e6]), rms_norm_eps=r.choice([1e-6, 1e-5, 1e-2]), hidden_act=r.choice(["silu", "silu", "gelu"]),
                      architectures=["Qwen3ForCausalLM"])
    cfg._attn_implementation = "eager"
    return cfg


def rename(sd, style, r):
    out = {}
    for k, v in sd.items():
        if k.startswith("model."):
            if style == "bare":
                k = k[len("model."):]
            elif style == "vl":
                k = "model.language_model." + k[len("model."):]
            elif style == "lm":
                k = "language_model." + k[len("model."):]
        out[k] = v
    if r.random() < 0.3:     # what older checkpoints also carry
        out["model.layers.0.self_attn.rotary_emb.inv_freq"] = torch.full((3,), 7.0)
    return out


def one(i):
    r = random.Random(seed() * 1000003 + i)
    cfg = config(r)
    hf = rm.tiny_init(Qwen3ForCausalLM(cfg).eval(), r)
    sd = dict(hf.state_dict())
    if cfg.tie_word_embeddings and r.random() < 0.6:
        sd.pop("lm_head.weight")
    style = r.choice(["model", "model", "bare", "vl", "lm"])
    d = tempfile.mkdtemp(prefix="p22-")
    nth = r.choice([0, 0, 1, 2])
    dt = [None, torch.bfloat16, torch.float16][nth]
    if dt is not None:     # a half-precision checkpoint: the stored values are the definition
        sd = {k: v.to(dt) for k, v in sd.items()}
        hf.load_state_dict({**hf.state_dict(), **{k: v.float() for k, v in sd.items()}})
        if cfg.tie_word_embeddings:
            hf.tie_weights()
    try:
        shards = rm.write_checkpoint(d, rename(sd, style, r), r, bins=r.random() < 0.15)
        info = dict(case=i, style=style, shards=shards, config={k: getattr(cfg, k) for k in ("vocab_size", "hidden_size", "intermediate_size", "num_hidden_layers", "num_attention_heads", "num_key_value_heads", "head_dim", "attention_bias", "tie_word_embeddings", "rope_theta", "rms_norm_eps", "hidden_act")})
        try:
            run = rm.runner(cfg, d)
        except Exception as e:
            c.exception(e, "load")
            return
    finally:
        shutil.rmtree(d)
    c.observe("models", 1)
    c.seen("styles", (style, shards > 1, cfg.tie_word_embeddings, cfg.attention_bias, cfg.num_attention_heads // cfg.num_key_value_heads))
    n = r.randint(2, 6)
    seqs = [rm.Seq([r.randrange(cfg.vocab_size) for _ in range(r.randint(2, 24))], q) for q in r.sample(range(8), n)]
    with torch.no_grad():
        for s in seqs:
            s.ref = hf(torch.tensor([s.toks])).logits[0]
    bad = []

    def row(s, m, got, mode, pre=0, bs=1):
        if got is None:
            bad.append(("shape", mode))
            return
        c.observe("rows", 1)
        c.observe("rows after a cached prefix" if mode == "extend" and pre else mode + " rows", 1)
        if bs > 1:
            c.observe("rows from mixed batches", 1)
        want = s.ref[m - 1]
        e = (got.float() - want).abs().max().item()
        if not e <= TOL * (1 + want.abs().max().item()):
            bad.append((mode, f"token {m - 1} of a sequence of {len(s.toks)} ({mode}, {pre} cached, batch of {bs}): logits differ by {e:.3g} from the reference (largest {want.abs().max():.3g})"))
    try:
        with torch.no_grad():
            steps = rm.play(run, seqs, r, row)
    except Exception as e:
        c.exception(e, "forward", replay=info)
        return
    c.observe("batches", steps)
    c.case((i, style), sample=dict(info, sequences=[len(s.toks) for s in seqs], batches=steps))
    if bad:
        c.violation(f"logits-{bad[0][0]}", f"{bad[0][1]} ({len(bad)} rows wrong) in {info}", dict(info, tokens=[s.toks for s in seqs]))


def main():
    parallel(c, one, scale(320, 6000), workers=8)
    c.require("rows", 2500)
    c.require("decode rows", 500)
    c.require("rows after a cached prefix", 300)
    c.require("styles", 10)
    c.finish()


if __name__ == "__main__":
    run_main(c, main)

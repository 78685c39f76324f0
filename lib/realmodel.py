"""Real pymllm models on the CPU: a random checkpoint on disk, the real loader, pools, attention back end and batches."""
import json
import os
import random
import types
import vlib
vlib.setup_python_repo()
import torch
import fakegpu
fakegpu.install()
import pymllm.executor.model_runner as MR
from safetensors.torch import save_file
torch.set_num_threads(1)


def write_checkpoint(d, tensors, rng, arch=None, config=None, bins=False):
    """Shuffle the tensors into several shard files, as a published checkpoint has them."""
    os.makedirs(d, exist_ok=True)
    names = list(tensors)
    rng.shuffle(names)
    k = rng.randint(1, 4)
    parts = [names[i::k] for i in range(k)]
    parts = [p for p in parts if p]
    for i, p in enumerate(parts):
        t = {n: tensors[n].contiguous().clone() for n in p}
        if bins:
            torch.save(t, f"{d}/pytorch_model-{i + 1:05d}-of-{len(parts):05d}.bin")
        else:
            save_file(t, f"{d}/model-{i + 1:05d}-of-{len(parts):05d}.safetensors")
    if config is not None:
        with open(f"{d}/config.json", "w") as f:
            json.dump(config, f)
    return len(parts)


def server_config(**k):
    b = dict(dtype="float32", context_length=None, model_path=None, max_running_requests=8, max_total_tokens=256, mem_fraction_static=0.5,
             disable_cuda_graph=True, disable_radix_cache=False, enable_mamba_cache=False, radix_cache_page_size=1, decode_log_interval=40,
             max_prefill_tokens=1 << 14, gdn_decode_backend="auto", gdn_extend_backend="auto")
    b.update(k)
    return types.SimpleNamespace(**b)


def runner(hf_config, path, **k):
    sc = server_config(model_path=str(path), **k)
    r = MR.ModelRunner(server_config=sc, model_config=types.SimpleNamespace(hf_config=hf_config))
    r.device = "cpu"
    orig = MR.make_full_attention_net_mem_pool
    MR.make_full_attention_net_mem_pool = lambda **kw: orig(**{**kw, "pin_memory": False})
    # fresh parameters hold garbage on a GPU: make anything the loader forgets visible
    fill = torch.utils.deterministic.fill_uninitialized_memory
    det = torch.are_deterministic_algorithms_enabled()
    torch.use_deterministic_algorithms(True, warn_only=True)
    torch.utils.deterministic.fill_uninitialized_memory = True
    try:
        r.initialize()
    finally:
        MR.make_full_attention_net_mem_pool = orig
        torch.use_deterministic_algorithms(det)
        torch.utils.deterministic.fill_uninitialized_memory = fill
    return r


class Seq:
    def __init__(self, toks, req):
        self.toks, self.req, self.done, self.extra = list(toks), req, 0, {}


def poison(r):
    kv = r.token_to_kv_pool
    for l in range(r.num_hidden_layers):
        for b in kv.get_kv_buffer(l):
            b.fill_(float("nan"))


def play(r, seqs, rng, on_row, before=None, steps=None, chunks=(1, 6), max_bs=4, decode_p=0.5, image_whole=False):
    """Random schedule over the sequences (each a fixed token list): extends with random splits, decodes with the given next
    token.  on_row(seq, n_tokens_seen, logits_row, mode) judges each logits row.  before(batch, seqs, extend) may set extra fields."""
    n = r.token_to_kv_pool.size
    free = list(range(1, n + 1)) if r.token_to_kv_pool.get_kv_buffer(0)[0].shape[0] > n else list(range(1, n))
    rng.shuffle(free)
    poison(r)
    r2t = r.req_to_token_pool.req_to_token
    r2t.fill_(0)
    live = list(seqs)
    steps_done = 0
    while live and (steps is None or steps_done < steps):
        steps_done += 1
        ext = not any(s.done for s in live) or rng.random() > decode_p
        cut = lambda s: (s.extra.get("cuts") or {}).get(s.done)      # tokens this sequence must be extended by here (an image block is not split)
        cand = [s for s in live if (ext and (s.done == 0 or cut(s) or not (image_whole and s.extra.get("whole")))) or (not ext and s.done and not cut(s))]
        if not cand:
            continue
        rng.shuffle(cand)
        pick = cand[:rng.randint(1, max_bs)]
        ids, pool, sl, el, pl, loc = [], [], [], [], [], []
        for s in pick:
            k = 1 if not ext else (cut(s) or rng.randint(*chunks))
            if ext and rng.random() < 0.25 and not s.extra.get("whole"):
                k = len(s.toks)
            k = max(1, min(k, len(s.toks) - s.done))
            slots = [free.pop() for _ in range(k)]
            r2t[s.req, s.done:s.done + k] = torch.tensor(slots, dtype=r2t.dtype)
            ids += s.toks[s.done:s.done + k]
            pool.append(s.req)
            pl.append(s.done)
            el.append(k)
            s.done += k
            sl.append(s.done)
            loc += slots
        T = lambda x, d=torch.int32: torch.tensor(x, dtype=d)
        if ext:
            fb = r.prepare_forward_batch_extend(T(ids), T(pool, torch.int64), T(sl), T(el), T(pl), T(loc, torch.int64))
        elif rng.random() < 0.5:
            fb = r.prepare_forward_batch_decode(T(ids), T(pool, torch.int64), T(sl), T(loc, torch.int64))
        else:
            fb = r.prepare_forward_batch_decode(T(ids), T(pool, torch.int64), T(sl), T(loc, torch.int64), seq_lens_cpu_list=sl)
        if before:
            before(fb, pick, ext, el, pl)
        out = r.forward(fb).next_token_logits
        if out.shape != (len(pick), r.vocab_size):
            on_row(pick[0], pick[0].done, None, f"a batch of {len(pick)} sequences gave logits of shape {tuple(out.shape)}")
            return steps_done
        for i, s in enumerate(pick):
            on_row(s, s.done, out[i], "extend" if ext else "decode", pl[i], len(pick))
        live = [s for s in live if s.done < len(s.toks)]
    return steps_done


def tiny_init(model, rng, scale=0.35):
    """Random weights with norms and biases away from their trivial values."""
    g = torch.Generator().manual_seed(rng.randrange(1 << 30))
    with torch.no_grad():
        for n, p in model.named_parameters():
            if "norm" in n and p.dim() == 1 and not n.endswith("bias"):
                p.copy_(torch.rand(p.shape, generator=g) + 0.5)
            else:
                p.copy_(torch.randn(p.shape, generator=g) * scale)
    return model

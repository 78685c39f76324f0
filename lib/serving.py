"""Serving harness: the real SchedulerProcess + ModelRunnerProcess + ModelRunner
(pools, prefix cache, batching, sampling) driven through their event loop with a
recording model.

The model ("deep-KV hash LM") stores in the KV pool, for every token, a tag that
depends on the tag read back from the pool for the previous token, on the token,
its position, the image row it consumed and the recurrent state it was given; the
next-token logits depend on every tag gathered from the pool.  Hence any stale,
shared, misplaced or missing KV entry or state changes what the request outputs,
and a few lines of sequential reference code predict the output of each request
alone.

Monitors: slot ledger (alloc/free/write), per-forward view of each request's KV
mapping, scheduler limits, output protocol, drain.
"""
from __future__ import annotations

import math
import random
import types

import torch

import vlib

V = 67          # vocabulary
IMG = 1         # image placeholder token
P = 1000003


def _imports():
    import pymllm.layers.sampling as S
    S._HAS_FLASHINFER = False     # no GPU here: the documented torch fallback
    from pymllm.orchestrator.scheduler_process import SchedulerProcess
    from pymllm.orchestrator.model_runner_process import ModelRunnerProcess
    import pymllm.executor.model_runner as MR
    from pymllm.engine.io_struct import TokenizedGenerateReqInput
    return SchedulerProcess, ModelRunnerProcess, MR, TokenizedGenerateReqInput


def step_state(s, tok, pos):
    return (s * 7 + tok * 5 + pos + 1) % 65521


def next_tag(prev, tok, pos, extra, state):
    return (prev * 31 + tok * 17 + pos * 3 + extra * 13 + state * 101 + 11) % P


def logits_of(h, state, conv):
    a = 1 + (h + state * 3) % (V - 1)
    b = (h // (V - 1) + sum((i + 1) * c for i, c in enumerate(conv)) + state) % V
    return [(((v * a + b) % V) / V) * 4.0 - 2.0 if v != IMG else -50.0 for v in range(V)]


class RefSeq:
    """What a request computes on its own."""

    def __init__(self, prompt, images, hybrid, mrope):
        self.images = list(images)
        self.prompt_imgs = len(images) if mrope else 0
        self.hybrid = hybrid
        self.mrope = mrope
        self.tags = []
        self.toks = []
        self.state = 0
        self.conv = [0, 0, 0]
        self.h = 0
        self.used_imgs = 0
        for t in prompt:
            self.push(t)
        self.prompt_len = len(prompt)

    def push(self, t):
        j = len(self.toks)
        extra = 0
        if t == IMG and self.used_imgs < len(self.images):
            extra = self.images[self.used_imgs]
            self.used_imgs += 1
        pos = j + (self.used_imgs if self.mrope else 0)
        if self.hybrid:
            self.state = step_state(self.state, t, pos)
            self.conv = (self.conv + [t])[-3:]
        tag = next_tag(self.tags[-1] if self.tags else 0, t, pos, extra, self.state)
        self.tags.append(tag)
        self.toks.append(t)
        self.h = (self.h * 1009 + tag * 7 + 5) % P

    def logits(self):
        return logits_of(self.h, self.state, self.conv)


class StopLoop(Exception):
    pass


class Report:
    """Collects violations of one history."""

    def __init__(self):
        self.bad = []

    def __call__(self, prop, sig, msg):
        if len(self.bad) < 40:
            self.bad.append((prop, sig, msg))


class FakeLM(torch.nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = w
        if w.cfg["hybrid"]:
            self.num_gdn_layers = 1
            self.full_attn_layer_ids = {0}

    def forward(self, input_ids, positions, fb):
        w = self.w
        pool, r2t = fb.token_to_kv_pool, fb.req_to_token_pool.req_to_token
        rep = w.rep
        ids = input_ids.tolist()
        pos_l = positions.tolist()
        out_loc = fb.out_cache_loc.tolist()
        slots_req = fb.req_pool_indices.tolist()
        seq_lens = fb.seq_lens.tolist()
        extend = fb.forward_mode.is_extend()
        n = len(slots_req)
        ext_lens = fb.extend_seq_lens.tolist() if extend else [1] * n
        pre_lens = fb.extend_prefix_lens.tolist() if extend else [s - 1 for s in seq_lens]
        if len(set(slots_req)) != n:
            rep("P06", "req-slot-shared", f"two requests of one batch share request slot: {slots_req}")
        if len(set(out_loc)) != len(out_loc):
            rep("P03", "kv-slot-shared-in-batch", "the same KV slot is written by two tokens of one batch")
        if sum(ext_lens) != len(ids) or len(out_loc) != len(ids) or len(pos_l) != len(ids):
            rep("P04", "batch-shape", f"{len(ids)} tokens, {len(out_loc)} slots, {len(pos_l)} positions, extend lens {ext_lens}")
            raise StopLoop
        deltas = None
        if w.cfg["vl"]:
            if extend:
                deltas = []
            else:
                deltas = fb.mrope_position_deltas.tolist() if fb.mrope_position_deltas is not None else [0] * n
        pix = None
        if extend and getattr(fb, "pixel_values", None) is not None:
            pix = fb.pixel_values.reshape(-1).tolist()
        pix_used = 0
        rids = w.batch_rids
        rows = []
        all_rows = []
        o = 0
        kb, vb = pool.get_kv_buffer(0)
        for i in range(n):
            rid = rids[i] if i < len(rids) else None
            ln, pre = ext_lens[i], pre_lens[i]
            if pre + ln != seq_lens[i]:
                rep("P04", "extend-lens", f"prefix {pre} + extend {ln} != sequence {seq_lens[i]} for {rid}")
            if extend and pre and ln < 2:      # FlashInfer's cascade merge is wrong for a lone query after a prefix
                rep("P04", "lone-extend", f"{rid} extends {ln} token after a cached prefix of {pre}: the kernels compute wrong logits there")
            row = r2t[slots_req[i], : seq_lens[i]].tolist()
            state, conv = 0, [0, 0, 0]
            if w.cfg["hybrid"]:
                rec, cv = w.runner.gdn_pool.get_layer_state(0)
                state = int(rec[slots_req[i]].reshape(-1)[0])
                conv = [int(x) for x in cv[slots_req[i], 0].tolist()]
            imgs = 0
            for k in range(ln):
                j = pre + k
                t = ids[o + k]
                if pos_l[o + k] != j:
                    rep("P04", "position", f"token {j} of {rid} got position {pos_l[o + k]}")
                if j < len(row) and row[j] != out_loc[o + k]:
                    rep("P03", "kv-map-mismatch", f"token {j} of {rid} is written to slot {out_loc[o + k]} but mapped to {row[j]}")
                extra = 0
                if extend and t == IMG and pix is not None and pix_used < len(pix):
                    extra = int(pix[pix_used])
                    pix_used += 1
                    imgs += 1
                pos = j + (imgs if w.cfg["vl"] and extend else (deltas[i] if deltas is not None else 0))
                if w.cfg["hybrid"]:
                    state = step_state(state, t, pos)
                    conv = (conv + [t])[-3:]
                prev = int(kb[row[j - 1]].reshape(-1)[0]) if j else 0
                tag = next_tag(prev, t, pos, extra, state)
                sl = torch.tensor([out_loc[o + k]])
                val = torch.full((1, kb.shape[1], kb.shape[2]), float(tag))
                w.note_write(out_loc[o + k], rid)
                pool.set_kv_buffer(0, sl, val, val + 1)
                if w.cfg["layers"] > 1:
                    pool.set_kv_buffer(1, sl, val + 2, val + 3)
            o += ln
            if w.cfg["hybrid"]:
                rec[slots_req[i]] = float(state)
                cv[slots_req[i], 0] = torch.tensor([float(c) for c in conv])
            if extend and deltas is not None:
                deltas.append(imgs)
            all_rows.append((rid, row))
            # what attention would gather
            L = w.cfg["layers"] - 1
            ids_t = torch.tensor(row)
            got = [int(x) - 2 * L for x in pool.get_key_buffer(L)[ids_t].reshape(len(row), -1)[:, 0].tolist()]
            gv = [int(x) - 1 - 2 * L for x in pool.get_value_buffer(L)[ids_t].reshape(len(row), -1)[:, 0].tolist()]
            w.check_row(rid, row, got, gv, state, conv, pre, extend)
            h = 0
            for tag in got:
                h = (h * 1009 + tag * 7 + 5) % P
            rows.append(logits_of(h, state, conv))
        if pix is not None and pix_used != len(pix):
            rep("P04", "image-rows", f"{len(pix)} image rows in the batch but only {pix_used} image tokens were forwarded")
        if extend and w.cfg["vl"]:
            fb.mrope_position_deltas = torch.tensor(deltas)
        lg = torch.tensor(rows, dtype=torch.float32)
        if extend:   # flat [total_tokens, V]: the runner picks the last row of each request
            full = torch.full((len(ids), V), -9.0)
            e = 0
            for i in range(n):
                e += ext_lens[i]
                full[e - 1] = lg[i]
            return full
        return lg


class World:
    """One serving stack + its monitors."""

    def __init__(self, cfg, rep):
        SchedulerProcess, ModelRunnerProcess, MR, self.Tok = _imports()
        self.cfg, self.rep = cfg, rep
        self.obs = {}
        self.seen = {}
        self.reqs = {}
        self.batch_rids = []
        sc = types.SimpleNamespace(
            dtype="float32", context_length=cfg["context"], model_path=None,
            max_running_requests=cfg["max_running"], max_total_tokens=cfg["kv_size"], mem_fraction_static=0.5,
            disable_cuda_graph=True, disable_radix_cache=cfg["cache"] == "chunk",
            enable_mamba_cache=cfg["cache"] == "mamba", radix_cache_page_size=cfg["page"],
            decode_log_interval=7, max_prefill_tokens=cfg["max_prefill"])
        hf = types.SimpleNamespace(
            vocab_size=V, num_hidden_layers=cfg["layers"], num_attention_heads=1, num_key_value_heads=1, head_dim=2,
            hidden_size=2, max_position_embeddings=cfg["context"], sliding_window=cfg["swa"],
            linear_num_key_heads=1, linear_num_value_heads=1, linear_key_head_dim=1, linear_value_head_dim=1,
            linear_conv_kernel_dim=4)
        mc = types.SimpleNamespace(hf_config=hf)
        runner = MR.ModelRunner(server_config=sc, model_config=mc)
        runner.device = "cpu"
        runner.model = FakeLM(self)
        runner._extract_model_metadata()
        runner.kv_cache_dtype = torch.float32
        orig = MR.make_full_attention_net_mem_pool
        MR.make_full_attention_net_mem_pool = lambda **k: orig(**{**k, "pin_memory": False})
        try:
            runner.init_memory_pool()
        finally:
            MR.make_full_attention_net_mem_pool = orig
        runner.attn_backend = types.SimpleNamespace(init_forward_metadata=lambda fb: None)
        self.runner = runner
        mrp = ModelRunnerProcess(server_config=sc, model_config=mc)
        mrp._runner = runner
        mrp._radix_cache = mrp._create_prefix_cache()
        self.mrp = mrp
        self.cache = mrp._radix_cache
        self.alloc = runner.token_to_kv_pool_allocator
        self.size = self.alloc.size
        s = SchedulerProcess("inproc://a", "inproc://b", server_config=sc, model_config=mc,
                             max_running_requests=cfg["max_running"], max_prefill_tokens=cfg["max_prefill"],
                             max_total_tokens=cfg["max_total"], eos_token_ids=list(cfg["eos"]),
                             default_max_new_tokens=cfg["default_max_new"])
        s._model_runner = mrp
        self.sched = s
        self._ledger()
        self._wrap()
        # transport stand-ins
        self.inbox = []
        self.sent = []
        self.schedule = {}
        self.step = 0
        self.max_steps = 4000
        class Sock:
            def recv_pyobj(_s, *a, **k):
                return self._recv()
        sock = Sock()
        s._recv_from_tokenizer = sock
        s._poller = types.SimpleNamespace(poll=lambda timeout=None: self._poll(sock))
        s._send_to_detokenizer = types.SimpleNamespace(send_pyobj=self._send)
        s._idle_sleeper = types.SimpleNamespace(sleep=self._idle)
        self.idle_audits = 0
        self.stuck = None
        self.polled_this_step = False
        self.cur_recv_step = 0

    # -- ledger --------------------------------------------------------------
    def count(self, k, n=1):
        self.obs[k] = self.obs.get(k, 0) + n

    def note(self, k, v):
        self.seen.setdefault(k, set()).add(v)

    def _ledger(self):
        self.live = set()
        self.written = {}
        al = self.alloc
        a0, f0 = al.alloc, al.free

        def alloc(n):
            out = a0(n)
            if out is not None:
                l = out.tolist()
                if len(l) != n:
                    self.rep("P03", "alloc-count", f"asked for {n} slots, got {len(l)}")
                for x in l:
                    if not 1 <= x <= self.size:
                        self.rep("P03", "alloc-range", f"slot {x} outside [1, {self.size}]")
                    if x in self.live:
                        self.rep("P03", "alloc-live", f"slot {x} handed out while still allocated")
                    self.live.add(x)
                    self.written.pop(x, None)
                self.count("slots_allocated", n)
            else:
                self.count("alloc_failed")
            return out

        def free(idx):
            for x in idx.tolist():
                if x not in self.live:
                    self.rep("P03", "double-free", f"slot {x} freed although it is not allocated")
                self.live.discard(x)
            self.count("slots_freed", idx.numel())
            return f0(idx)

        al.alloc, al.free = alloc, free
        rp = self.runner.req_to_token_pool
        self.req_live = set()
        ra, rf = rp.alloc, rp.free

        def ralloc(n=1):
            out = ra(n)
            for x in out or []:
                if x in self.req_live or not 1 <= x <= rp.size:
                    self.rep("P06", "req-slot-alloc", f"request slot {x} handed out twice or out of range")
                self.req_live.add(x)
            return out

        def rfree(slot):
            if slot not in self.req_live:
                self.rep("P06", "req-slot-free", f"request slot {slot} freed twice")
            self.req_live.discard(slot)
            return rf(slot)
        rp.alloc, rp.free = ralloc, rfree

    def note_write(self, slot, rid):
        if slot not in self.live:
            self.rep("P03", "write-unallocated", f"{rid} writes KV slot {slot} which is not allocated")
        elif slot in self.written:
            self.rep("P03", "overwrite", f"{rid} overwrites KV slot {slot} written by {self.written[slot]}")
        self.written[slot] = rid
        self.count("kv_writes")

    def check_row(self, rid, row, got, gv, state, conv, pre, extend):
        ref = self.reqs[rid]["ref"] if rid in self.reqs else None
        if len(set(row)) != len(row):
            self.rep("P03", "row-duplicate", f"{rid} maps two positions to one KV slot")
        for x in row:
            if x not in self.live:
                self.rep("P03", "read-unallocated", f"{rid} reads KV slot {x} which is not allocated")
                break
        if ref is None:
            return
        # the reference covers what was output so far
        exp = ref.tags
        prop = "P05" if self.cfg["hybrid"] else "P04"
        if len(got) != len(exp):
            self.rep("P04", "kv-length", f"{rid} attends to {len(got)} tokens, its sequence has {len(exp)}")
        elif got != exp:
            j = next(k for k in range(len(exp)) if got[k] != exp[k])
            self.rep(prop, "kv-content", f"KV of token {j} of {rid} (prefix hit {pre if extend else '-'}) differs from computing it alone")
        elif gv != exp:
            self.rep(prop, "v-content", f"value row of {rid} differs from computing it alone")
        if self.cfg["hybrid"] and (state != ref.state or conv != ref.conv):
            self.rep("P05", "state", f"recurrent state of {rid} after {len(got)} tokens differs from processing its tokens in order")
        if extend:
            self.count("prefill_rows")
            if pre:
                self.count("prefix_hits")
                self.note("prefix_hit_len", pre)
        else:
            self.count("decode_rows")

    # -- wraps ---------------------------------------------------------------
    def _wrap(self):
        fb0 = self.mrp._forward_batch
        s = self.sched

        def fwd(batch):
            reqs = batch.get("requests", [])
            self.batch_rids = [m["rid"] for m in reqs]
            mode = batch.get("forward_mode")
            n = len(self.batch_rids)
            self.note("batch", (mode, n))
            if len(set(self.batch_rids)) != n:
                self.rep("P07", "batch-duplicate", "a request is twice in one batch")
            for rid in self.batch_rids:
                r = self.reqs.get(rid)
                if r is None:
                    self.rep("P07", "batch-unknown", f"batch holds unknown request {rid}")
                elif r["terminal"]:
                    self.rep("P08", "forward-after-end", f"{rid} is computed after its terminal output")
                elif r["aborted"] is not None:
                    self.rep("P09", "forward-after-abort", f"{rid} is computed after its abort was received")
            if mode == "extend":
                lens = [len(m["input_ids"]) for m in reqs]
                if sum(lens) > self.cfg["max_prefill"] and n > 1:
                    self.rep("P07", "prefill-limit", f"prefill batch of {n} requests has {sum(lens)} tokens, limit {self.cfg['max_prefill']}")
                self.active |= set(self.batch_rids)
                self.count("prefill_batches")
                self.count("retractions", sum(1 for r in self.batch_rids if r in self.reqs and self.reqs[r]["gen"]))
            else:
                self.count("decode_batches")
                self.active = set(self.batch_rids) | (self.active & set(self.batch_rids))
            act = {r for r in self.active if not self.reqs[r]["terminal"] and self.reqs[r]["aborted"] is None} if all(r in self.reqs for r in self.active) else set()
            if len(act) > self.cfg["max_running"]:
                self.rep("P07", "running-limit", f"{len(act)} requests running, limit {self.cfg['max_running']}")
            self.note("running", len(act))
            res = fb0(batch)
            for out in res.get("outputs", []):
                r = self.reqs.get(out["rid"])
                if r is None:
                    continue
                for t in out["output_token_ids"]:
                    self.on_token(r, out["rid"], t)
            return res
        self.mrp._forward_batch = fwd
        self.active = set()

    def on_token(self, r, rid, t):
        """Check a sampled token against the sequential reference."""
        ref, sp = r["ref"], r["sp"]
        lg = list(ref.logits())
        hist = ref.toks
        rep_p, fr, pr = sp.get("repetition_penalty") or 1.0, sp.get("frequency_penalty") or 0.0, sp.get("presence_penalty") or 0.0
        if rep_p != 1.0 or fr or pr:
            cnt = {}
            for x in hist:
                cnt[x] = cnt.get(x, 0) + 1
            for x, c in cnt.items():
                v = lg[x]
                v = v / rep_p if v > 0 else v * rep_p
                lg[x] = v - fr * c - pr
            self.count("penalized_tokens")
        temp = sp.get("temperature")
        temp = 1.0 if temp is None else temp
        k = sp.get("top_k")
        if temp < 1e-6 or k == 1:
            m = max(lg)
            allowed = {i for i, v in enumerate(lg) if v >= m - 2e-4}
            sig = "greedy"
        else:
            kk = k if k and k > 0 else V
            th = sorted(lg, reverse=True)[min(kk, V) - 1]
            allowed = {i for i, v in enumerate(lg) if v >= th - 2e-4}
            allowed.discard(IMG)
            sig = "top-k"
            tp = sp.get("top_p")
            if temp > 0.3 and (tp is None or tp >= 1.0) and t in allowed:
                self.draw(lg, allowed, temp, t)
        if t not in allowed:
            self.rep("P05" if self.cfg["hybrid"] else "P04", f"token-{sig}",
                     f"token {len(ref.toks) - ref.prompt_len} of {rid} is {t}; computing the request alone allows {sorted(allowed)[:6]}")
        self.count("tokens_checked")
        ref.push(t)
        r["gen"].append(t)

    def draw(self, lg, allowed, temp, t):
        """Sums for the test that drawn tokens follow each request's own distribution."""
        al = sorted(allowed)
        m = max(lg[i] for i in al)
        w = [math.exp((lg[i] - m) / temp) for i in al]
        z = sum(w)
        mean = sum(lg[i] * x for i, x in zip(al, w)) / z
        var = sum((lg[i] - mean) ** 2 * x for i, x in zip(al, w)) / z
        best = sum(x for i, x in zip(al, w) if lg[i] >= m - 2e-4) / z
        kind = "mixed" if any((self.reqs[r]["sp"].get("temperature", 1.0) or 0) < 1e-6 for r in self.batch_rids if r in self.reqs) else "drawn"
        for k, v in (("n", 1), ("dev_u", (lg[t] - mean) * 1e6), ("var_u", var * 1e6), ("best", lg[t] >= m - 2e-4),
                     ("best_exp_u", best * 1e6), ("best_var_u", best * (1 - best) * 1e6)):
            self.count(f"draw_{kind}_{k}", int(v))

    # -- transport -----------------------------------------------------------
    def _poll(self, sock):
        if not self.polled_this_step:
            self.polled_this_step = True
            self.step += 1
            if self.step > self.max_steps:
                self.stuck = f"not finished after {self.max_steps} scheduler iterations"
                raise StopLoop
            for m in self.schedule.pop(self.step, []):
                self.inbox.append(m)
        if self.inbox:
            return [(sock, 1)]
        self.polled_this_step = False
        return []

    def _recv(self):
        m = self.inbox.pop(0)
        if isinstance(m, dict):
            r = self.reqs.get(m["rid"])
            if r is not None and not r["terminal"] and r["submitted"]:
                r["aborted"] = self.step
                self.count("aborts")
                self.note("abort_stage", r["stage"]())
        else:
            self.reqs[m.rid]["submitted"] = True
        return m

    def _idle(self):
        self.audit_idle()
        if not self.schedule and not self.inbox:
            raise StopLoop
        # jump to the next arrival
        if not self.inbox:
            nxt = min(self.schedule)
            self.step = max(self.step, nxt - 1)

    def _send(self, out):
        for i, rid in enumerate(out["rids"]):
            r = self.reqs.get(rid)
            if r is None:
                self.rep("P08", "output-unknown", f"output for unknown request {rid}")
                continue
            fin = out["finished_reasons"][i]
            ids = list(out["decode_ids"])
            if r["terminal"]:
                self.rep("P08", "output-after-end", f"{rid} gets an output after its terminal one")
            if r["aborted"] is not None and r["aborted"] <= self.step:
                self.rep("P09", "output-after-abort", f"{rid} gets an output after its abort was received")
            if out["read_offsets"][i] != len(r["streamed"]):
                self.rep("P08", "read-offset", f"{rid}: delta starts at {out['read_offsets'][i]}, {len(r['streamed'])} tokens were delivered")
            r["streamed"] += ids
            if list(out["output_ids"]) != r["gen"] and not (fin == "abort" and not r["gen"]):
                self.rep("P08", "output-ids", f"{rid}: reported output differs from what was generated")
            if out["completion_tokens"][i] != len(out["output_ids"]) or out["prompt_tokens"][i] != len(r["prompt"]):
                self.rep("P08", "usage", f"{rid}: usage {out['prompt_tokens'][i]}+{out['completion_tokens'][i]} for {len(r['prompt'])}+{len(out['output_ids'])} tokens")
            if fin is None:
                if not r["stream"]:
                    self.rep("P08", "unrequested-delta", f"{rid} did not ask for streaming but got a partial output")
                self.count("deltas")
            else:
                r["terminal"] = fin
                self.count("terminals")
                if r["streamed"] != list(out["output_ids"]):
                    self.rep("P08", "delta-concat", f"{rid}: concatenated deltas differ from the final output")
                self.check_end(rid, r, fin, list(out["output_ids"]))
                self.active.discard(rid)

    def limit_of(self, r):
        """(servable, max new tokens)"""
        max_len = min(self.cfg["max_total"], self.cfg["context"], self.size)
        n = len(r["prompt"])
        if not 0 < n <= max_len:
            return False, 0
        mx = r["sp"].get("max_new_tokens")
        mx = self.cfg["default_max_new"] if mx is None else int(mx)
        return True, min(mx, max_len - n + 1)

    def check_end(self, rid, r, fin, ids):
        ok, limit = self.limit_of(r) if not r["malformed"] else (False, 0)
        if not ok:
            if fin != "abort" or ids:
                self.rep("P27", "reject", f"unservable request {rid} ended with {fin!r} and {len(ids)} tokens")
            self.count("rejected")
            return
        stops = set(r["sp"].get("stop_token_ids") or []) | set(self.cfg["eos"])
        self.note("finish", fin)
        hit = [i for i, t in enumerate(ids) if t in stops]
        if fin == "eos":
            if not hit or hit[0] != len(ids) - 1:
                self.rep("P08", "eos", f"{rid} ended with eos but its stop tokens are at {hit} of {len(ids)}")
        elif fin == "length":
            if hit:
                self.rep("P08", "stop-missed", f"{rid} generated past its stop token at {hit[0]}")
            if len(ids) != max(limit, 1):
                self.rep("P08", "length", f"{rid} ended for length with {len(ids)} tokens, limit {limit}")
        else:
            self.rep("P08", "end-reason", f"{rid} ended with {fin!r}")
        if len(ids) > max(limit, 1):
            self.rep("P08", "max-tokens", f"{rid} produced {len(ids)} tokens, limit {limit}")

    # -- drive ---------------------------------------------------------------
    def submit(self, step, rid, prompt, sp=None, stream=False, images=None, malformed=False):
        mm = None
        if images:
            mm = {"image_inputs": {"pixel_values": torch.tensor([[float(x)] for x in images]),
                                   "image_grid_thw": torch.tensor([[1, 1, 1]] * len(images))}}
        m = self.Tok(rid=rid, input_ids=list(prompt), sampling_params=dict(sp) if isinstance(sp, dict) else sp, stream=stream, mm_inputs=mm)
        r = {"prompt": list(prompt), "sp": sp if isinstance(sp, dict) else {}, "stream": stream, "gen": [], "streamed": [],
             "terminal": None, "aborted": None, "submitted": False, "malformed": malformed,
             "ref": RefSeq(prompt, images or [], self.cfg["hybrid"], self.cfg["vl"])}
        r["stage"] = lambda r=r: "running" if r["gen"] else "queued"
        self.reqs[rid] = r
        self.schedule.setdefault(step, []).append(m)

    def abort(self, step, rid):
        self.schedule.setdefault(step, []).append({"rid": rid, "abort": True})

    def run(self):
        try:
            self.sched.event_loop()
        except StopLoop:
            pass
        for rid, r in self.reqs.items():
            if r["submitted"] and not r["terminal"] and r["aborted"] is None:
                self.rep("P07", "stuck", self.stuck or f"{rid} never ended although the scheduler went idle")
                return
        if not self.stuck:
            self.audit_drain()

    # -- audits --------------------------------------------------------------
    def audit_idle(self):
        """Nothing is running: allocated slots = cached slots."""
        self.idle_audits += 1
        self.count("idle_audits")
        if any(r["submitted"] and not r["terminal"] and r["aborted"] is None for r in self.reqs.values()):
            return
        cached = self.cache.total_size()
        if len(self.live) != cached:
            self.rep("P03", "leak", f"idle: {len(self.live)} KV slots allocated, {cached} cached")
        if self.alloc.available_size() != self.size - len(self.live):
            self.rep("P03", "free-list", f"idle: allocator says {self.alloc.available_size()} free, {self.size - len(self.live)} are")
        if self.cache.protected_size() != 0:
            self.rep("P03", "lock-leak", f"idle: {self.cache.protected_size()} cached tokens still locked")
        if self.req_live or self.runner.req_to_token_pool.available_size() != self.runner.req_to_token_pool.size:
            self.rep("P06", "req-slot-leak", f"idle: request slots {sorted(self.req_live)} not returned")
        for o in (self.mrp, self.sched):
            for name, v in vars(o).items():
                if isinstance(v, (dict, set, list, tuple)) and v:
                    left = [r for r in self.reqs if self.reqs[r]["submitted"] and (r in v)] if all(isinstance(k, str) for k in list(v)[:1]) else []
                    if left:
                        self.rep("P03", "state-leak", f"idle: {type(o).__name__}.{name} still holds something of finished request {left[0]}")
        used = getattr(self.sched, "_used_tokens", 0)
        if used != 0:
            self.rep("P07", "budget-leak", f"idle: token budget still charged with {used}")

    def audit_drain(self):
        self.cache.evict(10 ** 9)
        if self.live:
            self.rep("P03", "drain", f"{len(self.live)} KV slots stay allocated after evicting the whole cache")
        gp = self.runner.gdn_pool
        if gp is not None:
            got = []
            while True:
                t = gp.alloc_track_slot()
                if t is None:
                    break
                got.append(t)
            if len(set(got)) != len(got) or len(got) != gp.max_track_slots:
                self.rep("P05", "track-slots", f"{len(got)} snapshot slots free after draining ({len(set(got))} distinct), {gp.max_track_slots} exist")
        self.count("drains")


def random_cfg(rng, flavor=None):
    flavor = flavor or rng.choice(["radix", "radix", "page", "chunk", "mamba", "swa", "hybrid", "hybrid-mamba", "vl"])
    c = dict(layers=rng.choice([1, 2]), context=rng.choice([24, 40, 64]), kv_size=rng.choice([24, 40, 64, 120, 200]),
             max_running=rng.choice([1, 2, 3, 5, 8]), max_prefill=rng.choice([6, 12, 30, 100]), page=1, swa=None, cache="radix",
             hybrid=False, vl=False, eos=rng.choice([(), (0,), (0, 5)]), default_max_new=rng.choice([3, 8, 30]), flavor=flavor)
    c["max_total"] = rng.choice([c["kv_size"], c["kv_size"] * 2, 131072])
    if flavor == "page":
        c["page"] = rng.choice([2, 4])
    elif flavor == "chunk":
        c["cache"] = "chunk"
    elif flavor == "mamba":
        c["cache"] = "mamba"
        c["page"] = rng.choice([1, 1, 2])
    elif flavor == "swa":
        c["swa"] = rng.choice([4, 8])
        c["page"] = rng.choice([1, 1, 2])
    elif flavor == "hybrid":
        c["hybrid"] = True
        c["page"] = rng.choice([1, 1, 2])
    elif flavor == "hybrid-mamba":
        c["hybrid"], c["cache"] = True, "mamba"
        c["page"] = rng.choice([1, 1, 2])
    elif flavor == "vl":
        c["vl"] = True
        c["cache"] = rng.choice(["radix", "radix", "chunk"])
    return c


def random_sp(rng, style):
    sp = {}
    if rng.random() < 0.9:
        sp["max_new_tokens"] = rng.choice([1, 1, 2, 3, 5, 9, 14])
    r = rng.random()
    if style == "greedy" or r < 0.6:
        sp["temperature"] = rng.choice([0, 0.0, 1e-7])
    elif r < 0.75:
        sp.update(temperature=rng.choice([0.7, 1.0, 3.0]), top_k=1)
    elif r < 0.9:
        sp.update(temperature=rng.choice([0.7, 1.0]), top_k=rng.choice([2, 3, -1, 0, 1000]))
    else:
        sp.update(temperature=1.0, top_p=rng.choice([0.3, 1.0]))
    if rng.random() < 0.3:
        sp["stop_token_ids"] = [rng.randrange(2, V) for _ in range(rng.choice([1, 4, 12]))]
    if rng.random() < 0.2:
        sp["repetition_penalty"] = rng.choice([1.3, 0.8, 2.0])
    if rng.random() < 0.2:
        sp["frequency_penalty"] = rng.choice([0.5, 1.5])
    if rng.random() < 0.15:
        sp["presence_penalty"] = rng.choice([0.4, -0.5])
    return sp


MALFORMED = [{"max_new_tokens": "abc"}, {"temperature": float("nan")}, {"top_k": [1]}, {"repetition_penalty": 0},
             {"stop_token_ids": 5}, {"top_p": "x"}, {"temperature": {}}, ["not", "a", "dict"]]


def random_history(rng, w, nreq=None, aborts=0.0, malformed=0.0, oversize=0.0):
    """Fill a world with requests that share prefixes, repeat prompts and continue conversations."""
    cfg = w.cfg
    alpha = rng.choice([3, 6, 20])
    burst = rng.random() < 0.6
    stems = [[2 + rng.randrange(alpha) for _ in range(rng.randint(2, 14))] for _ in range(3)]
    nreq = nreq or rng.randint(3, 18)
    step = 1
    max_len = min(cfg["max_total"], cfg["context"], cfg["kv_size"])
    prompts = []
    for i in range(nreq):
        r = rng.random()
        if prompts and r < 0.15:
            p = list(rng.choice(prompts))
        elif prompts and r < 0.35:
            p = list(rng.choice(prompts)) + [2 + rng.randrange(alpha) for _ in range(rng.randint(1, 6))]
        elif r < 0.8:
            s = rng.choice(stems)
            p = s[: rng.randint(1, len(s))] + [2 + rng.randrange(alpha) for _ in range(rng.randint(0, 8))]
        else:
            p = [2 + rng.randrange(alpha) for _ in range(rng.randint(1, 3))]
        if rng.random() < oversize:
            p = p + [2 + rng.randrange(alpha) for _ in range(rng.choice([max_len - len(p) if len(p) < max_len else 0, max_len, 3]))]
        else:
            p = p[: max_len]
        images = None
        if cfg["vl"] and rng.random() < 0.5:
            k = rng.randint(1, 2)
            p = p[: max(1, max_len - 2)]
            for _ in range(k):
                p.insert(rng.randint(0, len(p)), IMG)
            images = [rng.randint(1, 5) for _ in range(k)]
            p = p[:]
        bad = rng.random() < malformed
        sp = rng.choice(MALFORMED) if bad else random_sp(rng, "greedy" if rng.random() < 0.5 else "mixed")
        if images is None:
            prompts.append(p)
        rid = f"r{i}"
        if malformed and not bad and rng.random() < 0.1:
            p = []
        w.submit(step, rid, p, sp, stream=rng.random() < 0.5, images=images, malformed=bad)
        if rng.random() < aborts:
            w.abort(step + rng.choice([0, 0, 1, 2, 4, 8]), rid)
        step += rng.choice([0, 0, 0, 1, 1, 2]) if burst else rng.choice([0, 0, 1, 1, 2, 5, 30])
    return nreq


def run_history(pid_seed, case, flavor=None, **kw):
    rng = random.Random(pid_seed * 7919 + case * 31 + 5)
    torch.manual_seed(pid_seed * 1000 + case)
    cfg = random_cfg(rng, flavor)
    cfg.update(kw.pop("cfg", {}))
    rep = Report()
    w = World(cfg, rep)
    random_history(rng, w, **kw)
    exc = None
    try:
        w.run()
    except StopLoop:
        pass
    except Exception as e:  # noqa: BLE001
        exc = e
    return w, rep, exc


def serving_check(pid, select, rule, flavors=None, n=(350, 6000), differential=(), crash=True, seedmul=1, requires=(), **kw):
    """Run random histories and report the violations this property is about.

    differential: history kwargs to switch off; violations outside `select` count
    only when the history without them does not show them."""
    C = vlib.Check(pid, rule)

    def judge(w, rep, exc, full=True):
        out = {}
        for prop, sig, msg in rep.bad:
            if prop in select or (full and differential):
                out.setdefault(f"{sig}", (prop, msg))
        if exc is not None and crash:
            import traceback
            tb = [f for f in traceback.extract_tb(exc.__traceback__) if str(f.filename).startswith(str(vlib.REPO))]
            if not tb:
                raise exc
            out[f"crash:{type(exc).__name__}:{tb[-1].name}"] = ("crash", f"{type(exc).__name__}: {exc} in {tb[-1].name}")
        return out

    def case(i):
        fl = flavors[i % len(flavors)] if flavors else None
        w, rep, exc = run_history(vlib.seed() * seedmul, i, fl, **kw)
        found = judge(w, rep, exc)
        if found and differential:
            kw2 = {k: v for k, v in kw.items() if k not in differential}
            base = judge(*run_history(vlib.seed() * seedmul, i, fl, **kw2))
            found = {s: v for s, v in found.items() if v[0] in select or s not in base}
        for sig, (prop, msg) in found.items():
            C.violation(sig, msg, {"case": i, "seed": vlib.seed(), "cfg": w.cfg,
                                   "requests": [(r, q["prompt"], q["sp"], q["stream"], q["aborted"], q["gen"], q["terminal"]) for r, q in w.reqs.items()]})
        for k, v in w.obs.items():
            C.observe(k, v)
        for k, vs in w.seen.items():
            for v in vs:
                C.seen(k, v)
        C.case(f"{i}", nontrivial=w.obs.get("decode_rows", 0) > 3,
               sample={"cfg": w.cfg, "requests": [(r, q["prompt"], q["sp"], q["gen"], q["terminal"]) for r, q in list(w.reqs.items())[:4]]} if i < 3 else None)

    def main():
        torch.set_num_threads(1)
        _imports()
        vlib.parallel(C, case, vlib.scale(*n), 7)
        for kind in ("drawn", "mixed"):
            g = lambda k: C.counters.get(f"draw_{kind}_{k}", 0)
            nd, rp = g("n"), {"kind": kind, "seed": vlib.seed()}
            if nd < 200:
                continue
            z = g("dev_u") / 1e6 / math.sqrt(g("var_u") / 1e6 + 1e-9)
            zb = (g("best") - g("best_exp_u") / 1e6) / math.sqrt(g("best_var_u") / 1e6 + 1e-9)
            if "P04" in select and max(abs(z), abs(zb)) > 8:
                C.violation(f"distribution-{kind}", f"{nd} tokens drawn by requests with a temperature ({'in batches with greedy requests' if kind == 'mixed' else 'without greedy neighbours'}) do not follow the "
                            f"requests' own distributions: {g('best')} of them are the best token, {g('best_exp_u') / 1e6:.0f} expected (z = {zb:.1f}); mean logit off by z = {z:.1f}", rp)
        for name, k in requires:
            C.require(name, k)
        C.finish()
    vlib.run_main(C, main)

"""Small serving stack for demonstrations: real scheduler, model runner, pools and
prefix cache on the CPU, with a toy model whose next token depends on every KV
entry it attends to (and on the recurrent state when hybrid)."""
import sys, types
sys.path[:0] = ["/repo", "/repo/mllm-kernel"]
import torch
import pymllm.layers.sampling as S
S._HAS_FLASHINFER = False
from pymllm.orchestrator.scheduler_process import SchedulerProcess
from pymllm.orchestrator.model_runner_process import ModelRunnerProcess
import pymllm.executor.model_runner as MR
from pymllm.engine.io_struct import TokenizedGenerateReqInput
V = 61


class Done(Exception):
    pass


def toy(tags, state=0):
    h = 0
    for t in tags:
        h = (h * 31 + t + 1) % 10007
    return 2 + (h + state) % (V - 2)


class LM(torch.nn.Module):
    def __init__(self, srv, hybrid):
        super().__init__()
        self.srv, self.hybrid = srv, hybrid
        if hybrid:
            self.num_gdn_layers, self.full_attn_layer_ids = 1, {0}

    def forward(self, input_ids, positions, fb):
        pool, r2t = fb.token_to_kv_pool, fb.req_to_token_pool.req_to_token
        ids, n = input_ids.tolist(), len(fb.req_pool_indices)
        ext = fb.extend_seq_lens.tolist() if fb.forward_mode.is_extend() else [1] * n
        out = torch.full((len(ids), V), -9.0)
        o = 0
        for i in range(n):
            slot, L = int(fb.req_pool_indices[i]), int(fb.seq_lens[i])
            st = 0
            if self.hybrid:
                rec, _ = self.srv.runner.gdn_pool.get_layer_state(0)
                st = int(rec[slot].reshape(-1)[0])
            for k in range(ext[i]):
                loc = fb.out_cache_loc[o + k: o + k + 1].to(torch.int64)
                val = torch.full((1, 1, 2), float(ids[o + k] * 100 + int(positions[o + k])))
                pool.set_kv_buffer(0, loc, val, val)
                st = (st * 7 + ids[o + k] + 1) % 65521
            if self.hybrid:
                rec[slot] = float(st)
            o += ext[i]
            row = r2t[slot, :L].to(torch.int64)
            tags = [int(x) for x in pool.get_key_buffer(0)[row].reshape(L, -1)[:, 0].tolist()]
            out[o - 1, toy(tags, st if self.hybrid else 0)] = 9.0
        return out


def alone(prompt, n, stop=(), hybrid=False):
    """What the toy model generates for the request on its own."""
    toks, out, st = [], [], 0
    for t in prompt:
        st = (st * 7 + t + 1) % 65521
        toks.append(t)
    while len(out) < n:
        t = toy([x * 100 + j for j, x in enumerate(toks)], st if hybrid else 0)
        out.append(t)
        if t in stop:
            break
        toks.append(t)
        st = (st * 7 + t + 1) % 65521
    return out


class Server:
    def __init__(self, kv=64, context=64, running=8, prefill=100, total=100000, page=1, swa=None, cache="radix", hybrid=False, eos=()):
        sc = types.SimpleNamespace(dtype="float32", context_length=context, model_path=None, max_running_requests=running,
                                   max_total_tokens=kv, mem_fraction_static=0.5, disable_cuda_graph=True,
                                   disable_radix_cache=cache == "chunk", enable_mamba_cache=cache == "mamba",
                                   radix_cache_page_size=page, decode_log_interval=0, max_prefill_tokens=prefill)
        hf = types.SimpleNamespace(vocab_size=V, num_hidden_layers=1, num_attention_heads=1, num_key_value_heads=1, head_dim=2,
                                   hidden_size=2, max_position_embeddings=context, sliding_window=swa, linear_num_key_heads=1,
                                   linear_num_value_heads=1, linear_key_head_dim=1, linear_value_head_dim=1, linear_conv_kernel_dim=4)
        mc = types.SimpleNamespace(hf_config=hf)
        r = self.runner = MR.ModelRunner(server_config=sc, model_config=mc)
        r.device, r.model = "cpu", LM(self, hybrid)
        r._extract_model_metadata()
        r.kv_cache_dtype = torch.float32
        orig = MR.make_full_attention_net_mem_pool
        MR.make_full_attention_net_mem_pool = lambda **k: orig(**{**k, "pin_memory": False})
        r.init_memory_pool()
        MR.make_full_attention_net_mem_pool = orig
        r.attn_backend = types.SimpleNamespace(init_forward_metadata=lambda fb: None)
        m = self.mrp = ModelRunnerProcess(server_config=sc, model_config=mc)
        m._runner = r
        self.cache = m._radix_cache = m._create_prefix_cache()
        self.alloc = r.token_to_kv_pool_allocator
        s = self.sched = SchedulerProcess("inproc://a", "inproc://b", server_config=sc, model_config=mc, max_running_requests=running,
                                          max_prefill_tokens=prefill, max_total_tokens=total, eos_token_ids=list(eos))
        s._model_runner = m
        self.todo, self.inbox, self.step, self.sent, self.fresh = {}, [], 0, [], False
        class Sock:
            def recv_pyobj(_s, *a):
                return self.inbox.pop(0)
        sock = Sock()
        s._recv_from_tokenizer = sock
        s._poller = types.SimpleNamespace(poll=lambda timeout=None: self._poll(sock))
        s._send_to_detokenizer = types.SimpleNamespace(send_pyobj=self.sent.append)
        s._idle_sleeper = types.SimpleNamespace(sleep=self._idle)

    def _poll(self, sock):
        if not self.fresh:
            self.fresh = True
            self.step += 1
            if self.step > 3000:
                raise Done
            self.inbox += self.todo.pop(self.step, [])
        if self.inbox:
            return [(sock, 1)]
        self.fresh = False
        return []

    def _idle(self):
        if not self.todo and not self.inbox:
            raise Done
        if not self.inbox:
            self.step = max(self.step, min(self.todo) - 1)

    def add(self, step, rid, prompt, stream=False, **sp):
        sp.setdefault("temperature", 0)
        self.todo.setdefault(step, []).append(TokenizedGenerateReqInput(rid=rid, input_ids=list(prompt), sampling_params=sp, stream=stream, mm_inputs=None))

    def abort(self, step, rid):
        self.todo.setdefault(step, []).append({"rid": rid, "abort": True})

    def run(self):
        """rid -> (finish reason, output ids); raises what the loop raises."""
        try:
            self.sched.event_loop()
        except Done:
            pass
        self.out = {}
        for m in self.sent:
            for i, rid in enumerate(m["rids"]):
                if m["finished_reasons"][i] is not None:
                    self.out[rid] = (m["finished_reasons"][i], list(m["output_ids"]))
        return self.out

    def leaked(self):
        """KV slots that are neither free nor cached once everything ended."""
        return self.alloc.size - self.alloc.available_size() - self.cache.total_size()

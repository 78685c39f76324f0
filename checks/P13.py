"""P13: HTTP answers carry exactly what the engine produced, streamed or not."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import asyncio
import json
import random
import string
from vlib import Check, parallel, run_main, scale, seed
import http_asgi as H
from pymllm.configs import get_global_config
L = H.L

c = Check("P13", "random HTTP calls (/generate, /v1/completions, /v1/chat/completions; single and batched, streamed or not, reasoning and tool-call parsers on or off, engine errors, "
          "malformed bodies) through the whole ASGI app over a scripted engine with random chunking and interleaving; the response is reassembled and compared with the engine's output, "
          "the engine call with the body; non-trivial = distinct calls")
REASON = {"eos": "stop", "stop": "stop", "length": "length", "abort": "stop"}
FIELDS = {"temperature": "temperature", "top_p": "top_p", "top_k": "top_k", "max_tokens": "max_new_tokens", "frequency_penalty": "frequency_penalty",
          "presence_penalty": "presence_penalty", "repetition_penalty": "repetition_penalty", "seed": "seed"}


class ChatTok:
    """Chat template stand-in that shows everything it was given."""
    def apply_chat_template(self, msgs, tokenize=True, add_generation_prompt=False, **kw):
        assert tokenize is False and add_generation_prompt is True
        return json.dumps([msgs, sorted(kw.items())], ensure_ascii=False, default=str)


def text(r):
    return "".join(r.choice("ab c\n日😀<>/{}\"\\t") for _ in range(r.choice([0, 1, 5, 30, 120])))


def outputs(r):
    memo = {}

    def f(prompt):
        k = repr(prompt)
        if k not in memo:
            memo[k] = (text(r), r.choice(list(REASON)), r.randrange(1, 50), r.randrange(0, 99))
        return memo[k]
    return f


def sampling(r, body):
    """Random OpenAI sampling fields; returns the parameters the engine must see."""
    exp = {}
    for f, g in FIELDS.items():
        if r.random() < .3:
            v = {"top_k": lambda: r.randrange(-1, 50), "max_tokens": lambda: r.randrange(1, 99), "seed": lambda: r.randrange(99)}.get(f, lambda: r.choice([0, 0.0, 0.5, 1.0, 2]))()
            body[f] = v
            exp[g] = v
        elif r.random() < .1:
            body[f] = None
    if r.random() < .3:
        body["stop"] = r.choice(["END", ["a", "b"], []])
        exp["stop"] = [body["stop"]] if isinstance(body["stop"], str) else body["stop"]
    return exp


def sp_equal(a, b):
    return (a or {}) == (b or {})


def check_usage(u, pairs, rep):
    p, q = sum(x[0] for x in pairs), sum(x[1] for x in pairs)
    if u != {"prompt_tokens": p, "completion_tokens": q, "total_tokens": p + q}:
        c.violation("usage", f"usage {u} for prompt tokens {p} and completion tokens {q}", rep)


def completions(r, eng, rep, failing):
    batch = r.random() < .6
    prompts = [f"p{j}" + text(r) for j in range(r.choice([1, 2, 3, 6]) if batch else 1)]
    if batch and r.random() < .15:
        prompts[-1] = prompts[0]
    body = {"prompt": prompts if batch else prompts[0], "stream": r.random() < .5}
    sp = sampling(r, body)
    if r.random() < .5:
        body["model"] = "my-model"
    usage = r.random() < .5
    if usage:
        body["stream_options"] = {"include_usage": True}
    rep["body"] = body
    st, hd, raw = yield "POST", "/v1/completions", body
    if failing:
        return (st, raw, body["stream"])
    if st != 200:
        c.violation("status", f"completions answered {st}: {raw[:200]}", rep)
        return
    want = [eng.outputs(p) for p in prompts]
    call = eng.calls[-1]
    if call["prompt"] != body["prompt"] or not sp_equal(call.get("sampling_params"), sp) or bool(call.get("stream")) != body["stream"]:
        c.violation("engine-call", f"the engine was called with {str(call)[:300]}", rep)
    model = body.get("model") or "served"
    if not body["stream"]:
        d = json.loads(raw)
        ch = d["choices"]
        if d["object"] != "text_completion" or d["model"] != model:
            c.violation("envelope", f"answer envelope {d['object']} {d['model']}", rep)
        if [x["index"] for x in ch] != list(range(len(want))) or [x["text"] for x in ch] != [w[0] for w in want]:
            c.violation("choices", f"choices {[(x['index'], x['text'][:20]) for x in ch]} for outputs {[w[0][:20] for w in want]}", rep)
        elif [x["finish_reason"] for x in ch] != [REASON[w[1]] for w in want]:
            c.violation("finish", f"finish reasons {[x['finish_reason'] for x in ch]} for {[w[1] for w in want]}", rep)
        check_usage(d["usage"], [w[2:] for w in want], rep)
        return
    evs, done, bad = H.sse(raw)
    if bad or not done:
        c.violation("sse", f"malformed event stream: {bad[:1]} done={done}", rep)
    got, fins = ["" for _ in want], [[] for _ in want]
    if len({e.get("id") for e in evs}) > 1:
        c.violation("stream-id", "the id changes within one stream", rep)
    us = [e for e in evs if not e.get("choices")]
    for e in evs:
        for x in e.get("choices", []):
            k = x["index"]
            if not 0 <= k < len(want):
                c.violation("choices", f"index {k} of {len(want)}", rep)
                return
            if fins[k]:
                c.violation("after-finish", f"choice {k} goes on after its finish reason", rep)
            got[k] += x["text"]
            if x["finish_reason"] is not None:
                fins[k].append(x["finish_reason"])
        if e.get("model") != model:
            c.violation("envelope", f"model {e.get('model')}", rep)
    if got != [w[0] for w in want]:
        c.violation("stream-text", f"streamed {[g[:30] for g in got]} for outputs {[w[0][:30] for w in want]}", rep)
    if fins != [[REASON[w[1]]] for w in want]:
        c.violation("finish", f"streamed finish reasons {fins} for {[w[1] for w in want]}", rep)
    if usage != bool(us) or len(us) > 1 or (us and evs[-1] is not us[0]):
        c.violation("usage-chunk", f"{len(us)} usage chunks, asked: {usage}", rep)
    elif us:
        check_usage(us[0]["usage"], [w[2:] for w in want], rep)


def native(r, eng, rep, failing):
    kind = r.choice(["text", "texts", "ids", "idss"])
    n = r.choice([1, 2, 3, 5])
    body = {"stream": r.random() < .5}
    if kind == "text":
        body["text"] = "q" + text(r)
    elif kind == "texts":
        body["text"] = [f"q{j}" + text(r) for j in range(n)]
    elif kind == "ids":
        body["input_ids"] = [r.randrange(99) for _ in range(n)]
    else:
        body["input_ids"] = [[j, r.randrange(99)] for j in range(n)]
    many = kind in ("texts", "idss")
    if r.random() < .5:
        body["rid"] = [f"rid{j}" for j in range(n)] if many else "rid0"
    for f, v in {"sampling_params": {"temperature": 0.3}, "image_data": "img", "return_logprob": True, "top_logprobs_num": 2, "logprob_start_len": 0,
                 "lora_path": "l", "session_params": {"a": 1}, "audio_data": ["x"] * n, "some_option": 5}.items():
        if r.random() < .3:
            body[f] = v
    rep["body"] = body
    st, hd, raw = yield "POST", "/generate", body
    if failing:
        return (st, raw, body["stream"])
    if st != 200:
        c.violation("status", f"generate answered {st}: {raw[:200]}", rep)
        return
    call = dict(eng.calls[-1])
    prompt = body.get("text", body.get("input_ids"))
    if call.pop("prompt", call.pop("input_ids", None)) != prompt:
        c.violation("engine-call", f"prompt changed: {str(eng.calls[-1])[:300]}", rep)
    call.pop("input_ids", None)
    for f, v in body.items():
        if f not in ("text", "input_ids") and call.get(f) != v:
            c.violation("engine-call", f"{f}={v!r} reached the engine as {call.get(f)!r}", rep)
    if set(call) - set(body) - {"rid"}:
        c.violation("engine-call", f"the engine got extra arguments {set(call) - set(body)}", rep)
    rids = call["rid"]
    want = {x: eng.outputs(p) for x, p in zip(rids if many else [rids], prompt if many else [prompt])}
    if not body["stream"]:
        d = json.loads(raw)
        lst = d if isinstance(d, list) else [d]
        if [x["rid"] for x in lst] != list(want) or [x["text"] for x in lst] != [w[0] for w in want.values()]:
            c.violation("results", f"results {[(x['rid'], x['text'][:20]) for x in lst]} for {[(k, w[0][:20]) for k, w in want.items()]}", rep)
        for x in lst:
            w = want.get(x["rid"])
            if w and (x["finished_reason"], x["prompt_tokens"], x["completion_tokens"]) != w[1:]:
                c.violation("result-fields", f"result {str(x)[:200]} for {w[1:]}", rep)
        return
    evs, done, bad = H.sse(raw)
    if bad or not done:
        c.violation("sse", f"malformed event stream: {bad[:1]} done={done}", rep)
    for x, w in want.items():
        mine = [e for e in evs if e.get("rid") == x]
        if "".join(e["delta"] for e in mine) != w[0]:
            c.violation("stream-text", f"{x} streamed {[e['delta'] for e in mine][:6]} for {w[0]!r:.60}", rep)
        if [e["finished_reason"] for e in mine if e["finished"]] != [w[1]] or not mine[-1]["finished"]:
            c.violation("finish", f"{x}: terminal events {[e['finished_reason'] for e in mine if e['finished']]} for {w[1]}", rep)
    if any(e.get("rid") not in want for e in evs):
        c.violation("results", "an event for another rid", rep)


def chat_output(r, think, tools):
    """A model output with its reasoning, content and tool calls, by construction."""
    plain = lambda n: "".join(r.choice("abc \n日😀.,") for _ in range(n))  # noqa: E731
    reasoning, content, calls, out = None, "", [], ""
    if think and r.random() < .8:
        reasoning = plain(r.choice([3, 20])).strip() or "z"
        out += f"<think>\n{reasoning}\n</think>\n\n"
    content = plain(r.choice([0, 4, 30])).strip()
    out += content
    if tools and r.random() < .7:
        for _ in range(r.choice([1, 1, 2, 3])):
            args = {"".join(r.choice(string.ascii_letters) for _ in range(3)): r.choice([1, "x", "日\"}", {"a": ["<b>", 2]}, None, True]) for _ in range(r.randrange(3))}
            name = r.choice(["get_weather", "f", "search"])
            calls.append((name, args))
            out += "\n<tool_call>\n" + json.dumps({"name": name, "arguments": args}, ensure_ascii=False) + "\n</tool_call>"
    if not calls and r.random() < .3:      # what could still have become a tag when the model stopped
        tail = r.choice(["<", "<tool", "<tool_call", "<tool_call>", "</", "<thin", "x <"])
        content += tail
        out += tail
    return out, reasoning, content, calls


def chat(r, eng, rep, failing):
    cfg = get_global_config().server
    cfg.reasoning_parser = r.choice([None, "qwen3"])
    cfg.tool_call_parser = r.choice([None, "qwen25", "hermes"])
    msgs, images, shown = [], [], []
    L._model_architectures = r.choice([None, ["Qwen3VLForConditionalGeneration"], ["Qwen3_5ForConditionalGeneration"]])
    vl = bool(L._model_architectures and "Qwen3VL" in L._model_architectures[0])
    for j in range(r.randrange(1, 5)):
        role = r.choice(["user", "system", "assistant"])
        if r.random() < .3:
            parts, sp = [], []
            for _ in range(r.randrange(1, 4)):
                if r.random() < .5:
                    t = f"t{text(r)}"
                    parts.append({"type": "text", "text": t})
                    sp.append({"type": "text", "text": t})
                else:
                    u = f"http://x/{r.randrange(99)}.png"
                    parts.append({"type": "image_url", "image_url": {"url": u}})
                    sp.append({"type": "image", "image": u} if vl else {"type": "image_url", "image_url": {"url": u}})
                    images.append(u)
            msgs.append({"role": role, "content": parts})
            shown.append({"role": role, "content": sp})
        else:
            t = text(r)
            msgs.append({"role": role, "content": t})
            shown.append({"role": role, "content": t})
    tools = r.random() < .6
    body = {"messages": msgs, "stream": r.random() < .6}
    if tools:
        body["tools"] = [{"type": "function", "function": {"name": "f", "parameters": {}}}]
    if r.random() < .2:
        body["separate_reasoning"] = False
    sep = body.get("separate_reasoning", True) and bool(cfg.reasoning_parser)
    tc = bool(cfg.tool_call_parser and tools)
    sp = sampling(r, body)
    if r.random() < .3:
        body["max_completion_tokens"] = 11
        sp["max_new_tokens"] = 11
    kw = {}
    if r.random() < .3:
        kw = {"enable_thinking": False} if r.random() < .5 else {"foo": 1}
        body["chat_template_kwargs"] = kw
    if cfg.reasoning_parser:
        kw = {"enable_thinking": True} | kw
    usage = r.random() < .5
    if usage:
        body["stream_options"] = {"include_usage": True}
    out, reasoning, content, calls = chat_output(r, r.random() < .7, r.random() < .7)
    reason, pt, ct = r.choice(["eos", "stop", "length"]), 9, 17
    eng.outputs = lambda prompt: (out, reason, pt, ct)
    rep["body"], rep["output"] = body, out
    st, hd, raw = yield "POST", "/v1/chat/completions", body
    if failing:
        return (st, raw, body["stream"])
    if st != 200:
        c.violation("status", f"chat answered {st}: {raw[:200]}", rep)
        return
    call = eng.calls[-1]
    want_prompt = ChatTok().apply_chat_template(shown, tokenize=False, add_generation_prompt=True, **kw)
    if call["prompt"] != want_prompt:
        c.violation("chat-prompt", f"rendered from {call['prompt'][:300]}, asked for {want_prompt[:300]}", rep)
    if not sp_equal(call.get("sampling_params"), sp) or call.get("image_data") != (images or None) or bool(call.get("stream")) != body["stream"]:
        c.violation("engine-call", f"the engine was called with {str({k: v for k, v in call.items() if k != 'prompt'})[:300]} for {sp}, {images}", rep)
    # what the answer must be made of
    has_think = reasoning is not None
    exp_reason = reasoning if sep and has_think else None
    exp_calls = calls if tc else []
    squash = lambda s: "".join((s or "").split())  # noqa: E731
    rest = content
    if calls and not tc:
        rest = content + out[out.index("\n<tool_call>"):]
    if has_think and not sep:
        rest = f"<think>{reasoning}</think>" + rest
    if not body["stream"]:
        d = json.loads(raw)
        m, fin = d["choices"][0]["message"], d["choices"][0]["finish_reason"]
        got_r, got_c = m.get("reasoning_content"), m.get("content")
        got_t = [(t["function"]["name"], t["function"]["arguments"]) for t in m.get("tool_calls") or []]
        ids = [t.get("id") for t in m.get("tool_calls") or []]
        check_usage(d["usage"], [(pt, ct)], rep)
        if len(d["choices"]) != 1 or m["role"] != "assistant" or d["object"] != "chat.completion":
            c.violation("envelope", f"answer {str(d)[:200]}", rep)
    else:
        evs, done, bad = H.sse(raw)
        if bad or not done:
            c.violation("sse", f"malformed event stream: {bad[:1]} done={done}", rep)
        got_r, got_c, fins, acc, ids = "", "", [], {}, []
        us = [e for e in evs if not e.get("choices")]
        if not evs or evs[0]["choices"][0]["delta"] != {"role": "assistant"}:
            c.violation("role", "the stream does not start with the role", rep)
        for e in evs:
            for x in e.get("choices", []):
                if fins:
                    c.violation("after-finish", "the stream goes on after its finish reason", rep)
                dl = x["delta"]
                got_r += dl.get("reasoning_content") or ""
                got_c += dl.get("content") or ""
                for t in dl.get("tool_calls", []):
                    a = acc.setdefault(t["index"], {"name": None, "args": ""})
                    if t.get("id"):
                        ids.append(t["id"])
                    f = t["function"]
                    if f.get("name"):
                        if a["name"]:
                            c.violation("tool-name-twice", f"call {t['index']} named twice", rep)
                        a["name"] = f["name"]
                    a["args"] += f.get("arguments") or ""
                if x["finish_reason"] is not None:
                    fins.append(x["finish_reason"])
        got_t = [(acc[k]["name"], acc[k]["args"]) for k in sorted(acc)]
        if sorted(acc) != list(range(len(acc))):
            c.violation("tool-index", f"tool call indices {sorted(acc)}", rep)
        fin = fins[0] if len(fins) == 1 else fins
        if usage != bool(us) or (us and evs[-1] is not us[0]):
            c.violation("usage-chunk", f"{len(us)} usage chunks, asked: {usage}", rep)
        elif us:
            check_usage(us[0]["usage"], [(pt, ct)], rep)
    c.observe("chats")
    if squash(got_r) != squash(exp_reason):
        c.violation("reasoning", f"reasoning {got_r!r:.200} for {exp_reason!r:.200} (stream={body['stream']})", rep)
    if squash(got_c) != squash(rest):
        c.violation("content", f"content {got_c!r:.200} for {rest!r:.200} (stream={body['stream']})", rep)
    try:
        parsed = [(n, json.loads(a or "{}")) for n, a in got_t]
    except ValueError:
        parsed = got_t
    if parsed != exp_calls:
        c.violation("tool-calls", f"tool calls {str(got_t)[:200]} for {str(exp_calls)[:200]} (stream={body['stream']})", rep)
    if len(set(ids)) != len(exp_calls):
        c.violation("tool-ids", f"{len(set(ids))} distinct call ids for {len(exp_calls)} calls", rep)
    if fin != ("tool_calls" if exp_calls else REASON[reason]):
        c.violation("finish", f"finish {fin} for {reason}, {len(exp_calls)} calls", rep)


BAD = [("/v1/completions", {"prompt": "x", "n": 2}, {400}), ("/v1/completions", {"prompt": "x", "echo": True}, {400}), ("/v1/completions", {"prompt": "x", "logprobs": 3}, {400}),
       ("/v1/completions", {}, {422}), ("/v1/completions", {"prompt": 5}, {422}), ("/v1/completions", {"prompt": "x", "temperature": "hot"}, {422}),
       ("/v1/chat/completions", {"messages": [{"role": "user", "content": "x"}], "n": 3}, {400}), ("/v1/chat/completions", {"messages": [{"role": "user", "content": "x"}], "logprobs": True}, {400}),
       ("/v1/chat/completions", {"messages": "x"}, {422}), ("/generate", {"text": {"a": 1}}, {422}), ("/generate", {"input_ids": ["x", [1]]}, {422}),
       ("/abort_request", {}, {400}), ("/abort_request", {"rid": 7}, {422}), ("/flush_cache", {}, {501}), ("/nowhere", {}, {404})]


async def other(r, eng, rep):
    k = r.random()
    if k < .5:
        path, body, ok = r.choice(BAD)
        rep["body"] = [path, body]
        st, _, raw = await H.call("POST", path, body)
        if st not in ok or eng.calls:
            c.violation("bad-request", f"{path} {body} answered {st} ({len(eng.calls)} engine calls)", rep)
        c.observe("bad_requests")
    elif k < .6:
        st, _, _ = await H.call("POST", r.choice(["/generate", "/v1/completions", "/v1/chat/completions"]), raw=r.choice([b"", b"{", b"[1]", b"\xff\xfe"]))
        if st not in (400, 422) or eng.calls:
            c.violation("bad-request", f"malformed body answered {st}", rep)
    elif k < .7:
        st, _, _ = await H.call("POST", "/abort_request", {"rid": "r9"})
        if st != 200 or eng.aborts != ["r9"]:
            c.violation("abort", f"abort answered {st}, forwarded {eng.aborts}", rep)
    elif k < .85:
        st, _, raw = await H.call("GET", "/v1/models")
        d = json.loads(raw)
        s2, _, _ = await H.call("GET", "/v1/models/served")
        s3, _, _ = await H.call("GET", "/v1/models/other")
        if st != 200 or [m["id"] for m in d["data"]] != ["served"] or s2 != 200 or s3 != 404:
            c.violation("models", f"model listing {st} {d} {s2} {s3}", rep)
    else:
        for healthy, p in ((True, 200), (False, 503)):
            eng.is_healthy = healthy
            for u in ("/health", "/health_generate"):
                st, _, _ = await H.call("GET", u)
                if st != p:
                    c.violation("health", f"{u} answered {st} with engine healthy={healthy}", rep)
        get_global_config().server.api_key = None
        st, _, raw = await H.call("GET", "/server_info")
        if st != 200 or b"api_key" in raw:
            c.violation("info", f"server_info answered {st}, secrets shown: {b'api_key' in raw}", rep)


def one(i):
    r = random.Random(seed() * 1000003 + i)
    cfg = get_global_config().server
    cfg.served_model_name, cfg.model_path, cfg.tokenizer_path, cfg.api_key, cfg.enable_debug_timing = "served", "m", "t", None, False
    L._tokenizer = ChatTok()
    kind = r.choice([completions, native, chat, chat, "other"])
    eng = H.Engine(r, outputs(r))
    L._engine = eng
    rep = {"case": i, "seed": seed()}
    try:
        if kind == "other":
            asyncio.run(other(r, eng, rep))
            c.case(repr(rep), sample=rep.get("body"))
            return
        failing = None
        if r.random() < .12:
            ex, code = r.choice([(ValueError("bad rid"), 400), (RuntimeError("Server overloaded: too many queued requests"), 429), (RuntimeError("secret boom"), 500), (KeyError("secret"), 500)])
            failing = (r.choice([0, 0, 1]), ex, code)
            eng.fail = failing[:2]
        g = kind(r, eng, rep, failing)
        req = next(g)

        async def go():
            return await H.call(*req)
        try:
            res = asyncio.run(go())
        except Exception as e:  # noqa: BLE001
            c.exception(e, f"http {req[1]}", rep)
            return
        c.case(json.dumps(rep["body"], sort_keys=True)[:1500], sample={"path": req[1], "stream": rep["body"].get("stream")})
        c.observe("requests")
        ret = None
        try:
            g.send(res)
        except StopIteration as e:
            ret = e.value
        if eng.open:
            c.violation("generator-left", "the engine's generator was left open", rep)
        if failing and ret:
            st, raw, stream = ret
            c.observe("engine_errors")
            if b"secret" in raw:
                c.violation("error-leak", f"an internal error message was shown: {raw[:200]}", rep)
            reached = failing[0] < len(eng.calls) if failing[0] == 0 else True
            if stream:
                evs, done, bad = H.sse(raw)
                if bad or not done or (reached and failing[0] == 0 and not any("error" in e for e in evs)):
                    c.violation("stream-error", f"an engine error in a stream was answered {raw[-200:]}", rep)
            elif failing[0] == 0 and st != failing[2]:
                c.violation("error-status", f"{failing[1]!r} answered with {st}", rep)
            elif st == 200 and failing[0] == 0:
                c.violation("error-status", f"{failing[1]!r} answered with 200", rep)
    except (KeyError, IndexError, TypeError, json.JSONDecodeError) as e:
        # the answer does not have the documented shape
        c.violation(f"shape:{type(e).__name__}", f"answer cannot be read: {e!r}", rep)


def main():
    parallel(c, one, scale(4000, 120000), workers=8)
    c.require("requests", 2000)
    c.require("chats", 800)
    c.require("engine_errors", 100)
    c.finish()


run_main(c, main)

"""P16: tool calls are extracted whole and in order, streamed or not."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import json
import random
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, run_main, scale, seed
from pymllm.parsers import ToolCallParser

c = Check("P16", "random model outputs with 0-4 generated tool calls per format between ordinary text, cut into random chunks, and broken "
          "outputs; judged against the calls that were generated; non-trivial = distinct outputs with at least one call")
FMT = {"qwen25": ("<tool_call>\n", "\n</tool_call>"), "hermes": ("<tool_call>\n", "\n</tool_call>"),
       "llama3": ("<|python_tag|>", ""), "qwen3_coder": ("<tool_call>", "</tool_call>")}
STR = ["x", "a}b", "{", '"q', "\\", "</tool", "</tool_call>x", "日本", "\n", "", "<tool_call>", "name", "}}", "é\t"]


def val(r, d=0):
    k = r.randrange(7 if d < 3 else 5)
    if k == 0:
        return r.randrange(-5, 99)
    if k == 1:
        return r.choice(STR)
    if k == 2:
        return r.choice([None, True, False])
    if k == 3:
        return r.choice([1.5, 1e10, -0.25])
    if k == 4:
        return "".join(r.choice("ab{}[]\",:\\ ") for _ in range(r.randrange(12)))
    if k == 5:
        return [val(r, d + 1) for _ in range(r.randrange(3))]
    return {r.choice("abc") + str(i): val(r, d + 1) for i in range(r.randrange(3))}


def one_call(r, model, i):
    """(text between the tags, name, arguments)"""
    name = r.choice(["f", "get_weather", "a.b", "z-%d" % i])
    if model == "qwen3_coder":
        args, body = {}, r.choice(["", "\n"]) + f"<function={name}>" + r.choice(["", "\n"])
        for k in r.sample(["city", "n", "deep", "flag"], r.randrange(4)):
            v = r.choice([lambda: r.choice(["Paris", "two words", "a<b", "日本", "{not json", "x}y"]), lambda: r.randrange(99), lambda: {"a": [1, 2]}, lambda: True])()
            args[k] = v
            ws = r.choice(["", "\n"])
            body += f"<parameter={k}>{ws}{v if isinstance(v, str) else json.dumps(v)}{ws}"
            body += "</parameter>" if r.random() < .85 else ""
            body += r.choice(["", "\n"])
        body += "</function>" + r.choice(["", "\n"])
        return body, name, args
    args = {k: val(r) for k in r.sample(["name", "x", "arguments", "y", "parameters"], r.randrange(4))}
    items = [("name", name), (r.choice(["arguments", "parameters"]), json.dumps(args) if r.random() < .1 else args)]    # (or as the text of an object)
    if r.random() < .2:
        items.reverse()
    if r.random() < .1:
        items.insert(1, ("id", "c1"))
    return json.dumps(dict(items), ensure_ascii=r.random() < .5, indent=r.choice([None, None, 1]),
                      separators=r.choice([None, (",", ":")])), name, args


def cut(r, t):
    mode = r.randrange(4)
    if mode == 0:
        return list(t)
    if mode == 1:
        return [t] if t else []
    out = []
    while t:
        k = r.choice([1, 1, 2, 3, 5, 9, 30])
        out.append(t[:k])
        t = t[k:]
    return out


def stream(model, chunks):
    p = ToolCallParser(model)
    content, calls, n = "", {}, 0
    def put(items):
        nonlocal n
        for it in items:
            n += 1
            d = calls.setdefault(it.index, dict(names=[], ids=[], args="", order=len(calls)))
            if it.name is not None:
                if d["args"]:
                    d["late"] = True
                d["names"].append(it.name); d["ids"].append(it.tool_call_id)
            d["args"] += it.arguments or ""
            o = it.to_openai_dict()
            if o["index"] != it.index or not isinstance(o["function"]["arguments"], str):
                d["bad"] = o
    for x in chunks:
        a, b = p.parse_stream_chunk(x)
        content += a
        put(b)
    a, b = p.flush()
    content += a
    put(b)
    return content, calls, n


def one(i):
    r = random.Random(seed() * 1000003 + i)
    for _ in range(120):
        model = r.choice(sorted(FMT))
        bot, end = FMT[model]
        broken = r.random() < .15
        text = content = r.choice(["", "", "hi <tool ", "<", "text\n", "<|python", "1 < 2"])
        want = []
        for k in range(r.choice([0, 1, 1, 2, 3, 4]) if end else r.choice([0, 1, 1])):
            body, name, args = one_call(r, model, k)
            if "</tool_call>" in body and model != "llama3" and end in body:
                continue
            if model == "qwen3_coder" and bot in body:
                continue
            want.append((name, args))
            text += bot + body + end
            if end:
                tail = r.choice(["\n", "", " then <tool_", "<", "\nok\n", "</tool_call"])
                text += tail
                content += tail
        if broken:
            text = r.choice([lambda: text[:r.randrange(len(text) + 1)], lambda: bot + r.choice(["[1]", "7", '"s"', "null", "{}", '{"name": 3}', "{\"name\"", "x"]) + end,
                             lambda: bot + text, lambda: text + bot])()
        rep = {"model": model, "text": text}
        if any(b == bot[:len(b)] for b in ()):
            continue
        c.case(model + text, nontrivial=bool(want), sample=f"{model}: {text!r}" if want else None)
        try:
            p = ToolCallParser(model)
            nc, ncalls = p.parse_non_stream(text)
            c.observe("non_stream")
            got = [(x.name, json.loads(x.arguments)) for x in ncalls]
            if not broken:
                if got != want or [x.index for x in ncalls] != list(range(len(want))):
                    c.violation("non-stream-calls", f"{model}: {text!r} -> calls {got}, expected {want}", rep)
                if nc.strip() != content.strip():
                    c.violation("non-stream-content", f"{model}: {text!r} -> content {nc!r}, expected {content!r}", rep)
            if len({x.tool_call_id for x in ncalls}) != len(ncalls) or any(not x.tool_call_id for x in ncalls):
                c.violation("ids", f"{model}: call ids {[x.tool_call_id for x in ncalls]}", rep)
            c.observe("calls", len(want))
            for _ in range(3):
                ch = cut(r, text)
                sc, calls, n = stream(model, ch)
                c.observe("streams")
                c.observe("call_items", n)
                if broken:
                    # what a whole-text parse finds must also be streamed; content is the same
                    if sc.strip() != nc.strip():
                        c.violation("broken-content", f"{model}: {text!r} in chunks {ch} -> content {sc!r}, whole-text parse {nc!r}", dict(rep, chunks=ch))
                    seen = []
                    for k in sorted(calls):
                        try:
                            seen.append((calls[k]["names"][0], json.loads(calls[k]["args"])))
                        except Exception:  # noqa: BLE001
                            pass
                    if any(g not in seen for g in got):
                        c.violation("broken-calls", f"{model}: {text!r} in chunks {ch} -> {seen}, whole-text parse {got}", dict(rep, chunks=ch))
                    continue
                if sc.strip() != content.strip():
                    c.violation("stream-content", f"{model}: {text!r} in chunks {ch} -> content {sc!r}, expected {content!r}", dict(rep, chunks=ch))
                if sorted(calls) != list(range(len(want))):
                    c.violation("stream-count", f"{model}: {text!r} in chunks {ch} -> call indices {sorted(calls)}, expected {len(want)} calls", dict(rep, chunks=ch))
                    continue
                for k, (name, args) in enumerate(want):
                    d = calls[k]
                    c.seen("pieces", len(d["args"]))
                    try:
                        ga = json.loads(d["args"])
                    except ValueError:
                        ga = "unparsable"
                    if d["names"] != [name] or ga != args or d.get("late") or d.get("bad") or d["order"] != k or not d["ids"][0]:
                        c.violation("stream-call", f"{model}: {text!r} in chunks {ch} -> call {k} = {d}, expected {name} {args}", dict(rep, chunks=ch))
        except Exception as e:  # noqa: BLE001
            c.exception(e, "parser", rep)


def main():
    parallel(c, one, scale(100, 2000))
    c.require("streams", 1000)
    c.require("calls", 1000)
    c.finish()


run_main(c, main)

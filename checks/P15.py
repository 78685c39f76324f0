"""P15: reasoning is separated from content the same way however the text arrives."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import random
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, run_main, scale, seed
from pymllm.parsers import ReasoningParser

c = Check("P15", "random model outputs built from text, whole, broken and repeated tags, cut into random chunks and parsed by the real "
          "parser; non-trivial = distinct (parser, text) whose text holds a tag or a piece of one")
TAGS = {"deepseek-r1": ("<think>", "</think>", True), "qwen3": ("<think>", "</think>", False),
        "qwen3-thinking": ("<think>", "</think>", True), "glm45": ("<think>", "</think>", False),
        "kimi": ("\u25c1think\u25b7", "\u25c1/think\u25b7", False)}


def gen_text(r, start, end, force):
    pieces = ["hello", " ", "\n", "<", "</", "a<b", "think", ">", "日本", "", "x" * 12, start[:-1], end[:-1], end[:3], start[:2], "<thinking>"]
    bit = lambda: "".join(r.choice(pieces) for _ in range(r.randrange(0, 5)))
    kind = r.randrange(6)
    if kind == 0:      # well formed
        return (bit() if not force else r.choice(["", "", "\n"])) + (start if not force or r.random() < .5 else "") + bit() + end + bit()
    if kind == 1:      # never ends
        return (start if r.random() < .7 else "") + bit()
    if kind == 2:      # tag soup
        return "".join(r.choice([start, end, bit()]) for _ in range(r.randrange(1, 7)))
    if kind == 3:      # breaks off inside a tag
        t = bit() + start + bit() + end
        return t[:r.randrange(len(t) + 1)]
    if kind == 4:
        return bit() + start + bit() + end + bit() + start + bit() + end
    return bit()


def cut(r, t):
    mode = r.randrange(4)
    if mode == 0:
        return list(t)
    if mode == 1:
        return [t] if t else []
    out = []
    while t:
        k = r.choice([1, 1, 2, 3, 5, 8, 13])
        out.append(t[:k])
        t = t[k:]
        if r.random() < .1:
            out.append("")
    return out


def reference(t, start, end, force):
    """(reasoning or None, content) of a complete output."""
    if force:
        lead = t.lstrip()
        i = (len(t) - len(lead) + len(start)) if lead.startswith(start) else 0
        head = ""
    else:
        i = t.find(start)
        if i < 0:
            return None, t
        head, i = t[:i], i + len(start)
    j = t.find(end, i)
    if j < 0:
        return t[i:], head
    return t[i:j], head + t[j + len(end):]


def stream(model, chunks, sr=True):
    p = ReasoningParser(model, stream_reasoning=sr)
    rs, cs, order = [], [], []
    for d in chunks:
        a, b = p.parse_stream_chunk(d)
        rs.append(a); cs.append(b)
    a, b = p.flush()
    rs.append(a); cs.append(b)
    return rs, cs


def one(i):
    r = random.Random(seed() * 1000003 + i)
    for _ in range(200):
        model = r.choice(sorted(TAGS))
        start, end, force = TAGS[model]
        t = gen_text(r, start, end, force)
        ref_r, ref_c = reference(t, start, end, force)
        c.case(model + t, nontrivial=any(x in t for x in ("<", start[0])),
               sample=f"{model}: {t!r} -> {ref_r!r} | {ref_c!r}" if ref_r and len(c.samples) < 3 else None)
        rep = {"model": model, "text": t}
        try:
            a, b = ReasoningParser(model).parse_non_stream(t)
            c.observe("non_stream")
            if (a or "") != (ref_r or "").strip() or b.strip() != ref_c.strip():
                c.violation("non-stream", f"{model}: {t!r} parsed as reasoning {a!r} content {b!r}, expected {ref_r!r} / {ref_c!r}", rep)
            for _ in range(3):
                ch = cut(r, t)
                for sr in (True, False):
                    rs, cs = stream(model, ch, sr)
                    c.observe("streams")
                    c.observe("chunks", len(ch))
                    if "".join(rs) != (ref_r or "") or "".join(cs) != ref_c:
                        c.violation("stream" if sr else "stream-buffered", f"{model}: {t!r} in chunks {ch} gave reasoning {''.join(rs)!r} "
                                    f"content {''.join(cs)!r}, expected {ref_r!r} / {ref_c!r}", dict(rep, chunks=ch, stream_reasoning=sr))
                    if not sr and sum(1 for x in rs if x) > 1:
                        c.violation("buffered-pieces", f"{model}: stream_reasoning=False delivered reasoning in pieces {rs}", dict(rep, chunks=ch))
                    if sr and ref_r:
                        # timeliness: text that cannot be part of a tag is not held back
                        p = ReasoningParser(model)
                        fed = got = 0
                        for d in ch:
                            x, y = p.parse_stream_chunk(d)
                            fed += len(d); got += len(x) + len(y)
                            if fed - got > len(start) + len(end) + max(len(start), len(end)) + len(t) - len(t.lstrip()):
                                c.violation("held-back", f"{model}: {fed - got} characters withheld after {ch}", dict(rep, chunks=ch))
                                break
                            c.seen("held", fed - got)
        except Exception as e:  # noqa: BLE001
            c.exception(e, "parser", rep)


def main():
    parallel(c, one, scale(200, 3000))
    c.require("streams", 1000)
    c.finish()


run_main(c, main)

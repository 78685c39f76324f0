"""P10: streamed text adds up to the decoded output of the request, whoever else is streaming."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import random
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, run_main, scale, seed
from tokenizers import Tokenizer, decoders, models, pre_tokenizers, AddedToken
from transformers import PreTrainedTokenizerFast
from pymllm.orchestrator.detokenizer_process import DetokenizerProcess

c = Check("P10", "random interleavings of requests streaming token ids (multi-byte characters cut anywhere, invalid bytes, replacement characters, special tokens, "
          "empty deltas, reused ids after an abort or an end) through the real detokenizer loop with a real byte-level BPE tokenizer; "
          "deltas and terminal text compared with decoding the whole output; non-trivial = distinct histories",
          ["The tokenizer's decoding is append-only apart from incomplete characters (byte-level BPE, no space clean-up), as for all models this engine serves."])


def make_tokenizer():
    al = sorted(pre_tokenizers.ByteLevel.alphabet())
    vocab = {ch: i for i, ch in enumerate(al)}
    merges = []
    probe = pre_tokenizers.ByteLevel(add_prefix_space=False)
    for w in ["ab", " the", "日本", "é", "😀", "\ufffd", "\n\n", "的"]:
        s = "".join(p for p, _ in probe.pre_tokenize_str(w))
        acc = s[0]
        for ch in s[1:]:
            if (acc, ch) not in merges and acc + ch not in vocab:
                merges.append((acc, ch))
                vocab[acc + ch] = len(vocab)
            acc += ch
    t = Tokenizer(models.BPE(vocab=vocab, merges=merges))
    t.pre_tokenizer = probe
    t.decoder = decoders.ByteLevel()
    t.add_special_tokens([AddedToken("<eos>", special=True), AddedToken("<|im_end|>", special=True)])
    t.add_tokens([AddedToken("<think>", special=False)])
    return PreTrainedTokenizerFast(tokenizer_object=t, clean_up_tokenization_spaces=False, eos_token="<eos>")


TOK = make_tokenizer()
N = len(TOK)
WORDS = ["hello", " the", "日本語", "😀", "👨‍👩‍👧", "é", "ñ", "\n", "  ", "\ufffd", "\ufffd\ufffd", "a\u0301", "𝒳", "<eos>", "<think>", "</x>", "\x00", "中"]


def ids_for(r):
    out = []
    for _ in range(r.randrange(0, 14)):
        k = r.random()
        if k < .55:
            out += TOK.encode(r.choice(WORDS), add_special_tokens=False)
        elif k < .7:
            w = TOK.encode(r.choice(WORDS), add_special_tokens=False)
            out += w[:r.randrange(1, len(w) + 1)]
        else:
            out.append(r.randrange(N))
    return out


class Done(Exception):
    pass


class Src:
    def __init__(self, msgs):
        self.msgs = iter(msgs)

    def recv_pyobj(self):
        try:
            return next(self.msgs)
        except StopIteration:
            raise Done from None


class Sink:
    def __init__(self):
        self.out = []

    def send_pyobj(self, m):
        self.out.append(m)


def history(r):
    """Messages as the scheduler sends them, with the generation each belongs to."""
    msgs, live, gens = [], {}, []
    for _ in range(r.randrange(3, 60)):
        if len(live) < 5 and r.random() < .3:
            rid = r.choice("abcdef")
            if rid in live:
                continue
            g = dict(rid=rid, ids=ids_for(r), sent=0, deltas=[], skip=r.random() < .7, n=len(gens), end=r.choice(["eos", "length", "stop", "abort"]))
            gens.append(g)
            live[rid] = g
        elif live:
            rid = r.choice(list(live))
            g = live[rid]
            if r.random() < .08:
                del live[rid]         # aborted: no further message
                g["aborted"] = True
                continue
            step = r.choice([0, 1, 1, 1, 2, 7])
            new = min(len(g["ids"]), g["sent"] + step)
            fin = new == len(g["ids"]) and r.random() < .5
            if new == g["sent"] and not fin and g["ids"][:new]:
                continue
            msgs.append((g, {"rids": [rid], "finished_reasons": [g["end"] if fin else None], "decode_ids": g["ids"][g["sent"]:new], "read_offsets": [g["sent"]],
                             "output_ids": list(g["ids"][:new]), "skip_special_tokens": [g["skip"]], "prompt_tokens": [len(g["ids"]) + 3], "completion_tokens": [new]}))
            g["sent"] = new
            if fin:
                del live[rid]
                g["done"] = True
    return msgs, gens


def one(i):
    r = random.Random(seed() * 1000003 + i)
    msgs, gens = history(r)
    d = DetokenizerProcess("", "")
    d._tokenizer = TOK
    d._recv_from_scheduler = Src([m for _, m in msgs])
    d._send_to_rr = sink = Sink()
    rep = {"case": i, "seed": seed(), "messages": [{k: m[k] for k in ("rids", "output_ids", "read_offsets", "finished_reasons", "skip_special_tokens")} for _, m in msgs]}
    try:
        d.event_loop()
    except Done:
        pass
    except Exception as e:  # noqa: BLE001
        c.exception(e, "detokenize", rep)
        return
    c.case(repr(rep["messages"])[:600], len(msgs) > 2, sample=rep["messages"][0] if msgs else None)
    if len(sink.out) != len(msgs):
        c.violation("count", f"{len(msgs)} messages in, {len(sink.out)} out", rep)
        return
    for (g, m), o in zip(msgs, sink.out):
        c.observe("messages")
        if o.get("rid") != g["rid"] or list(o.get("output_token_ids")) != m["output_ids"] or o.get("prompt_tokens") != m["prompt_tokens"][0] or o.get("completion_tokens") != m["completion_tokens"][0]:
            c.violation("fields", f"message for {m['rids'][0]} came out as {str(o)[:200]}", rep)
        fin = m["finished_reasons"][0]
        if bool(o.get("finished")) != (fin is not None) or o.get("finished_reason") != fin:
            c.violation("terminal", f"finish reason {fin!r} came out as finished={o.get('finished')} {o.get('finished_reason')!r}", rep)
        g["deltas"].append(o.get("delta"))
        full = TOK.decode(m["output_ids"], skip_special_tokens=g["skip"])
        if o.get("text") != full:
            c.violation("text", f"text {o.get('text')!r} is not the decoding {full!r} of all output ids", rep)
        got = "".join(g["deltas"])
        if "\ufffd" in full:
            c.observe("texts_with_replacement")
        if fin is not None:
            c.observe("terminals")
            if got != full:
                c.violation("delta-sum", f"deltas add up to {got!r}, the output is {full!r}", rep)
        elif not full.startswith(got):
            c.violation("delta-prefix", f"deltas so far {got!r} are not a prefix of the text {full!r}", rep)
        else:
            rest = full[len(got):]
            if rest.strip("\ufffd"):
                c.violation("delta-late", f"complete text {rest!r} was held back", rep)
            c.observe("prefix_checks")
    # nothing of ended requests stays behind
    left = {g["rid"] for g in gens if g.get("aborted") or (g["sent"] and not g.get("done"))}
    extra = set(d._rid_to_prev_text) - left if hasattr(d, "_rid_to_prev_text") else set()
    if extra:
        c.violation("leak", f"text of finished requests {sorted(extra)} kept", rep)


def main():
    parallel(c, one, scale(3000, 120000))
    c.require("terminals", 500)
    c.require("texts_with_replacement", 500)
    c.finish()


run_main(c, main)

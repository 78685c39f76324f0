"""C12: tokenizers and text conversions."""
import json
import random
import re as _re
import sys
import unicodedata as U
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, HarnessError, run_main, scale, seed

c = Check("C12", "random texts (letters, numbers, symbols, white space and emoji of many scripts, contractions, special tokens and their fragments, malformed bytes) through trained and random vocabularies; pieces, ids and decoded text "
          "compared with HuggingFace tokenizers, the `regex` module and reference merges; UTF-8 conversions of every code point; ASan/UBSan; non-trivial = distinct tokenizers and text classes",
          ["Code points whose category has been the same since Unicode 3.2, a few emoji, and white space; U+001C..U+001F, which engines class differently, are left out.",
           "WordPiece lower-cases and splits punctuation in ASCII only, as its comments say.", "Vocabularies contain every byte (byte-level) or every character of the text (SentencePiece style)."])

QWEN = r"(?i:'s|'t|'re|'ve|'m|'ll|'d)|[^\r\n\p{L}\p{N}]?\p{L}+|\p{N}| ?[^\s\p{L}\p{N}]+[\r\n]*|\s*[\r\n]+|\s+(?!\S)|\s+"
QWEN_NPU = QWEN.replace("| ?[^", "|[^")
LLAMA3 = QWEN.replace(r"|\p{N}|", r"|\p{N}{1,3}|")
GPT2 = r"'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)"
GPT2_FULL = GPT2 + r"|\s+"

OLD = U.ucd_3_2_0
WS = [" ", "\t", "\n", "\r", "\x0b", "\x0c", "\x85", "\u00a0", "\u1680", "\u2003", "\u2028", "\u202f", "\u3000"]
EMOJI = ["\U0001F600", "\U0001F680", "\u2764"]


def stable(cp):
    ch = chr(cp)
    a = OLD.category(ch)
    return a == U.category(ch) and a not in ("Cn", "Cs", "Co") and not (0x1C <= cp <= 0x1F)


def alphabet():
    al = {k: [] for k in "LNPSMC"}
    for cp in range(1, 0x30000):
        if not stable(cp) or chr(cp) in WS:
            continue
        k = U.category(chr(cp))[0]
        if k in al:
            al[k].append(chr(cp))
    return al


def b2u():
    bs = list(range(0x21, 0x7F)) + list(range(0xA1, 0xAD)) + list(range(0xAE, 0x100))
    m = {b: chr(b) for b in bs}
    n = 0
    for b in range(256):
        if b not in m:
            m[b] = chr(256 + n)
            n += 1
    return m


B2U = b2u()
U2B = {v: k for k, v in B2U.items()}


def enc(s):
    return "".join(B2U[b] for b in s.encode())


def dec(s):
    return bytes(U2B[x] for x in s)


def longest(words, text):
    ws = sorted({w for w in words if w}, key=len, reverse=True)
    out, i, st = [], 0, 0
    while i < len(text):
        m = next((w for w in ws if text.startswith(w, i)), None)
        if m is None:
            i += 1
            continue
        if st < i:
            out.append((text[st:i], False))
        out.append((m, True))
        i = st = i + len(m)
    if st < len(text):
        out.append((text[st:], False))
    return out


def ref_bpe(ranks, s):
    w = list(s)
    while len(w) > 1:
        best = min(((ranks[p], p) for p in set(zip(w, w[1:])) if p in ranks), default=None)
        if best is None:
            break
        a, b = best[1]
        n, i = [], 0
        while i < len(w):
            if i + 1 < len(w) and w[i] == a and w[i + 1] == b:
                n.append(a + b)
                i += 2
            else:
                n.append(w[i])
                i += 1
        w = n
    return w


class Texts:
    def __init__(self, rng, specials=()):
        self.r, self.al, self.sp = rng, alphabet(), list(specials)
        self.latin = [x for x in self.al["L"] if ord(x) < 0x250]
        self.words = ["the", "there", "hello", "world", "Hello", "tokenizer", "don", "It", "we", "I", "naïve", "über", "привет", "世界", "日本語", "안녕", "سلام"]

    def ch(self, k):
        r = self.r
        if k == "A":
            return r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
        if k == "D":
            return r.choice("0123456789")
        if k == "Q":
            return r.choice("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
        if k == "W":
            return r.choice(WS) if r.random() < .4 else r.choice("  \n\t\r")
        if k == "E":
            return r.choice(EMOJI)
        return r.choice(self.al[k])

    def text(self, maxn=24):
        r = self.r
        out = []
        for _ in range(r.randint(0, maxn)):
            x = r.random()
            if x < .2:
                out.append(r.choice(self.words))
            elif x < .3:
                out.append("'" + r.choice(["s", "t", "re", "ve", "m", "ll", "d", "S", "T", "Re", "vE", "LL", "r", "v", "l", "x"]))
            elif x < .5:
                out.append("".join(self.ch("W") for _ in range(r.randint(1, 5))))
            elif x < .6 and self.sp:
                s = r.choice(self.sp)
                y = r.random()
                out.append(s if y < .6 else s[:r.randint(1, len(s))] if y < .8 else s[:-1] + s)
            else:
                k = r.choice("AADDQQLLNPSMCE")
                out.append("".join(self.ch(k) for _ in range(r.randint(1, 4))))
        return "".join(out)


QWEN_SP = ["<|endoftext|>", "<|im_start|>", "<|im_end|>", "<|object_ref_start|>", "<|object_ref_end|>", "<|box_start|>", "<|box_end|>", "<|quad_start|>", "<|quad_end|>", "<|vision_start|>", "<|vision_end|>",
           "<|vision_pad|>", "<|image_pad|>", "<|video_pad|>"]
MODELS = {
    "qwen3": (QWEN, QWEN_SP + ["<think>", "</think>"]), "qwen3_moe": (QWEN, QWEN_SP + ["<think>", "</think>"]), "qwen2vl": (QWEN, QWEN_SP),
    "minicpmo": (QWEN, QWEN_SP + ["<tool_call>", "</tool_call>", "<unk>", "<image>", "</image>", "<ref>", "</ref>", "<box>", "</box>", "<slice>", "</slice>", "<unit>", "</unit>", "<|audio_start|>", "<|audio_end|>", "<|spk_bos|>", "<|spk|>", "<|spk_eos|>", "<|tts_bos|>"]),
    "qwen_npu": (QWEN_NPU, ["<|endoftext|>", "<|im_start|>", "<|im_end|>", "<unk>"]),
    "smollm3": (GPT2_FULL, ["<|im_end|>", "<|begin_of_text|>", "<|end_of_text|>", "<think>", "</think>", "<|im_start|>"]),
    "deepseek_ocr": (GPT2_FULL, ["<|User|>", "<|Assistant|>", "<｜begin▁of▁sentence｜>", "<｜end▁of▁sentence｜>", "<｜▁pad▁｜>", "<image>", "<|grounding|>", "<tr>", "</tr>"]),
}
META = {"minicpm4": ["<|im_start|>", "<|im_end|>", "<|endoftext|>", "<|tool_call|>", "<|execute_start|>", "<|execute_end|>", "<|fim_prefix|>", "<|fim_middle|>", "<|fim_suffix|>"], "tiny_llama": ["<s>"]}


def make_byte_level(name, pattern, specials, rng, path, nmerges, texts):
    """A byte-level BPE tokenizer trained on random text, ids shuffled."""
    import tokenizers as T
    from tokenizers import models, trainers, pre_tokenizers, decoders
    def pre():
        return pre_tokenizers.Sequence([pre_tokenizers.Split(T.Regex(pattern), "isolated"), pre_tokenizers.ByteLevel(add_prefix_space=False, use_regex=False)])
    t = T.Tokenizer(models.BPE())
    t.pre_tokenizer = pre()
    t.train_from_iterator([texts.text(60) for _ in range(400)], trainers.BpeTrainer(vocab_size=256 + nmerges, initial_alphabet=[B2U[b] for b in range(256)], show_progress=False))
    d = json.loads(t.to_str())
    toks = list(d["model"]["vocab"])
    merges = [tuple(m) if isinstance(m, list) else tuple(m.split(" ")) for m in d["model"]["merges"]]
    ids = rng.sample(range(len(toks) * 2), len(toks) + len(specials))
    vocab = {k: i for k, i in zip(toks, ids)}
    sp = {s: i for s, i in zip(specials, ids[len(toks):])}
    o = T.Tokenizer(models.BPE(vocab=vocab, merges=merges))
    o.pre_tokenizer, o.decoder = pre(), decoders.ByteLevel()
    as_str = rng.random() < .5
    j = {"model": {"type": "BPE", "vocab": vocab, "merges": [" ".join(m) if as_str else list(m) for m in merges]},
         "added_tokens": [{"id": i, "content": s, "special": True} for s, i in sp.items()]}
    path.write_text(json.dumps(j, ensure_ascii=rng.random() < .5))
    (path.parent / (path.name + ".merges")).write_text("#version\n" + "\n".join(" ".join(m) for m in merges) + "\n")
    inv = {**{i: k for k, i in vocab.items()}, **{i: s for s, i in sp.items()}}
    return o, sp, inv


def make_meta(name, specials, rng, path, texts, nmerges):
    """SentencePiece style: spaces are U+2581, merges over characters."""
    import tokenizers as T
    from tokenizers import models, trainers, normalizers
    def norm():
        return normalizers.Sequence([normalizers.Prepend("\u2581"), normalizers.Replace(" ", "\u2581")])
    corpus = [texts(60) for _ in range(400)]
    t = T.Tokenizer(models.BPE())
    t.normalizer = norm()
    alpha = sorted({ch for s in corpus for ch in s if ch != " "} | {"\u2581"})
    t.train_from_iterator(corpus, trainers.BpeTrainer(vocab_size=len(alpha) + nmerges, initial_alphabet=alpha, limit_alphabet=len(alpha), show_progress=False))
    d = json.loads(t.to_str())
    toks = list(d["model"]["vocab"])
    merges = [tuple(m) if isinstance(m, list) else tuple(m.split(" ")) for m in d["model"]["merges"]]
    ids = rng.sample(range(len(toks) * 2), len(toks) + len(specials))
    vocab = {k: i for k, i in zip(toks, ids)}
    sp = {s: i for s, i in zip(specials, ids[len(toks):])}
    o = T.Tokenizer(models.BPE(vocab=vocab, merges=merges))
    o.normalizer = norm()
    path.write_text(json.dumps({"model": {"type": "BPE", "vocab": vocab, "merges": [list(m) for m in merges]}, "added_tokens": [{"id": i, "content": s, "special": True} for s, i in sp.items()]}))
    inv = {**{i: k for k, i in vocab.items()}, **{i: s for s, i in sp.items()}}
    return o, sp, inv


def expect(o, sp, text):
    """(tokens, ids): special tokens split off leftmost-longest, the rest as HuggingFace tokenizes it."""
    toks, ids = [], []
    for piece, special in longest(sp, text):
        if special:
            toks.append(piece)
            ids.append(sp[piece])
        else:
            e = o.encode(piece, add_special_tokens=False)
            toks += e.tokens
            ids += e.ids
    return toks, ids


def main():
    try:
        import regex
        import tokenizers  # noqa: F401
    except ImportError as e:
        raise HarnessError(str(e))
    b = cpp.Build("C12", san="asan", opt="-O1")
    exe = b.build(cpp.runtime(), ["c12_text.cpp"], focus=r"preprocessor/tokenizers/")
    rng = random.Random(seed() * 7919 + 12)
    dirp = exe.parent
    cases, judges = [], []

    def h(s):
        return (s if isinstance(s, bytes) else s.encode()).hex()

    def un(x):
        return bytes.fromhex(x).decode("utf-8", "surrogateescape")

    def add(case, judge, label, shown):
        cases.append(case)
        judges.append((judge, label, shown))

    def eq(label, key, want):
        def j(r, shown):
            got = r.get(key)
            if isinstance(got, list) and got and isinstance(got[0], str) and all(isinstance(x, str) for x in got):
                got = [un(x) for x in got]
            elif isinstance(got, str):
                got = un(got)
            if got != want:
                c.violation(label, f"{label}: {shown!r}: got {got!r:.300}, should be {want!r:.300}", {"case": shown})
        return j

    def all_of(*js):
        return lambda r, shown: [j(r, shown) for j in js]

    tx = Texts(rng)
    # Tries: overlapping words over a small alphabet, and realistic special tokens.
    for i in range(scale(2500, 20000)):
        al = rng.choice(["ab", "abc", "a<|>", "日本a", "é\U0001F600b"])
        words = ["".join(rng.choice(al) for _ in range(rng.randint(1, 5))) for _ in range(rng.randint(1, 6))]
        if i % 5 == 0:
            words = rng.sample(QWEN_SP, 4)
            text = Texts.text.__get__(tx)(8) + rng.choice(words) + rng.choice(words)[:-1]
        else:
            text = "".join(rng.choice(al + rng.choice(["", "x"])) for _ in range(rng.randint(0, 16)))
        want = longest(words, text)
        for op in ("trie_w", "trie_u"):
            add({"op": op, "words": [h(w) for w in words], "s": h(text), "upd": bool(i & 1)},
                all_of(eq("special_split", "r", [p for p, _ in want]), eq("special_known", "special", [s or p in words for p, s in want])), op, f"{words} on {text!r}")
        c.observe("trie_matches", sum(s for _, s in want))
        c.case(f"trie:{len(words)}:{len(want)}")

    # Random vocabularies and merges, over bytes as characters and over others.
    for k in range(scale(25, 120)):
        al = rng.choice([list("abcd"), list("ab"), list("aé日\U0001F600"), [B2U[x] for x in rng.sample(range(256), 6)]])
        toks, merges = list(al), []
        for _ in range(rng.randint(2, 25)):
            m = (rng.choice(toks), rng.choice(toks))
            if m not in merges and len(m[0] + m[1]) < 9:
                merges.append(m)
                if m[0] + m[1] not in toks:
                    toks.append(m[0] + m[1])
        rng.shuffle(merges) if rng.random() < .5 else None
        ranks = {m: i for i, m in enumerate(merges)}
        ids = rng.sample(range(4 * len(toks)), len(toks))
        vocab = dict(zip(toks, ids))
        p = dirp / f"bpe{k}.json"
        p.write_text(json.dumps({"model": {"vocab": vocab, "merges": [" ".join(m) if k & 1 else list(m) for m in merges]}, "added_tokens": []}))
        for _ in range(scale(20, 60)):
            s = "".join(rng.choice(al) for _ in range(rng.randint(1, 14)))
            want = ref_bpe(ranks, s)
            for op in ("bpe_w", "bpe_u"):
                add({"op": op, "tok": str(p), "s": h(s)}, all_of(eq("merges", "r", want), eq("vocab", "ids", [vocab[t] for t in want]), eq("vocab_inverse", "inv", want)), op, f"{s!r} with {merges[:12]}")
            c.observe("merged_pieces", sum(len(t) > 1 for t in want))
            c.case(f"bpe:{len(merges)}:{len(want)}")

    # Conversions of well-formed text, and of bytes that are not.
    for i in range(scale(600, 4000)):
        s = tx.text(12)
        add({"op": "wide", "s": h(s)}, all_of(eq("wide", "cps", [ord(x) for x in s]), eq("wide", "back", s)), "wide", s)
        add({"op": "cpts", "s": h(s)}, all_of(eq("cpts", "cps", [ord(x) for x in s]), eq("cpts", "back", s)), "cpts", s)
    for i in range(scale(600, 4000)):
        bs = bytearray(tx.text(6).encode())
        for _ in range(rng.randint(1, 4)):
            x = rng.random()
            if x < .4 and bs:
                del bs[rng.randrange(len(bs)):]
            elif x < .7:
                bs.insert(rng.randint(0, len(bs)), rng.randrange(0x80, 0x100))
            elif bs:
                bs[rng.randrange(len(bs))] = rng.randrange(256)
        bad = False
        try:
            bytes(bs).decode()
        except UnicodeDecodeError:
            bad = True
        add({"op": "wide", "s": h(bytes(bs))}, lambda r, s: None, "wide", "")
        # Truncated or stray bytes are refused; surrogates and overlong forms are not told apart.
        soft = bytes(bs).decode("utf-8", "replace") if bad else ""
        hard = bad and not _re.search(rb"[\xc0\xc1\xe0\xed\xf0\xf4-\xf7]", bytes(bs))
        add({"op": "cpts", "s": h(bytes(bs))}, (lambda r, s: None if r.get("threw") else c.violation("cpts_malformed", f"malformed {s} is accepted", {"bytes": s})) if hard else (lambda r, s: None), "cpts", bytes(bs).hex())
        c.observe("malformed", bool(hard))
        c.case(f"utf8:{bad}")
    add({"op": "roundtrip"}, lambda r, s: c.observe("codepoints", r["n"]), "roundtrip", "")
    add({"op": "bytes"}, all_of(eq("bytes", "wide", [ord(B2U[i]) for i in range(256)]), eq("bytes", "utf8", [B2U[i] for i in range(256)]), eq("bytes", "back", list(range(256))), eq("bytes", "n", 256)), "bytes", "")

    CAT = dict(N=1, L=2, Z=4, M=8, P=16, S=32, C=64)

    def table(lo):
        def j(r, _):
            n = 0
            for k, (f, low, pr) in enumerate(zip(r["flags"], r["lower"], r["pre"])):
                cp = lo + k
                if not stable(cp):
                    continue
                n += 1
                ch = chr(cp)
                cat = CAT[U.category(ch)[0]]
                ws = bool(regex.match(r"\s", ch))
                # White space is both: a control or separator, and white space.
                if (f & 127) != cat or bool(f & 128) != ws:
                    c.violation("category", f"U+{cp:04X} has flags {f:#x}, Unicode says {U.category(ch)}", {"cp": cp})
                if bool(pr & 1) != (cat == 2) or bool(pr & 2) != (cat == 1):
                    c.violation("letter_digit", f"U+{cp:04X} ({U.category(ch)}) letter={pr & 1} digit={pr >> 1}", {"cp": cp})
                lw = OLD.normalize("NFC", ch) and ch.lower()
                if len(lw) == 1 and stable(ord(lw)) and low != ord(lw):
                    c.violation("lowercase", f"U+{cp:04X} in lower case is U+{low:04X}, should be U+{ord(lw):04X}", {"cp": cp})
            c.observe("table", n)
        return j
    for lo in range(0, 0x30000, 0x1000):
        add({"op": "table", "lo": lo, "hi": lo + 0x1000}, table(lo), "table", hex(lo))

    # Patterns.
    pats = {"gpt2": GPT2, "gpt2_full": GPT2_FULL, "llama3": LLAMA3}
    for name, pat in pats.items():
        rx = regex.compile(pat)
        for _ in range(scale(700, 6000)):
            s = tx.text(10)
            # What no alternative matches stays a piece of its own between matches.
            want, pos = [], 0
            for m in rx.finditer(s):
                if m.start() > pos:
                    want.append(s[pos:m.start()])
                if m.group():
                    want.append(m.group())
                pos = m.end()
            if pos < len(s):
                want.append(s[pos:])
            add({"op": "split", "s": h(s), "exprs": [pat]}, eq(f"pattern_{name}", "r", [enc(w) for w in want]), "split", s)
            c.case(f"pattern:{name}:{len(want)}")
            c.observe("pattern_pieces", len(want))

    # Whole tokenizers.
    def model_judge(label, want, wide, text):
        toks, ids, inv, sp = want

        def j(r, shown):
            got = [un(x) for x in r.get("tokens", [])]
            if got != toks:
                k = next((i for i, (a, b2) in enumerate(zip(got, toks)) if a != b2), min(len(got), len(toks)))
                return c.violation(f"tokens_{label}", f"{label}: {shown!r:.200}: tokens differ from {k}: {got[k:k + 6]} should be {toks[k:k + 6]}", {"text": shown, "got": got, "want": toks})
            if r["ids"] != ids:
                return c.violation(f"ids_{label}", f"{label}: {shown!r:.200}: ids {r['ids'][:20]} should be {ids[:20]}", {"text": shown})
            if not wide:
                for key in ("dec", "detok"):
                    if un(r[key]) != text:
                        return c.violation(f"decode_{label}", f"{label}: {shown!r:.200} decodes to {un(r[key])!r:.200}", {"text": shown})
                c.observe("decoded_texts")
                return
            if [un(x) for x in r["raw"]] != toks:
                return c.violation(f"raw_{label}", f"{label}: {shown!r:.200}: pieces of the ids are not the tokens", {"text": shown})
            for t, e in zip(toks, r["each"]):
                raw = t.encode() if t in sp else dec(t)
                try:
                    w = raw.decode()
                except UnicodeDecodeError:
                    c.observe("split_characters")
                    c.violation("detokenize_split_character", f"{label}: token {t!r}, {raw!r}, is part of a character; its bytes are lost in {un(e)!r}", {"token": t})
                    continue
                if un(e) != w:
                    return c.violation(f"detokenize_{label}", f"{label}: token {t!r} is shown as {un(e)!r}", {"text": shown})
                c.observe("decoded_tokens")
        return j

    for name, (pat, specials) in MODELS.items():
        for v in range(scale(2, 4)):
            t2 = Texts(rng, specials)
            p = dirp / f"{name}{v}.json"
            o, sp, inv = make_byte_level(name, pat, specials, rng, p, rng.choice([60, 400]), t2)
            wide = name not in ("smollm3", "deepseek_ocr")
            for i in range(scale(170, 1500)):
                s = t2.text(20)
                toks, ids = expect(o, sp, s)
                add({"op": "model", "name": name, "tok": str(p), "s": h(s)}, model_judge(name, (toks, ids, inv, sp), wide, s), "model", s)
                c.case(f"model:{name}:{min(len(toks), 40)}")
                c.observe("texts_" + name)
                c.observe("tokens", len(toks))
                if name == "qwen3" and i % 4 == 0:
                    pre_ = "<|im_start|>user\n" + s + "<|im_end|>\n<|im_start|>assistant\n<think>\n\n</think>\n\n"
                    add({"op": "msg", "name": name, "tok": str(p), "s": h(s)}, eq("message", "ids", expect(o, sp, pre_)[1]), "msg", s)
                if name == "qwen_npu" and i % 4 == 0:
                    n = rng.randint(1, 40)
                    ch = rng.random() < .5
                    full = ids + [99999] * (-len(ids) % n) if ch else (ids + [99999] * n)[:max(n, 0)]
                    if full:
                        add({"op": "pad", "chunk": ch, "len": n, "vocab": 99999, "tok": str(p), "s": h(s)}, all_of(eq("padding", "ids", full), eq("padding", "n", len(ids))), "pad", s)
    for name, specials in META.items():
        for v in range(scale(2, 4)):
            base = Texts(rng, specials)
            lim = [ch for k in "LNPSM" for ch in rng.sample(base.al[k], 40)] + list("abcdefghij ABC012.,!'\n")

            def text(n):
                return "".join(rng.choice(["  ", " ", rng.choice(specials), rng.choice(base.words), rng.choice(lim), rng.choice(lim)]) for _ in range(rng.randint(0, n)))
            strip = lambda n: "".join(p for p, s in longest(specials, text(n)) if not s)  # noqa: E731
            p = dirp / f"{name}{v}.json"
            o, sp, inv = make_meta(name, specials, rng, p, strip, rng.choice([40, 200]))
            known = set(json.loads(p.read_text())["model"]["vocab"])
            for i in range(scale(170, 1500)):
                s = "".join(ch for ch in text(20) if ch == " " or ch in known or ch in "<|>_/" or ch in "".join(specials))
                if any(ch not in known and ch != " " for pc, spc in longest(sp, s) if not spc for ch in pc):
                    continue
                toks, ids = expect(o, sp, s)
                # A lone piece is decoded with its leading space dropped, as the decoder of the file says.
                d = "".join(toks)
                d = d[1:] if d.startswith("\u2581") else d
                d = d.replace("\u2581", " ")
                if name == "minicpm4":
                    j = model_judge(name, (toks, ids, inv, sp), False, d)
                else:
                    want = ["" if t in ("<s>", "</s>") else t.replace("\u2581", " ") for t in toks]
                    j = all_of(eq("tokens_tiny_llama", "tokens", toks), eq("ids_tiny_llama", "ids", ids), eq("detokenize_tiny_llama", "each", want))
                add({"op": "model", "name": name, "tok": str(p), "s": h(s)}, j, "model", s)
                c.case(f"model:{name}:{min(len(toks), 40)}")
                c.observe("texts_" + name)

    # WordPiece.
    wp_cases(add, eq, all_of, h, rng, dirp)

    src, dst = dirp / "cases.jsonl", dirp / "out.jsonl"
    src.write_text("".join(json.dumps(x) + "\n" for x in cases))
    dst.unlink(missing_ok=True)
    cpp.run(c, exe, args=[src, dst], timeout=scale(500, 3000), label="text")
    got = dst.read_text().splitlines() if dst.exists() else []
    for line, case, (judge, label, shown) in zip(got, cases, judges):
        r = json.loads(line)
        if "exception" in r:
            c.violation(f"exception_{label}", f"{label} {case.get('name', '')}: {shown!r:.300}: {r['exception']}", {"case": case})
        else:
            judge(r, shown)
            c.observe("judged")
            c.seen("op", case["op"] + case.get("name", ""))
    if len(got) == len(cases):
        c.samples += [f"{x['op']} {j[2]!r:.120}" for x, j in list(zip(cases, judges))[::max(1, len(cases) // 5)]][:5]
    for k, n in dict(judged=len(cases), trie_matches=2000, merged_pieces=300, malformed=100, codepoints=1100000, table=90000, pattern_pieces=5000, tokens=20000, decoded_texts=300, decoded_tokens=10000, wordpieces=1000, texts_qwen3=300,
                     texts_tiny_llama=100, texts_minicpm4=100).items():
        c.require(k, n)
    c.finish()


def wp_cases(add, eq, all_of, h, rng, dirp):
    import tokenizers as T
    from tokenizers import models, normalizers, pre_tokenizers
    for v in range(scale(4, 12)):
        stems = ["un", "able", "aff", "hello", "world", "to", "ken", "ize", "r", "x", "12", "3", "中", "国", "語", ",", ".", "!", "[", "]", "-", "'", "é", "ü", "Hello", "Tok"]
        vocab_l = stems + ["##" + s for s in stems if s.isalnum()] + list("abcdehlortuz")[: rng.randint(0, 12)] + ["##" + x for x in "abcdefghijklmnopqrstuvwxyz" if rng.random() < .7]
        vocab_l = list(dict.fromkeys(vocab_l))
        specials = ["[PAD]", "[UNK]", "[CLS]", "[SEP]", "[CLS]x", "[spk]", "[spk_emb]"]
        ids = rng.sample(range(3 * (len(vocab_l) + len(specials))), len(vocab_l) + len(specials))
        vocab = dict(zip(vocab_l + specials, ids))
        lower, maxc = bool(v & 1), rng.choice([5, 12, 100])
        from_vocab = v % 4 == 3
        if from_vocab:
            vocab = {t: i for i, t in enumerate(specials[:4] + vocab_l)}
            maxc, specials = 200, []
            p = dirp / f"wp{v}.txt"
            p.write_text("".join(t + rng.choice(["\n", "\r\n"]) for t in vocab))
        else:
            p = dirp / f"wp{v}.json"
            p.write_text(json.dumps({"model": {"type": "WordPiece", "vocab": vocab, "unk_token": "[UNK]", "max_input_chars_per_word": maxc}, "normalizer": {"type": "BertNormalizer", "lowercase": lower, "strip_accents": None, "handle_chinese_chars": True},
                                     "added_tokens": [{"id": vocab[s], "content": s, "special": True} for s in specials]}))
        o = T.Tokenizer(models.WordPiece(vocab=vocab, unk_token="[UNK]", max_input_chars_per_word=maxc))
        o.normalizer = normalizers.BertNormalizer(clean_text=True, handle_chinese_chars=True, strip_accents=False, lowercase=lower)
        o.pre_tokenizer = pre_tokenizers.BertPreTokenizer()
        inv = {i: t for t, i in vocab.items()}
        for _ in range(scale(150, 1200)):
            s = "".join(rng.choice([rng.choice(stems), rng.choice(stems), rng.choice([" ", "  ", "\n", "\t", "\u3000", "\u00a0", "\x01", "\x7f"]), rng.choice(["Hello", "UNABLE", "éé", "ü" * rng.randint(1, 14), "q"]), rng.choice(specials or [" "]) if rng.random() < .5 else " "])
                        for _ in range(rng.randint(0, 14)))
            toks, want = [], []
            for piece, special in longest(specials, s):
                if special:
                    toks.append(piece)
                    want.append(vocab[piece])
                else:
                    e = o.encode(piece, add_special_tokens=False)
                    toks += e.tokens
                    want += e.ids
            add({"op": "wp", "tok": str(p), "s": h(s), "vocab": from_vocab, "lower": lower}, all_of(eq("wordpiece", "r", toks), eq("wordpiece_ids", "ids", want), eq("wordpiece_inverse", "inv", [inv[i] for i in want]),
                eq("wordpiece_unk", "unk", vocab["[UNK]"]), eq("wordpiece_pad", "pad", vocab["[PAD]"])), "wp", s)
            c.observe("wordpieces", len(toks))
            c.case(f"wp:{v}:{len(toks)}")


run_main(c, main)

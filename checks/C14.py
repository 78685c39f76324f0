"""C14: symbolic expressions and configuration files."""
import json
import random
import re
import string
import struct
import sys
import warnings
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import numpy as np
import cpp
from vlib import Check, HarnessError, run_main, scale, seed

warnings.simplefilter("ignore")
F = np.float32
c = Check("C14", "random expressions (all operators, functions, depths, redundant parentheses, spacings) parsed and built through the operators, evaluated over random variables and compared with a reference in single precision; token sequences with tokens dropped, doubled and swapped; "
          "random JSON configurations through strings, files and saves, damaged, missing and unwritable files; ASan/UBSan; non-trivial = distinct operator shapes and refusals",
          ["Values are single precision, as the header says; operands of % are cut to integers; comparisons are made where every step is finite and % gets integers that fit 32 bits.",
           "str() is read back where its literals have at most six digits, which is what it prints."])
PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "%": 2}
FUN = ("floor", "ceil", "abs")


class Skip(Exception):
    pass


class Zero(Exception):
    pass


class Bad(Exception):
    pass


def ev(t, d):
    k = t[0]
    if k == "v":
        return F(d[t[1]])
    if k in "if":
        return F(t[1])
    a = ev(t[1], d)
    if k in FUN:
        r = {"floor": np.floor, "ceil": np.ceil, "abs": np.abs}[k](a)
    else:
        b = ev(t[2], d)
        if k == "%":
            if abs(a) > 2e9 or abs(b) > 2e9:
                raise Skip
            x, y = int(a), int(b)
            if y == 0:
                raise Zero
            r = F(abs(x) % abs(y) * (1 if x >= 0 else -1))
        else:
            r = F(a + b if k == "+" else a - b if k == "-" else a * b if k == "*" else a / b)
    if not np.isfinite(r):
        raise Skip
    return r


def tree(rng, depth, lits):
    if depth == 0 or rng.random() < .12:
        x = rng.random()
        if x < .55:
            return ["v", rng.choice(NAMES)]
        if x < .8:
            return ["i", rng.choice([0, 1, 2, 3, 4, 7, 16, 100, 4096, 999999, 2147483647 if lits else 5])]
        return ["f", rng.choice([0.5, 0.25, 1.5, 3.75, 30.4, 0.1, 12.0, 1024.5, 0.001, 99999.5])]
    if rng.random() < .18:
        return [rng.choice(FUN), tree(rng, depth - 1, lits)]
    # long chains of one level are as interesting as balanced trees
    l, r = rng.choice([(depth - 1, 0), (0, depth - 1), (depth - 1, depth - 1), (depth - 1, max(0, depth - 2))])
    return [rng.choice("+-*/%"), tree(rng, l, lits), tree(rng, r, lits)]


NAMES = ["B", "H", "W", "seq_len", "_x", "x1", "abs_", "floors", "Ceil", "a", "D_2", "q9z", "FLOOR"]


def lit(rng, t):
    if t[0] == "i":
        return ("0" * rng.randint(0, 2) if rng.random() < .1 else "") + str(t[1])
    s = "%g" % t[1]
    if "." not in s:
        s += rng.choice([".", ".0", ".00"])
    elif s.startswith("0.") and rng.random() < .4:
        s = s[1:]
    elif rng.random() < .2:
        s += "0"
    return s


def toks(rng, t, ctx=0, right=False):
    k = t[0]
    if k == "v":
        r = [t[1]]
    elif k in "if":
        r = [lit(rng, t)]
    elif k in FUN:
        r = [k, "("] + toks(rng, t[1]) + [")"]
    else:
        p = PREC[k]
        r = toks(rng, t[1], p) + [k] + toks(rng, t[2], p, True)
        if p < ctx or (p == ctx and right):
            r = ["("] + r + [")"]
    while rng.random() < .06:
        r = ["("] + r + [")"]
    return r


def spell(rng, ts):
    sp = rng.choice([0, 1, 1, 2])
    s = rng.choice(["", " ", "   "]) if rng.random() < .1 else ""
    for i, t in enumerate(ts):
        if i and (sp == 1 or (sp == 2 and rng.random() < .5) or ((ts[i - 1][-1].isalnum() or ts[i - 1][-1] in "_.") and (t[0].isalnum() or t[0] in "_."))):
            s += " " * (1 if rng.random() < .9 else 3)
        s += t
    return s + (rng.choice(["", " ", "   "]) if rng.random() < .1 else "")


TOKEN = re.compile(r"\s*(?:([A-Za-z_]\w*)|(\d+\.\d*|\.\d+|\d+)|([-+*/%()]))", re.A)


def split(s):
    out, i = [], 0
    s = s.rstrip(" ")
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise Bad(s[i:])
        out.append(m.group(0).strip())
        i = m.end()
    return out


def parse(ts):
    ts = list(ts) + [""]
    pos = 0

    def primary():
        nonlocal pos
        t = ts[pos]
        if not t:
            raise Bad
        if t in FUN:
            pos += 1
            if ts[pos] != "(":
                raise Bad
            return [t, group()]
        if t == "(":
            return group()
        if t[0].isdigit() or t[0] == ".":
            pos += 1
            if not re.fullmatch(r"\d+|\d+\.\d*|\.\d+", t):
                raise Bad
            if "." in t:
                return ["f", float(t)]
            if int(t) > 2147483647:
                raise Bad
            return ["i", int(t)]
        if t[0].isalpha() or t[0] == "_":
            pos += 1
            return ["v", t]
        raise Bad

    def group():
        nonlocal pos
        pos += 1
        e = expr(1)
        if ts[pos] != ")":
            raise Bad
        pos += 1
        return e

    def expr(m):
        nonlocal pos
        a = primary()
        while ts[pos] in PREC and PREC[ts[pos]] >= m:
            op = ts[pos]
            pos += 1
            a = [op, a, expr(PREC[op] + 1)]
        return a
    e = expr(1)
    if pos != len(ts) - 1:
        raise Bad
    return e


def names(t, acc):
    if t[0] == "v":
        acc.add(t[1])
    for x in t[1:]:
        if isinstance(x, list):
            names(x, acc)
    return acc


def shape(t, d=3):
    return t[0] + ("(" + ",".join(shape(x, d - 1) for x in t[1:] if isinstance(x, list)) + ")" if d and isinstance(t[1], list) else "")


def fbits(u):
    return F(struct.unpack("<f", struct.pack("<I", u))[0])


def jval(rng, d=4):
    x = rng.random()
    if d == 0 or x < .35:
        return rng.choice([None, True, False, rng.randint(-5, 5), rng.randint(-2**63, 2**63 - 1), 2**64 - 1, rng.random() * 10 ** rng.randint(-30, 30), -0.0, 1e-5, 1e-6, 10000.0, 1000000.0, "", jstr(rng), jstr(rng), 151936, 0.1])
    if x < .6:
        return [jval(rng, d - 1) for _ in range(rng.randint(0, 5))]
    return {jstr(rng): jval(rng, d - 1) for _ in range(rng.randint(0, 6))}


def jstr(rng):
    return "".join(rng.choice([rng.choice(string.printable), rng.choice(string.ascii_letters), chr(rng.choice([0, 1, 0x1F, 0x7F, 0xE9, 0x4E2D, 0x2028, 0xFFFD, 0x1F600, 0x10FFFF])), '"', "\\", "/"]) for _ in range(rng.choice([0, 1, 3, 8, 20])))


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack("<d", a) == struct.pack("<d", b)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def main():
    rt = cpp.runtime()
    b = cpp.Build("C14", san="asan", opt="-O1")
    exe = b.build(rt, ["c14_expr.cpp"], focus=r"symbolic_expr|ConfigFile")
    rng = random.Random(seed() * 7919 + 14)
    cases, judges = [], []

    def add(case, judge, shown):
        cases.append(case)
        judges.append((judge, shown))

    def dicts(t):
        out, want = [], []
        for _ in range(12):
            d = {n: float(F(rng.choice([rng.randint(0, 9), rng.randint(1, 4096), rng.random() * 100, -rng.randint(0, 50), 0.5, -2.75]))) for n in names(t, set()) | {"unused"}}
            try:
                v = ev(t, d)
            except (Skip, Zero):
                continue
            out.append(d)
            want.append(v)
            if len(out) == 3:
                break
        return out, want

    def wants(case, t, want, parsed):
        def judge(r, shown):
            got = [fbits(u) for u in r["v"]]
            if got != want:
                c.violation("value", f"{shown!r} over {case['dicts']!r:.300} is {[float(x) for x in got]}, should be {[float(x) for x in want]}", case)
            if [fbits(u) for u in reversed(r["again"])] != want:
                c.violation("value_again", f"{shown!r} evaluated again gives {[float(fbits(u)) for u in r['again']]}, should be {[float(x) for x in reversed(want)]}", case)
            if r["static"] != (not names(t, set())):
                c.violation("static", f"{shown!r}: isStatic() is {r['static']}", case)
            if "int" in r and r["int"] != [int(x) for x in want]:
                c.violation("as_int", f"{shown!r}: evalAsInt gives {r['int']}, should be {[int(x) for x in want]}", case)
            if parsed:
                if [fbits(u) for u in r["reparsed"]] != want:
                    c.violation("reparse", f"{shown!r} prints as {r['str']!r}, which means {[float(fbits(u)) for u in r['reparsed']]}, not {[float(x) for x in want]}", case)
                if r["restr"] != r["str"]:
                    c.violation("reprint", f"{r['str']!r} prints as {r['restr']!r}", case)
            try:
                s = parse(split(r["str"]))
                if names(s, set()) != names(t, set()) or [ev(s, d) for d in case["dicts"]] != want:
                    c.violation("printed", f"{shown!r} prints as {r['str']!r}, which means something else", case)
            except (Bad, Skip, Zero) as e:
                c.violation("printed", f"{shown!r} prints as {r['str']!r}, which is no expression", case)
            c.observe("values", len(want))
            c.seen("shape", shape(t))
        return judge

    def good(src, t, built=False):
        ds, want = dicts(t)
        if not ds:
            return
        case = {"op": "build", "tree": t, "dicts": ds} if built else {"op": "parse", "src": src, "dicts": ds}
        if all(abs(x) < 2e9 for x in want):
            case["int"] = True
        add(case, wants(case, t, want, not built), src)
        c.case(("b" if built else "p") + shape(t, 2))

    def bad(src):
        def judge(r, shown):
            if r["fate"] not in ("threw", "refused"):
                c.violation("malformed", f"{shown!r} is no expression, and parsing it ends with: {r['fate']}", {"src": src})
            c.observe("malformed")
            c.seen("refusal", r["fate"])
        add({"op": "bad", "src": src}, judge, src)
        c.case("bad:" + re.sub(r"\w+", "x", src)[:30])

    def badeval(src, d, why):
        def judge(r, shown):
            if r["fate"] not in ("threw", "refused"):
                c.violation(why, f"{shown!r} over {d!r:.200}: {why}, and evaluating it ends with: {r['fate']}", {"src": src, "dict": d})
            c.observe(why)
        add({"op": "badeval", "src": src, "dict": d}, judge, src)
        c.case(why + str(len(src)))

    # every pair and triple of operators, without parentheses
    ops = "+-*/%"
    for a in ops:
        for b_ in ops:
            for tail in ["", *ops]:
                ts = ["A", a, "B", b_, "C"] + ([tail, "D"] if tail else [])
                for _ in range(3):
                    good(spell(rng, ts), parse(ts))
    for _ in range(scale(2500, 40000)):
        t = tree(rng, rng.choice([0, 1, 2, 3, 4, 5, 6]), False)
        ts = toks(rng, t)
        src = spell(rng, ts)
        if parse(ts) != t:
            raise HarnessError(f"reference parser: {src} {t} {parse(ts)}")
        good(src, t)
    for _ in range(scale(1200, 20000)):
        t = tree(rng, rng.choice([1, 2, 3, 4, 5]), False)
        good(repr(t), t, True)
    # what the lexer cuts
    for _ in range(scale(300, 3000)):
        x, y = (toks(rng, tree(rng, rng.choice([1, 3]), False)) for _ in range(2))

        def judge(r, shown, x=x, y=y):
            if r["t"] != x or not r.get("eof"):
                c.violation("tokens", f"{shown!r} is cut into {r['t']!r:.300}, should be {x!r:.300}", shown)
            if r["u"] != y:
                c.violation("tokens_reset", f"after a reset, the text of {y!r:.300} is cut into {r['u']!r:.300}", shown)
            c.observe("tokens", len(x) + len(y))
        s = spell(rng, x)
        add({"op": "lex", "src": s, "then": spell(rng, y)}, judge, s)
    # malformed sequences of tokens
    fixed = ["", " ", "(", ")", "()", "+", "A +", "* A", "A B", "2A", "A 2", "(A", "A)", "A + (B", "floor", "floor A", "floor()", "floor(A", "floor)A(", "A ++ B", "A + * B", "1..2", "1.2.3", ".", "A + .", "99999999999", "2147483648", "A $ B", "#", "A\tB\t", "A & B", "A, B",
             "((A)", "(A))", "-", "A ^ 2", "= A", "é", "A + é", "abs abs (A)", "(A)(B)", "A (B)", "floor(A) B", "1 2", "1.5 .5"]
    for s in fixed:
        bad(s)
    n = 0
    while n < scale(350, 5000):
        ts = toks(rng, tree(rng, rng.choice([1, 2, 3]), False))
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(ts) + 1)
            k = rng.random()
            if k < .35 and i < len(ts):
                del ts[i]
            elif k < .6:
                ts.insert(i, rng.choice(["(", ")", "+", "*", "%", "A", "7", "floor", "1.5"]))
            elif k < .8 and i < len(ts):
                ts.insert(i, ts[i])
            elif i + 1 < len(ts):
                ts[i], ts[i + 1] = ts[i + 1], ts[i]
        s = spell(rng, ts)
        try:
            t = parse(split(s))
            good(s, t)
        except Bad:
            bad(s)
            n += 1
    # variables without a value, divisions by zero
    for _ in range(scale(60, 600)):
        t = tree(rng, rng.choice([1, 2, 3]), False)
        vs = sorted(names(t, set()))
        if not vs:
            continue
        gone = rng.choice(vs)
        d = {v: 3.0 for v in vs if v != gone}
        d[gone.swapcase() + "_"] = 1.0
        t = ["+", t, ["i", 1]]
        try:
            ev(t, {**d, gone: 3.0})
        except (Skip, Zero):
            continue
        badeval(spell(rng, toks(rng, t)), d, "unknown_variable")
    for z in ["0", "0.5", "Z", "(A - A)", "floor(0.9)", "-0.5".replace("-", "0 - ")]:
        for f in ["A % {}", "1 + A % ({})", "floor(A % ({}))", "({0}) + 7 % ({0})"]:
            badeval(f.format(z), {"A": 7.0, "Z": 0.0}, "modulo_zero")

    # configurations
    for i in range(scale(250, 3000)):
        v = jval(rng, rng.choice([1, 3, 5])) if i % 5 else {jstr(rng): jval(rng, 2) for _ in range(3)}
        text = json.dumps(v, ensure_ascii=rng.random() < .5, indent=rng.choice([None, 2, "\t"]))
        text = rng.choice(["", " ", "\n\t"]) + text + rng.choice(["", "\n", "  \n"])

        def judge(r, shown, v=v):
            if not r["same"]:
                c.violation("config_same", f"{shown!r:.300}: string, file, saved file and dump hold different values", shown)
            for k in ("string", "file", "load", "saved", "again", "dumped"):
                try:
                    ok = same(json.loads(r[k]), v)
                except ValueError as e:
                    ok = False
                if not ok:
                    c.violation("config_" + k, f"{shown!r:.300}: through {k} it is {r[k]!r:.300}", shown)
            c.observe("configs")
        add({"op": "config", "text": text}, judge, text)
        c.case(f"config:{type(v).__name__}:{min(len(text) // 40, 20)}")

    def fates(why):
        def judge(r, shown):
            for how, f in zip(("constructor", "load", "loadString" if why == "config_damaged" else "save"), r["fates"]):
                if f != "threw":
                    c.violation(why, f"{how} of {shown!r:.200}: no std::runtime_error, but {f}", shown)
            c.observe(why)
        return judge
    n = 0
    while n < scale(25, 400):
        v = {jstr(rng): jval(rng, 2) for _ in range(3)}
        s = json.dumps(v, ensure_ascii=True)
        k = rng.random()
        i = rng.randrange(len(s))
        s = s[:i] if k < .35 else s[:i] + rng.choice("{}[],:\"x") + s[i:] if k < .65 else s + rng.choice(["}", " x", "{}", ",", "]", " null", " 1"])
        try:
            json.loads(s)
            continue
        except ValueError:
            pass
        add({"op": "badconfig", "text": s}, fates("config_damaged"), s)
        c.case(f"damaged:{s[-3:]}")
        n += 1
    add({"op": "missing"}, fates("config_missing"), "a file that is not there")
    for _ in range(scale(12, 80)):
        v = {f"key{i}": "x" * rng.randint(0, 400) for i in range(rng.randint(1, 60))}
        size = len(json.dumps(v, indent=4))
        lim = rng.choice([0, 1, size // 2, size - 1, size, size + 1, 4096, 8192])

        def judge(r, shown, lim=lim, size=size):
            if r["fate"] == "ok" and not r["whole"]:
                c.violation("config_unwritten", f"save() of {size} bytes where {lim} fit says nothing, and the file does not hold them", shown)
            if r["fate"] not in ("ok", "threw"):
                c.violation("config_unwritten", f"save() of {size} bytes where {lim} fit: {r['fate']}", shown)
            if lim >= size and r["fate"] != "ok":
                c.violation("config_written", f"save() of {size} bytes where {lim} fit fails: {r['fate']}", shown)
            c.observe("full_disk")
        add({"op": "full", "text": json.dumps(v), "limit": lim}, judge, f"{size} bytes of {lim}")
        c.case(f"full:{lim < size}:{size // 500}")

    dirp = b.dir / "w"
    dirp.mkdir(exist_ok=True)
    src, dst = dirp / "cases.jsonl", dirp / "out.jsonl"
    src.write_text("".join(json.dumps(x) + "\n" for x in cases))
    dst.unlink(missing_ok=True)
    cpp.run(c, exe, args=[src, dst, dirp], timeout=scale(250, 2500), label="expr")
    got = dst.read_text().split("\n")[:-1] if dst.exists() else []
    for line, case, (judge, shown) in zip(got, cases, judges):
        r = json.loads(line)
        if "exception" in r:
            c.violation("exception_" + case["op"], f"{case['op']} of {shown!r:.300} (well-formed): {r['exception']}", case)
        else:
            judge(r, shown)
            c.observe("judged")
    if len(got) != len(cases) and not c.viol:
        c.violation("stopped", f"the runtime stopped at {cases[len(got)]!r:.300}", cases[len(got)])
    c.samples += [f"{x['op']} {j[1]!r:.120}" for x, j in list(zip(cases, judges))[::max(1, len(cases) // 5)]][:5]
    for k, n in dict(judged=len(cases), values=7000, malformed=300, tokens=2000, unknown_variable=15, modulo_zero=20, configs=200, config_damaged=20, config_missing=1, full_disk=10).items():
        c.require(k, n)
    c.finish()


run_main(c, main)

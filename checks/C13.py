"""C13: image and audio preprocessing."""
import json
import math
import random
import struct
import sys
from fractions import Fraction
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import cpp
from vlib import Check, HarnessError, run_main, scale, seed

c = Check("C13", "pictures of every colour type and WAV files of many layouts, rates, depths and lengths (also damaged ones) through the image transforms, the readers and the feature extractors; every pixel, sample and feature compared with PIL and references in "
          "double precision; ASan/UBSan and leak detection; non-trivial = distinct operations and file kinds",
          ["Resampling may use any of the usual cubic or linear kernels, widened when shrinking; the whole picture has to fit one of them within 2 levels.", "The parity of a tie in rounding sizes is not judged.",
           "Clips for the mel features are taken from the first channel; frames are windowed as the code's Povey window says.", "JPEG is compared within a few levels."])


def main():
    try:
        import numpy as np
        from PIL import Image
    except ImportError as e:
        raise HarnessError(str(e))
    b = cpp.Build("C13", san="asan", opt="-O1")
    exe = b.build(cpp.runtime(), ["c13_media.cpp"], focus=r"preprocessor/(visual|audio)/|wenet_audio")
    rng = random.Random(seed() * 7919 + 13)
    nr = np.random.default_rng(seed() * 7919 + 13)
    d = exe.parent
    cases, judges = [], []

    def add(case, judge, shown):
        cases.append(case)
        judges.append((judge, shown))

    def bad(sig, msg, **kw):
        c.violation(sig, msg, kw)

    def px(j):
        return np.frombuffer(bytes.fromhex(j["px"]), np.uint8).reshape(j["h"], j["w"], j["c"]).astype(np.int64)

    def ten(j):
        return np.frombuffer(bytes.fromhex(j["v"]), np.float32).reshape(j["shape"]).astype(np.float64)

    # ---------------------------------------------------------------- pictures
    def smooth(h, w, ch):
        y, x = np.mgrid[0:h, 0:w]
        a = np.zeros((h, w, ch))
        for k in range(ch):
            a[..., k] = 127 + 60 * np.sin(x * rng.uniform(.02, .25) + k) + 60 * np.cos(y * rng.uniform(.02, .25) - k)
        return a.clip(0, 255).astype(np.uint8)

    def content(h, w, ch):
        k = rng.random()
        if k < .35:
            return nr.integers(0, 256, (h, w, ch), dtype=np.uint8)
        if k < .45:
            return np.broadcast_to(nr.integers(0, 256, ch, dtype=np.uint8), (h, w, ch)).copy()
        if k < .6:
            return nr.choice(np.array([0, 255], np.uint8), (h, w, ch))
        return smooth(h, w, ch)

    nfile = [0]

    def picture(kind=None, hw=None):
        h, w = hw or (rng.randint(1, 40), rng.randint(1, 40))
        kind = kind or rng.choice(["rgb", "rgb", "rgb", "rgba", "l", "la", "p", "i16", "bmp", "jpg", "gif"])
        nfile[0] += 1
        p = d / f"pic{nfile[0]}.{ {'bmp': 'bmp', 'jpg': 'jpg', 'gif': 'gif'}.get(kind, 'png')}"
        tol = 0
        if kind in ("rgb", "bmp"):
            a = content(h, w, 3)
            Image.fromarray(a, "RGB").save(p)
        elif kind == "rgba":
            a4 = content(h, w, 4)
            Image.fromarray(a4, "RGBA").save(p)
            a = a4[..., :3]
        elif kind == "l":
            g = content(h, w, 1)[..., 0]
            Image.fromarray(g, "L").save(p)
            a = np.repeat(g[..., None], 3, 2)
        elif kind == "la":
            g = content(h, w, 2)
            Image.fromarray(g, "LA").save(p)
            a = np.repeat(g[..., :1], 3, 2)
        elif kind in ("p", "gif"):
            pal = nr.integers(0, 256, (8, 3), dtype=np.uint8)
            ix = nr.integers(0, 8, (h, w), dtype=np.uint8)
            m = Image.fromarray(ix, "P")
            m.putpalette(pal.tobytes())
            m.save(p)
            a = np.asarray(Image.open(p).convert("RGB"))
        elif kind == "i16":
            g = nr.integers(0, 65536, (h, w)).astype(np.uint16)
            Image.fromarray(g).save(p)
            a = np.repeat((g >> 8).astype(np.uint8)[..., None], 3, 2)
        else:
            a = smooth(h, w, 3)
            Image.fromarray(a, "RGB").save(p, quality=97, subsampling=0)
            a = np.asarray(Image.open(p).convert("RGB"))
            tol = 4
        return p, a.astype(np.int64), tol, kind

    def cubic(B, C):
        def k(x):
            x = np.abs(x)
            return np.where(x < 1, ((12 - 9 * B - 6 * C) * x**3 + (-18 + 12 * B + 6 * C) * x**2 + 6 - 2 * B) / 6,
                            np.where(x < 2, ((-B - 6 * C) * x**3 + (6 * B + 30 * C) * x**2 + (-12 * B - 48 * C) * x + 8 * B + 24 * C) / 6, 0.))
        return k, 2.
    MIT, CAT = cubic(1 / 3, 1 / 3), cubic(0, .5)
    CUBM = cubic(0, .75)
    TRI = (lambda x: np.maximum(0, 1 - np.abs(x)), 1.)
    PT = None

    def axis(n_in, n_out, kern):
        W = np.zeros((n_out, n_in))
        if kern is PT:
            W[np.arange(n_out), np.arange(n_out)] = 1
            return W
        k, sup = kern
        s = max(1., n_in / n_out)
        for o in range(n_out):
            ce = (o + .5) * n_in / n_out
            lo, hi = math.floor(ce - sup * s - 1), math.ceil(ce + sup * s + 1)
            i = np.arange(lo, hi + 1)
            w = k((i + .5 - ce) / s)
            w = w / w.sum()
            np.add.at(W[o], i.clip(0, n_in - 1), w)
        return W

    def fits(a, got, what, sig, pdata):
        """The picture is a resampled by one of the usual kernels."""
        h, w = a.shape[:2]
        H, W = got.shape[:2]

        def dflt(n, m):
            return PT if n == m else CAT if m > n else MIT
        best = None
        for fam in (dflt, lambda n, m: MIT, lambda n, m: TRI, lambda n, m: CAT, lambda n, m: CUBM, lambda n, m: PT if n == m else MIT):
            R = np.einsum("oi,ijc->ojc", axis(h, H, fam(h, H)), a.astype(float))
            R = np.einsum("oj,hjc->hoc", axis(w, W, fam(w, W)), R).clip(0, 255)
            e = np.abs(R - got).max()
            best = e if best is None else min(best, e)
            if best <= 2:
                break
        c.observe("resampled_pixels", got[..., 0].size)
        if best > 2:
            bad(sig, f"{what}: no kernel explains the picture (nearest differs by {best:.1f} levels)", step=what, path=str(pdata))
        return best <= 2

    def rnd(x):
        f = math.floor(x + .5)
        return {f, round(x), int(x)} if abs(x - math.floor(x) - .5) < 1e-9 else {f}

    def judge_step(a, s, got, shown):
        """What one step gives from the picture a (the real intermediate)."""
        k = s[0]
        h, w = a.shape[:2]
        c.observe("step_" + k)
        if k == "save":
            return None
        if k in ("resize", "hw", "shorter"):
            if k == "resize":
                want = {(s[2], s[1])}
            elif k == "hw":
                want = {(s[1], s[2])}
            else:
                m = min(h, w)
                q = s[1] / m
                want = {(y, x) for y in rnd(h * q) | {int(h * q)} for x in rnd(w * q) | {int(w * q)}}
                want = {t for t in want if (min(t) == s[1])}
            if got.shape[:2] not in want:
                return bad("resize_size", f"{shown}: {s} of {w}x{h} gives {got.shape[1]}x{got.shape[0]}", step=s)
            fits(a, got, f"{shown}: {s} of {w}x{h}", "resize_content", shown)
        elif k in ("crop", "center"):
            if k == "crop":
                boxes = [tuple(s[1:5])]
            else:
                ch, cw = s[1], s[2] if len(s) > 2 else s[1]
                boxes = [(l, u, l + cw, u + ch) for l in {(w - cw) // 2, -((cw - w) // 2)} for u in {(h - ch) // 2, -((ch - h) // 2)}]
            ok = False
            for l, u, r_, lo in boxes:
                R = np.zeros((lo - u, r_ - l, 3), np.int64)
                y0, y1, x0, x1 = max(u, 0), min(lo, h), max(l, 0), min(r_, w)
                if y0 < y1 and x0 < x1:
                    R[y0 - u:y1 - u, x0 - l:x1 - l] = a[y0:y1, x0:x1]
                ok = ok or (R.shape == got.shape and (R == got).all())
            if not ok:
                bad("crop", f"{shown}: {s} of {w}x{h} is not that part of the picture", step=s)
        elif k == "pad":
            W, H = s[1], s[2]
            if got.shape != (H, W, 3):
                return bad("pad_size", f"{shown}: {s} gives {got.shape}", step=s)
            q = min(W / w, H / h)
            col = np.array(s[3:6])
            ok = False
            for nw in {max(1, x) for x in rnd(w * q)}:
                for nh in {max(1, x) for x in rnd(h * q)}:
                    for ox in {(W - nw) // 2, (W - nw + 1) // 2}:
                        for oy in {(H - nh) // 2, (H - nh + 1) // 2}:
                            m = np.ones((H, W), bool)
                            m[oy:oy + nh, ox:ox + nw] = False
                            if not ok and (got[m] == col).all():
                                inner = got[oy:oy + nh, ox:ox + nw]
                                if inner.shape[:2] == (nh, nw):
                                    ok = np.abs(inner.mean((0, 1)) - a.mean((0, 1))).max() <= 40 or min(h, w) < 4
                                    if ok:
                                        fits(a, inner, f"{shown}: {s} of {w}x{h}", "pad_content", shown)
            if not ok:
                bad("pad_border", f"{shown}: {s} of {w}x{h}: the border is not the colour around the centred picture", step=s)

    def one_step(final=False):
        k = rng.choice(["resize", "resize", "crop", "crop", "pad", "center", "hw", "shorter"])
        if k == "resize":
            return ["resize", rng.randint(1, 48), rng.randint(1, 48)] + ([rng.choice(["bilinear", "bicubic"])] if rng.random() < .7 else [])
        if k == "hw":
            return ["hw", rng.randint(1, 48), rng.randint(1, 48)]
        if k == "shorter":
            return ["shorter", rng.randint(1, 40)]
        if k == "crop":
            l, u = rng.randint(-12, 40), rng.randint(-12, 40)
            return ["crop", l, u, l + rng.randint(1, 40), u + rng.randint(1, 40)]
        if k == "center":
            return ["center", rng.randint(1, 50)] + ([rng.randint(1, 50)] if rng.random() < .6 else [])
        return ["pad", rng.randint(1, 50), rng.randint(1, 50), rng.randint(0, 255), rng.randint(0, 255), rng.randint(0, 255)]

    for n in range(scale(420, 3500)):
        p, a, tol, kind = picture()
        steps = [one_step() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        sv = None
        if rng.random() < .45:
            ext = rng.choice(["png", "PNG", "bmp", "jpg", "jpeg", "Jpg"])
            sv = d / f"out{n}.{ext}"
            steps.append(["save", str(sv)])

        def j(r, shown, a=a, tol=tol, steps=steps, sv=sv, kind=kind):
            o = px(r["open"])
            if o.shape != a.shape or np.abs(o - a).max() > tol:
                return bad("open_" + kind, f"{shown}: the picture opened differs from the file (shape {o.shape}, file {a.shape})", path=shown)
            c.observe("opened_" + kind)
            if r["after"] != r["open"]:
                bad("changed", f"{shown}: a step changed the picture it was applied to: {steps}", steps=steps)
            cur = o
            for s, g in zip(steps, r["steps"]):
                g = px(g)
                judge_step(cur, s, g, shown)
                cur = g
            if sv is not None:
                try:
                    back = np.asarray(Image.open(sv).convert("RGB")).astype(np.int64)
                except Exception as e:
                    return bad("save", f"{shown}: the file saved cannot be read: {e}", path=str(sv))
                lossy = sv.suffix.lower() in (".jpg", ".jpeg")
                c.observe("saved_lossy" if lossy else "saved")
                if back.shape != cur.shape or (np.abs(back - cur).mean() > 40 if lossy else (back != cur).any()):
                    bad("save", f"{shown}: {sv.name} does not hold the picture saved", path=str(sv))
                elif lossy and (a.max() - a.min() < 3 or (np.abs(np.diff(cur, axis=0)).max(initial=0) < 12 and np.abs(np.diff(cur, axis=1)).max(initial=0) < 12)) and np.abs(back - cur).mean() > 5:
                    bad("save", f"{shown}: {sv.name}: a smooth picture is {np.abs(back - cur).mean():.1f} levels off", path=str(sv))
            t = ten(r["tensor"])
            if t.shape != cur.shape or (t != cur).any():
                bad("tensor", f"{shown}: tensor() is not the pixels, row by row", steps=steps)
            t = ten(r["chw"])
            if t.shape != (3,) + cur.shape[:2] or np.abs(t - cur.transpose(2, 0, 1) / 255.).max() > 1e-6:
                bad("to_tensor", f"{shown}: ToTensor is not the pixels by channel over 255", steps=steps)
            c.observe("pixels", cur.size)
        add({"op": "image", "path": str(p), "steps": steps}, j, p.name)
        c.case(f"image:{kind}:" + ",".join(s[0] for s in steps))

    # Pipelines.
    for n in range(scale(80, 600)):
        p, a, tol, kind = picture("rgb", (rng.randint(4, 40), rng.randint(4, 40)))
        case = {"op": "basic", "path": str(p), "square": rng.random() < .4}
        if rng.random() < .7:
            if case["square"] or rng.random() < .5:
                case["shorter"] = rng.randint(2, 30)
            else:
                case["hw"] = [rng.randint(1, 30), rng.randint(1, 30)]
        if rng.random() < .7:
            s = rng.randint(1, 30)
            case["center"] = [s, s if case["square"] else rng.randint(1, 30)]
        if rng.random() < .7:
            case["mean"] = [round(rng.uniform(0, 1), 3) for _ in range(3)]
            case["std"] = [round(rng.uniform(.1, 1), 3) for _ in range(3)]

        def j(r, shown, case=case):
            im = px(r["img"]).transpose(2, 0, 1) / 255.
            if "mean" in case:
                im = (im - np.array(case["mean"])[:, None, None]) / np.array(case["std"])[:, None, None]
            t = ten(r["out"])
            if t.shape != im.shape or np.abs(t - im).max() > 1e-4:
                bad("pipeline", f"{shown}: the pipeline {case} is not its steps in order", case=case)
            c.observe("pipelines")
        add(case, j, p.name)
        c.case(f"basic:{sorted(case)}")
    for n in range(scale(150, 1200)):
        sh = [rng.randint(1, 4), rng.randint(1, 6), rng.randint(1, 6)]
        v = nr.normal(size=sh).astype(np.float32)
        case = {"op": "normalize", "shape": sh, "v": v.tobytes().hex()}
        x = v.astype(float)
        k = rng.random()
        if k < .3:
            pm = rng.sample([0, 1, 2], 3)
            case["perm"] = pm
            x = x.transpose(pm)
        elif k < .6 and sh[1] > 1:
            lo = rng.randint(0, sh[1] - 1)
            hi = rng.randint(lo + 1, sh[1])
            case["cut"] = [lo, hi]
            x = x[:, lo:hi]
        mean = [rng.uniform(-1, 1) for _ in range(x.shape[0])]
        sd = [rng.uniform(.2, 2) for _ in range(x.shape[0])]
        case.update(mean=mean, std=sd)
        if rng.random() < .3:
            case["twice"] = 1

        def j(r, shown, x=x, case=case):
            w = x
            for _ in range(2 if "twice" in case else 1):
                w = (w - np.array(case["mean"])[:, None, None]) / np.array(case["std"])[:, None, None]
            t = ten(r["out"])
            if ten(r["in"]).shape != x.shape:
                raise HarnessError("view shapes")
            if t.shape != x.shape or np.abs(t - w).max() > 1e-4:
                bad("normalize", f"normalising {shown} does not give (x - mean) / std by channel", case=case)
            if not r["kept"]:
                bad("normalize_input", f"normalising {shown} changed the tensor given", case=case)
            c.observe("normalized")
        add(case, j, f"{sh} {case.get('perm')} {case.get('cut')}")
        c.case(f"normalize:{'perm' in case}:{'cut' in case}:{sh}")

    # Refusals.
    def refused(what):
        def j(r, shown):
            c.observe("refusals")
            if r["r"] not in ("refused", "threw"):
                bad("refuse_" + what, f"{what} {shown}: {r['r']} instead of a refusal", shown=str(shown))
        return j

    def contained(what):
        def j(r, shown):
            c.observe("damaged")
            if r["r"] not in ("refused", "threw", "ok"):
                bad("damaged_" + what, f"{what} of a damaged file {shown}: {r['r']}", shown=str(shown))
        return j
    p0, *_ = picture("rgb", (5, 7))
    txt = d / "not.png"
    txt.write_bytes(b"hello world, no picture")
    for what, case in [("open", {"path": str(d / "missing.png")}), ("open", {"path": str(txt)}), ("save", {"path": str(p0), "to": str(d / "x.tiff")}), ("save", {"path": str(p0), "to": str(d / "noext")}),
                       ("save", {"path": str(p0), "to": str(d / "no" / "dir" / "x.png")}), ("step", {"path": str(p0), "step": ["crop", 3, 3, 3, 5]}), ("step", {"path": str(p0), "step": ["crop", 3, 3, 5, 1]}),
                       ("step", {"path": str(p0), "step": ["resize", 4, 4, "nearest?"]}), ("step", {"path": str(p0), "step": ["pad", 0, 4, 0, 0, 0]}), ("step", {"path": str(p0), "step": ["resize", 0, 4]})]:
        add(dict(case, op="refuse", what=what), refused(what), json.dumps(case)[-80:])
    for n in range(scale(40, 300)):
        p, a, tol, kind = picture(rng.choice(["rgb", "p", "bmp", "l", "gif", "rgba"]))
        bs = bytearray(p.read_bytes())
        for _ in range(rng.randint(1, 3)):
            bs[rng.randrange(min(len(bs), 120))] = rng.randrange(256)
        if rng.random() < .4:
            del bs[rng.randrange(8, len(bs)):]
        q = d / ("dmg" + p.name)
        q.write_bytes(bs)
        # stb decodes with its own limits; a huge picture is a refusal by memory.
        add({"op": "refuse", "what": "open", "path": str(q)}, contained("open"), q.name)
        c.case("damaged:" + kind)

    # Model preprocessors.
    def tie(x):
        return abs(x - math.floor(x) - .5) < 1e-6
    szs = []
    while len(szs) < scale(600, 6000):
        h, w = (rng.randint(1, 60) * rng.choice([1, 7, 28]), rng.randint(1, 60) * rng.choice([1, 9, 28])) if rng.random() < .6 else (rng.randint(100, 5000), rng.randint(100, 5000))
        mn, mx = rng.choice([(3136, 1003520), (3136, 12544), (50176, 200704)])
        if max(h, w) / min(h, w) > 200 or tie(h / 28) or tie(w / 28):
            continue
        szs.append([h, w, 28, mn, mx])

    def jsm(r, shown):
        for (h, w, f, mn, mx), got in zip(szs, r["r"]):
            H, W = round(h / f) * f, round(w / f) * f
            if H * W > mx:
                be = math.sqrt(h * w / mx)
                H, W = max(f, math.floor(h / be / f) * f), max(f, math.floor(w / be / f) * f)
            elif H * W < mn:
                be = math.sqrt(mn / (h * w))
                H, W = math.ceil(h * be / f) * f, math.ceil(w * be / f) * f
            c.observe("smart_sizes")
            if got != [H, W]:
                bad("smart_resize", f"smartResize({h}, {w}, {f}, {mn}, {mx}) = {got}, should be {[H, W]}", args=[h, w, f, mn, mx])
    add({"op": "smart", "sizes": szs}, jsm, "")
    for n in range(scale(5, 30)):
        p, a, tol, kind = picture("rgb", (rng.randint(20, 90), rng.randint(20, 90)))
        mn, mx = rng.choice([(3136, 12544), (1568, 6272)])

        def j(r, shown):
            im = px(r["img"])
            gt, gh, gw = r["grid"]
            x = (im / 255. - np.array([0.48145466, 0.4578275, 0.40821073])) / np.array([0.26862954, 0.26130258, 0.27577711])
            x = np.stack([x.transpose(2, 0, 1)] * 2)
            x = x.reshape(1, 2, 3, gh // 2, 2, 14, gw // 2, 2, 14).transpose(0, 3, 6, 4, 7, 2, 1, 5, 8).reshape(gh * gw, -1)
            t = ten(r["patches"])
            if gt != 1 or t.shape != x.shape or np.abs(t - x).max() > 1e-4:
                bad("qwen_patches", f"{shown}: patches {t.shape} are not the picture's", grid=r["grid"])
            c.observe("patches", gh * gw)
        add({"op": "qwen", "path": str(p), "min": mn, "max": mx}, j, p.name)
    mq = []
    MAXN, RES, PAT = 9, 448, 14
    while len(mq) < scale(600, 6000):
        mq.append([rng.randint(10, 4000), rng.randint(10, 4000), rng.random() < .1])

    def div(x, n):
        return {max(y * n, n) for y in ({math.floor(x / n), math.floor(x / n) + 1} if tie(x / n) else {round(x / n)})}

    def jsl(r, shown):
        def best(w, h, up):
            near = False
            if w * h > RES * RES or up:
                q = w / h
                hf = RES / math.sqrt(q)
                hh = int(hf)
                wf = hh * q
                near = abs(hf - round(hf)) < 1e-3 or abs(wf - round(wf)) < 1e-3
                w, h = int(wf), hh
            return {(x, y) for x in div(w, PAT) for y in div(h, PAT)}, near
        for (w, h, never), o in zip(mq, r["r"]):
            c.observe("slice_sizes")
            lr, m = math.log(w / h), min(math.ceil(w * h / RES**2), MAXN)
            grid = []
            if m > 1 and not never:
                errs = []
                for k in (m - 1, m, m + 1):
                    if k == 1 or k > MAXN:
                        continue
                    for q in range(1, k + 1):
                        if k % q == 0:
                            errs.append((abs(lr - math.log(q / (k // q))), [q, k // q]))
                mn = min(e for e, _ in errs)
                grid = [g for e, g in errs if e < mn + 1e-5]
            if (o["grid"] not in grid) if grid else o["grid"]:
                bad("slice_grid", f"{w}x{h}: grid {o['grid']} should be {grid}", size=[w, h])
            for key, up in (("best", False), ("up", True)):
                want, near = best(w, h, up)
                if not near and tuple(o[key]) not in want:
                    bad("slice_size", f"{w}x{h}: resized to {o[key]}, should be {sorted(want)}", size=[w, h])
            if o["grid"]:
                gx, gy = o["grid"]
                want, anynear = set(), False
                for rw in div(w, gx):
                    for rh in div(h, gy):
                        s, near = best(rw // gx if rw % gx == 0 else rw / gx, rh // gy if rh % gy == 0 else rh / gy, True)
                        anynear |= near
                        want |= {(x * gx, y * gy) for x, y in s}
                if not anynear and tuple(o["refine"]) not in want:
                    bad("slice_refine", f"{w}x{h} in {o['grid']}: refined to {o['refine']}, should be {sorted(want)}", size=[w, h])
    add({"op": "slices", "max": MAXN, "res": RES, "patch": PAT, "sizes": mq}, jsl, "")
    for n in range(scale(12, 80)):
        p, a, tol, kind = picture("rgb", (rng.randint(20, 90), rng.randint(20, 90)))

        def j(r, shown):
            if not r["grid"]:
                return c.observe("unsliced")
            gx, gy = r["grid"]
            im = px(r["refined"])
            ph, pw = im.shape[0] // gy, im.shape[1] // gx
            P = r["patches"]
            ok = len(P) == gy and all(len(x) == gx for x in P)
            for y in range(gy if ok else 0):
                for x in range(gx):
                    q = px(P[y][x])
                    ok = ok and q.shape == (ph, pw, 3) and (q == im[y * ph:(y + 1) * ph, x * pw:(x + 1) * pw]).all()
                    c.observe("slices")
            if not ok:
                bad("slice_patches", f"{shown}: the slices are not the parts of the refined picture", grid=r["grid"])
        add({"op": "slice_image", "path": str(p), "max": 9, "res": 28, "patch": 7}, j, p.name)
        c.case("slice_image")

    # ------------------------------------------------------------------- sound
    def wav(bits, ch, rate, data, n):
        """A file of chunks in some legal order, and how it was laid out."""
        fmt = struct.pack("<HHIIHH", 1, ch, rate, rate * ch * bits // 8, ch * bits // 8, bits)
        lay = rng.choice(["plain", "plain", "fmt18", "ext", "list", "fact", "junk", "odd", "stream"])
        if lay == "fmt18":
            fmt += b"\0\0"
        if lay == "ext":
            fmt = struct.pack("<H", 0xFFFE) + fmt[2:] + struct.pack("<HHI", 22, bits, 0) + b"\x01\0\0\0\0\0\x10\0\x80\0\0\xaa\0\x38\x9b\x71"
        def ck(i, x):
            return i + struct.pack("<I", len(x)) + x + (b"\0" if len(x) & 1 else b"")
        pre = ck(b"JUNK", bytes(28)) if lay == "junk" else b""
        mid = ck(b"LIST", b"INFOISFT\x06\0\0\0Lavf58") if lay == "list" else ck(b"fact", struct.pack("<I", n)) if lay == "fact" else ck(b"note", b"abc") if lay == "odd" else b""
        dat = ck(b"data", data)
        if lay == "stream":
            dat = b"data\xff\xff\xff\xff" + data
        body = b"WAVE" + pre + ck(b"fmt ", fmt) + mid + dat + (ck(b"LIST", b"INFOISFT\x06\0\0\0Lavf58") if lay == "plain" and rng.random() < .3 else b"")
        return b"RIFF" + struct.pack("<I", len(body)) + body, lay

    def encode(x, bits):
        if bits == 8:
            q = np.clip(np.round(x * 128 + 128), 0, 255).astype(np.uint8)
            return q.tobytes(), (q.astype(float) - 128) / 128
        if bits == 16:
            q = np.clip(np.round(x * 32768), -32768, 32767).astype("<i2")
            return q.tobytes(), q / 32768.
        q = np.clip(np.round(x * 2.**31), -2.**31, 2.**31 - 128).astype("<i4")
        return q.tobytes(), q / 2.**31

    def resample(x, o, nw):
        """Windowed sinc interpolation, width 6, roll-off 0.99, Hann window; x: channels by samples."""
        if o == nw:
            return x
        g = math.gcd(o, nw)
        o, nw = o // g, nw // g
        base = min(o, nw) * .99
        width = math.ceil(6 * o / base)
        t = (np.arange(-width, width + o)[None] / o - np.arange(nw)[:, None] / nw) * base
        t = t.clip(-6, 6)
        win = np.cos(t * math.pi / 12)**2
        k = np.sinc(t) * win * base / o
        out = []
        for r_ in x:
            p = np.pad(r_, (width, width + o))
            m = (len(p) - k.shape[1]) // o + 1
            fr = np.lib.stride_tricks.sliding_window_view(p, k.shape[1])[::o][:m]
            out.append((fr @ k.T).reshape(-1)[:math.ceil(nw * x.shape[1] / o)])
        return np.array(out)

    def sound(n, ch, amp=.9):
        k = rng.random()
        t = np.arange(n)
        if k < .5:
            return nr.uniform(-amp, amp, (ch, n))
        return np.array([amp * np.sin(t * rng.uniform(.01, 1.) + i) for i in range(ch)]).reshape(ch, n)

    nw = [0]

    def wavfile(n, ch, rate, bits, kind=None):
        x = sound(n, ch) if kind is None else nr.uniform(-.9, .9, (ch, n))
        bs, q = encode(x.T.reshape(-1), bits)
        f, lay = wav(bits, ch, rate, bs, n)
        nw[0] += 1
        p = d / f"s{nw[0]}.wav"
        p.write_bytes(f)
        return p, q.reshape(n, ch).T, lay, f

    for n in range(scale(260, 2500)):
        ch, rate, bits = rng.choice([1, 1, 2, 3]), rng.choice([8000, 16000, 16000, 22050, 44100, 48000, 11025, 24000]), rng.choice([8, 16, 16, 16, 32])
        N = rng.choice([rng.randint(1, 40), rng.randint(100, 3000)])
        p, q, lay, f = wavfile(N, ch, rate, bits)
        to = rng.choice([16000, 16000, 16000, 24000, rate])

        def j(r, shown, q=q, rate=rate, to=to, bits=bits, ch=ch, lay=lay):
            want = resample(q, rate, to).mean(0)
            got = np.frombuffer(bytes.fromhex(r["v"]), np.float32).astype(float)
            if len(got) != len(want):
                return bad("wav_length", f"{shown} ({lay}, {bits} bits, {ch} channels, {rate}->{to}): {len(got)} samples, should be {len(want)}", file=shown)
            e = np.abs(got - want).max()
            if not e <= 1e-3 * (1 if rate != to else .01):
                bad("wav_samples", f"{shown} ({lay}, {bits} bits, {ch} channels, {rate}->{to}): samples differ by up to {e:.5f}", file=shown)
            c.observe("samples", len(got))
            c.observe("wav_resampled" if rate != to else "wav_plain")
            c.observe(f"wav_{bits}bit")
        add({"op": "wav", "path": str(p), "rate": to}, j, p.name)
        c.case(f"wav:{bits}:{ch}:{rate}:{to}:{lay}")
    for n in range(scale(120, 900)):
        p, q, lay, f = wavfile(rng.randint(0, 60), rng.choice([1, 2]), 16000, rng.choice([8, 16, 32]))
        bs = bytearray(f)
        k = rng.random()
        if k < .4:
            del bs[rng.randrange(0, len(bs)):]
        else:
            for _ in range(rng.randint(1, 4)):
                bs[rng.randrange(0, min(len(bs), 70))] = rng.choice([0, 0, 255, rng.randrange(256)])
        p.write_bytes(bytes(bs))
        add({"op": "refuse", "what": rng.choice(["wav", "wav", "clips"]), "path": str(p), "rate": 16000}, contained("wav"), p.name)
        c.case(f"damaged_wav:{lay}")
    add({"op": "refuse", "what": "wav", "path": str(d / "missing.wav"), "rate": 16000}, refused("wav"), "missing")
    add({"op": "refuse", "what": "clips", "path": str(d / "missing.wav"), "rate": 16000}, refused("clips"), "missing")
    for bits, tag in ((24, 1), (32, 3), (4, 1), (0, 1)):
        p, q, lay, f = wavfile(40, 1, 16000, 16)
        p.write_bytes(b"RIFF" + struct.pack("<I", 36 + 80) + b"WAVEfmt " + struct.pack("<IHHIIHH", 16, tag, 1, 16000, 32000, 2, bits) + b"data" + struct.pack("<I", 80) + bytes(80))
        add({"op": "refuse", "what": "wav", "path": str(p), "rate": 16000}, refused("wav_depth"), f"{bits} bits, format {tag}")

    # Mel features of clips.
    def fbank(x):
        n = len(x)
        if n < 400:
            return np.zeros((0, 128))
        win = (.5 - .5 * np.cos(2 * np.pi * np.arange(400) / 399))**.85
        mel = lambda f: 1127 * np.log(1 + f / 700.)  # noqa: E731
        lo, hi = mel(20), mel(8000)
        dl = (hi - lo) / 129
        fm = mel(np.arange(256) * 16000 / 512)
        B = np.zeros((128, 256))
        for i in range(128):
            l, ce, r_ = lo + i * dl, lo + (i + 1) * dl, lo + (i + 2) * dl
            B[i] = np.where((fm > l) & (fm < r_), np.where(fm <= ce, (fm - l) / (ce - l), (r_ - fm) / (r_ - ce)), 0)
        out = []
        for i in range(1 + (n - 400) // 160):
            s = x[i * 160:i * 160 + 400]
            s = s - s.mean()
            s = np.concatenate([[s[0] * .03], s[1:] - .97 * s[:-1]]) * win
            P = np.abs(np.fft.rfft(s, 512))[:256]**2
            out.append(np.log(np.maximum(B @ P, 1.1920929e-07)))
        return np.array(out)

    groups = []
    for n in range(scale(14, 80)):
        secs = [rng.uniform(.01, 1.9), rng.uniform(1.9, 2.1), rng.uniform(2.1, 9), rng.uniform(10.3, 30)][n % 4]
        rate = rng.choice([16000, 16000, 8000, 48000])
        ch = rng.choice([1, 1, 2])
        p, q, lay, f = wavfile(int(secs * rate), ch, rate, 16, "noise")
        groups.append((p, q, rate))
    while groups:
        g, groups = groups[:rng.randint(1, 3)], groups[3:] if False else groups
        groups = groups[len(g):]

        def j(r, shown, g=g):
            for (p, q, rate), clips in zip(g, r["files"]):
                x = resample(q[:1], rate, 16000)[0]
                mx = max(Fraction(0), Fraction(len(x), 16000) - 2)
                if len(clips) != 3:
                    bad("clips", f"{p.name}: {len(clips)} clips", file=p.name)
                    continue
                for i, cl in enumerate(clips):
                    st = int(mx / 2 * i * 16000)
                    best = 1e9
                    for s0 in {st, st + 1, max(st - 1, 0)}:
                        F = fbank(x[s0:s0 + 32000])
                        F = (np.vstack([F[:204], np.zeros((204 - len(F[:204]), 128))]) + 4.268) / 9.138
                        got = np.frombuffer(bytes.fromhex(cl["v"]), np.float32).reshape(cl["rows"], cl["cols"]).astype(float)
                        if got.shape != (128, 204):
                            break
                        best = min(best, np.abs(got - F.T).max())
                    c.observe("clips")
                    if best > .02:
                        bad("clip_features", f"{p.name} ({len(x)} samples at 16 kHz): features of clip {i} (from sample {st}) differ by {best:.3f}", file=p.name)
        add({"op": "clips", "paths": [str(p) for p, _, _ in g]}, j, ",".join(p.name for p, _, _ in g))
        c.case(f"clips:{len(g)}:{[q.shape[1] // 16000 for _, q, _ in g]}")

    # Whisper's window and mel filters (the operators after them are not written for x86).
    def slaney(f):
        f = np.asarray(f, float)
        return np.where(f < 1000, 3 * f / 200, 15 + np.log(np.maximum(f, 1) / 1000) * 27 / math.log(6.4))

    def unslaney(m):
        return np.where(m < 15, 200 * m / 3, 1000 * np.exp(math.log(6.4) / 27 * (m - 15)))
    for n in range(scale(60, 500)):
        N, per = rng.randint(2, 600), rng.random() < .5
        bins, mels, lo, hi, rate = rng.choice([201, 257, 129, 513]), rng.choice([80, 128, 40, 100]), rng.choice([0., 0., 20.]), rng.choice([8000., 4000.]), rng.choice([16000, 24000])

        def j(r, shown, N=N, per=per, q=(bins, mels, lo, hi, rate)):
            bins, mels, lo, hi, rate = q
            w = .5 - .5 * np.cos(2 * np.pi * np.arange(N) / (N if per else N - 1))
            t = ten(r["win"]).reshape(-1)
            if t.shape != w.shape or np.abs(t - w).max() > 1e-5:
                bad("hann", f"Hann window of {N} (periodic {per}) differs by {np.abs(t - w).max():.5f}", n=N)
            ff = np.linspace(0, rate / 2, bins)
            pts = unslaney(np.linspace(slaney(lo), slaney(hi), mels + 2))
            MB = np.array([np.maximum(0, np.minimum((ff - pts[i]) / (pts[i + 1] - pts[i]), (pts[i + 2] - ff) / (pts[i + 2] - pts[i + 1]))) * 2 / (pts[i + 2] - pts[i]) for i in range(mels)])
            t = ten(r["bank"]).T
            if t.shape != MB.shape or np.abs(t - MB).max() > 1e-5 + 1e-3 * MB.max():
                bad("mel_bank", f"mel filters {q} differ by {np.abs(t - MB).max():.6f} of {MB.max():.6f}", q=q)
            c.observe("mel_filters", mels)
        add({"op": "mel", "n": N, "periodic": per, "bins": bins, "mels": mels, "lo": lo, "hi": hi, "rate": rate}, j, f"{N}")
        c.case(f"mel:{bins}:{mels}")

    src, dst = d / "cases.jsonl", d / "out.jsonl"
    src.write_text("".join(json.dumps(x) + "\n" for x in cases))
    dst.write_text("")
    cpp.run(c, exe, args=[src, dst], timeout=scale(500, 3000), label="media", leaks=r"preprocessor/(audio|visual)/|wenet_audio")
    got = dst.read_text().splitlines()
    for line, case, (judge, shown) in zip(got, cases, judges):
        r = json.loads(line)
        if "exception" in r:
            bad("exception_" + case["op"], f"{case['op']} {shown}: {r['exception']}", case={k: v for k, v in case.items() if k != "v"})
        else:
            judge(r, shown)
            c.observe("judged")
    if len(got) < len(cases) and not c.viol:
        raise HarnessError(f"{len(got)} results of {len(cases)}")
    for k, n in dict(judged=900, step_resize=80, step_crop=80, step_pad=30, step_center=30, step_shorter=25, opened_rgb=60, opened_rgba=10, opened_l=10, opened_p=10, opened_i16=10, opened_jpg=10, saved=40, pipelines=70, normalized=140,
                     smart_sizes=500, slice_sizes=500, slices=30, patches=20, wav_plain=30, wav_resampled=60, wav_8bit=15, wav_32bit=15, clips=30, mel_filters=2000, damaged=120, refusals=12).items():
        c.require(k, n)
    for f in list(d.glob("pic*")) + list(d.glob("dmg*")) + list(d.glob("s*.wav")) + list(d.glob("out*.[pjbPJ]*")):
        if not c.viol:
            f.unlink(missing_ok=True)
    c.finish()


run_main(c, main)

"""C18: background normalisation and the grey-level threshold."""
import numpy as np
from vp import call, fx
import c16
import discorpy.prep.preprocessing as prep

ID = "C18"
MC = [("MC_Back", "MC_Back.cfg")]
TRACE = ("T_Back", "T.cfg")


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    for n, m in enumerate(model["MC_Back"][:ctx.pick(150, 1000)]):
        out.append(dict(op="norm", G=m["G"], n=m["n"], dt=["uint8", "float32", "float64", "int16"][n % 4], lay=n % 3))
    for n in range(ctx.pick(90, 900)):
        h, w = rng.randint(2, 12), rng.randint(2, 12)
        q = rng.choice([0, 0, .3, .8])
        G = [[0 if rng.random() < q else rng.randint(0 if q else 1, 40) for _ in range(w)] for _ in range(h)]
        out.append(dict(op="norm", G=G, n=rng.choice([1, 3, 3, 5, 5, 7, 2, 4]), dt=rng.choice(["uint8", "uint16", "float32", "float64", "int16"]), lay=rng.randrange(3)))
    for n in range(ctx.pick(77, 550)):
        out.append(dict(op="fft", what=["constant", "scale", "transpose", "flip", "mirror", "flat", "median-scale", "median-flip", "detail", "median-detail", "padding"][n % 11],
                        h=rng.randint(20, 70), w=rng.randint(20, 70), sigma=rng.choice([5, 8, 10]), pad=rng.choice([10, 20, 40]), mode=rng.choice(["reflect", "edge", "constant", "mean", "linear_ramp", "symmetric", "wrap"]), seed=rng.randrange(10 ** 6)))
    for n in range(ctx.pick(60, 500)):
        h, w = rng.randint(8, 70), rng.randint(8, 70)
        d = dict(h=h, w=w, bgr=rng.choice(["bright", "dark"]), snr8=rng.choice([8, 16, 16, 24, 4]), seed=rng.randrange(10 ** 6), lo=rng.randint(-50, 200), rg=rng.randint(1, 400))
        out.append(dict(d, op="ramp"))
        out.append(dict(d, op="thr", what=["affine", "shuffle", "snr", "transpose"][n % 4]))
        if n % 3 == 0:
            h, w = rng.choice([(rng.randint(150, 400), rng.randint(60, 90)), (rng.randint(400, 1500), rng.randint(9, 30)), (rng.randint(9, 30), rng.randint(400, 1500))])
            out.append(dict(d, op="tails", h=h, w=w))
    for n in range(ctx.pick(40, 300)):
        out.append(dict(op="between", h=rng.randint(40, 110), w=rng.randint(40, 110), bgr=rng.choice(["bright", "dark"]), step=rng.randint(11, 16), gap=rng.uniform(40, 200),
                        noise=rng.uniform(.2, 2), seed=rng.randrange(10 ** 6)))
    return out


def vals(a, n=40):
    a = np.asarray(a, dtype=float).ravel()
    return [fx(v, 4096) for v in a[::max(1, len(a) // n)]]


def execute(s):
    op = s["op"]
    e = dict(op=op, out="ok")
    rs = np.random.RandomState(s.get("seed", 0))
    if op == "norm":
        a = c16.layout(np.array(s["G"], dtype=s["dt"]), s["lay"])
        e["out"], r = call(prep.normalization, a, size=s["n"])
        e.update(G=s["G"], n=s["n"], h=a.shape[0], w=a.shape[1])
        if e["out"] == "ok":
            r = np.asarray(r)
            e["oh"], e["ow"] = r.shape
            e["res"] = [[fx(v, 1024) for v in q] for q in r]
        return e
    if op == "fft":
        w = s["what"]
        kw = dict(sigma=s["sigma"], pad=s["pad"])
        f = lambda m: call(prep.normalization_fft, m, **kw)
        m = rs.rand(s["h"], s["w"]) + 1
        if w.startswith("median"):
            f = lambda m: call(prep.normalization, m, size=7)
        if w.endswith("detail"):       # fine structure survives, shading goes
            h, wd = s["h"] + 60, s["w"] + 60
            y, x = np.mgrid[:h, :wd]
            a, b = rs.uniform(.1, .25, 2)
            q = rs.randint(4, 7) if w == "detail" else 9
            on = (x % q == q // 2) & (y % q == q // 2)
            fine = 1 - rs.uniform(.2, .6) * on if w == "median-detail" else 1 + .2 * np.cos(2 * np.pi * x / q) * np.cos(2 * np.pi * y / q)
            m = 100 * (1 + a * np.sin(x / 50 + a * 9) + b * np.cos(y / 45 + b * 7)) * fine
            e["out"], r = call(prep.normalization_fft, m, sigma=10, pad=100) if w == "detail" else call(prep.normalization, m, size=7)
            e.update(op="agree", what=w, tol=40)
            if e["out"] == "ok":
                c = np.s_[12:-12, 12:-12]
                e.update(A=vals(r[c] / r[c].mean()), B=vals(fine[c] / fine[c].mean()))
            return e
        if w == "padding":             # padding is what numpy calls by that name
            m = m * (1 + np.mgrid[:s["h"], :s["w"]][s["seed"] % 2] / 20)
            p = s["pad"] = min(s["pad"], 18)
            e["out"], a = call(prep.normalization_fft, m, s["sigma"], p, s["mode"])
            o2, b = call(prep.normalization_fft, np.pad(m, p, mode=s["mode"]), s["sigma"], 0)
            e.update(op="agree", what=w, tol=6)
            if e["out"] == "ok" and o2 == "ok":
                b = b[p:-p, p:-p]
                e.update(A=vals(a / a.mean()), B=vals(b / b.mean()))
            elif e["out"] == "ok":
                e["out"] = o2
            return e
        if w == "flat":
            h, wd = s["h"] + 60, s["w"] + 60
            y, x = np.mgrid[:h, :wd]
            a, b = rs.uniform(.1, .3, 2)
            m = 100 * (1 + a * np.sin(x / 50 + a * 9) + b * np.cos(y / 45 + b * 7))
            e["out"], r = call(prep.normalization_fft, m, sigma=10, pad=100)
            e.update(op="flat", f=3)
            if e["out"] == "ok":
                e.update(ms=fx((m.max() - m.min()) / m.mean(), 4096), rs=fx((r.max() - r.min()) / r.mean(), 4096))
            return e
        e.update(op="agree", what=w, tol=3)
        if w == "constant":
            e["tol"] = 60              # odd frames leak a little
            m[:] = m[0, 0] * 7
            e["out"], r = f(m)
            if e["out"] == "ok":
                e.update(A=vals(r), B=vals(m))
            return e
        g = {"scale": lambda m: m * 2.5, "transpose": lambda m: m.T, "flip": lambda m: m[::-1], "mirror": lambda m: m[:, ::-1],
             "median-scale": lambda m: m * 2.5, "median-flip": lambda m: m[::-1, ::-1]}[w]
        o1, a = f(m)
        o2, b = f(g(m))
        e["out"] = o1 if o1 != "ok" else o2
        if w in ("flip", "mirror"):   # the window is centred half a pixel off
            e["tol"] = 40
        if e["out"] == "ok":
            e.update(A=vals(g(a)), B=vals(b))
        return e
    if op == "ramp":
        m = s["lo"] + np.linspace(0, s["rg"], s["h"] * s["w"])
        rs.shuffle(m)
        kw = dict(bgr=s["bgr"], snr=s["snr8"] / 8)
        if s["snr8"] == 16 and s["bgr"] == "bright":
            kw = {}
        e["out"], t = call(prep.calculate_threshold, m.reshape(s["h"], s["w"]), **kw)
        e.update(lo=fx(s["lo"], 64), hi=fx(s["lo"] + s["rg"], 64), bgr=s["bgr"], snr8=s["snr8"])
        if e["out"] == "ok":
            e["t"] = fx(t, 64)
        return e
    if op == "tails":
        # dots, dust and hot pixels in either tail do not matter
        n = s["h"] * s["w"]
        m = s["lo"] + np.linspace(0, s["rg"], n)
        a, b = int(.22 * n), int(.78 * n)
        m[:a] -= s["rg"] * rs.uniform(.5, 9)
        m[b:] += s["rg"] * rs.uniform(.5, 9)
        rs.shuffle(m)
        e["out"], t = call(prep.calculate_threshold, m.reshape(s["h"], s["w"]), bgr=s["bgr"], snr=s["snr8"] / 8)
        e.update(op="ramp", lo=fx(s["lo"], 64), hi=fx(s["lo"] + s["rg"], 64), bgr=s["bgr"], snr8=s["snr8"])
        if e["out"] == "ok":
            e["t"] = fx(t, 64)
        return e
    if op == "thr":
        m = rs.gamma(3, 10, (s["h"], s["w"]))
        f = lambda m, snr=s["snr8"] / 8: call(prep.calculate_threshold, m, s["bgr"], snr)
        o1, a = f(m)
        if s["what"] == "affine":
            k, c = [(3.0, 11.0), (2e-5, 0.0), (4e4, -9.0), (2e-5, 1e-3)][s["seed"] % 4]
            o2, b = f(m * k + c)
            b = (b - c) / k
        elif s["what"] == "shuffle":
            p = m.ravel().copy()
            rs.shuffle(p)
            o2, b = f(p.reshape(m.shape))
        elif s["what"] == "transpose":
            o2, b = f(m.T)
        else:
            # the threshold moves in proportion to the signal-to-noise ratio
            o2, t0 = f(m, 0.0)
            o3, t1 = f(m, 1.0)
            b = t0 + (t1 - t0) * s["snr8"] / 8
        e.update(op="agree", what="threshold-" + s["what"], tol=8, out=o1 if o1 != "ok" else o2)
        if e["out"] == "ok":
            e.update(A=[fx(a, 4096)], B=[fx(b, 4096)])
        return e
    y, x = np.mgrid[:s["h"], :s["w"]]
    q = s["step"]
    d = (x % q - q // 2) ** 2 + (y % q - q // 2) ** 2 <= (.22 * q) ** 2
    lo, hi = 30.0, 30.0 + s["gap"]
    bg, dot = (hi, lo) if s["bgr"] == "bright" else (lo, hi)
    m = np.where(d, dot, bg) + rs.uniform(-1, 1, d.shape) * s["noise"]
    e["out"], t = call(prep.calculate_threshold, m, s["bgr"])
    e.update(lo=fx(lo, 64), hi=fx(hi, 64))
    if e["out"] == "ok":
        e["t"] = fx(t, 64)
    return e


def corrupt(e):
    if e["op"] == "norm":
        for q in e["res"]:
            for i, v in enumerate(q):
                if 0 < v < 2 ** 20:
                    q[i] += v // 2 + 40
                    return e
        return None
    if e["op"] == "agree":
        e["A"][0] += 200
    elif e["op"] == "flat":
        e["rs"] = e["ms"]
    elif e["op"] == "ramp":
        e["t"] += 9
    else:
        e["t"] = e["hi"] + 1
    return e

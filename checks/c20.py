"""C20: one-dimensional profiles: sub-pixel positions, slopes, extrema, peaks."""
import math
import numpy as np
from vp import call, fx
import discorpy.prep.linepattern as lp

ID = "C20"
MC = [("MC_Signal", "MC_Signal.cfg")]
TRACE = ("T_Signal", "T.cfg")
DT = ["list", "float64", "int64", "float32", "uint8", "int16", "uint16", "tuple"]
Q = 1024


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    ms = model["MC_Signal"]
    rng.shuffle(ms)
    for n, m in enumerate(ms[:ctx.pick(400, 4000)]):
        out.append(dict(op="ext", y=m["y"], r=m["r"], opt=m["opt"], sens=m["sens"], sub=n % 2, dt=DT[n % 8]))
        if n % 2:
            out.append(dict(op="slope", y=m["y"], size=[1, 3, 4, 5, 6, 7, 8, 9, 30][n % 9], norm=n // 2 % 2, dt=DT[n % 8]))
        else:
            a = n // 2 % 4
            out.append(dict(op="sub", y=m["y"][a:a + [3, 3, 4, 5][n // 8 % 4]], opt=m["opt"], dt=DT[n % 8]))
    for n in range(ctx.pick(300, 4000)):
        N = rng.choice([1, 2, 3, 4, 5, 8, 12, 20, 33, 40])
        top = rng.choice([3, 9, 60, 100])
        y = [rng.randint(0 if rng.random() < .3 else 1, top) for _ in range(N)]
        if rng.random() < .2:
            i = rng.randrange(N)
            y[i:i + 4] = [y[i]] * len(y[i:i + 4])
        out.append(dict(op="ext", y=y, r=rng.choice([1, 2, 3, 4, 5, 7, 9, 50]), opt=rng.choice(["min", "max"]), sens=rng.choice([0, 3, 6, 13, 32, 64]), sub=rng.randrange(2), dt=rng.choice(DT)))
    for n in range(ctx.pick(200, 2500)):
        N = rng.randint(3, 7)
        if rng.random() < .5:
            a, x0, c = rng.choice([-3, -2, -1, 1, 2, 3]), rng.uniform(-1, N), rng.randint(0, 3)
            y = [int(round(a * (x - x0) ** 2 * rng.choice([1, 1, 2]))) for x in range(N)]
            y = [v - min(y) for v in y]
            y = [v % 60 if max(y) > 59 else v for v in y]
        else:
            y = [rng.randint(0, 20) for _ in range(N)]
        out.append(dict(op="sub", y=y, opt=rng.choice(["min", "max"]), dt=rng.choice(DT)))
        N = rng.choice([3, 4, 5, 6, 9, 15, 25])
        y = [rng.randint(0, 50) for _ in range(N)]
        if rng.random() < .3:
            y = [9 + (x * rng.choice([1, 1, 1, 2])) for x in range(N)]
        out.append(dict(op="slope", y=y, size=rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 7, 9, 11, 100]), norm=rng.randrange(2), dt=rng.choice(DT)))
    for n in range(ctx.pick(100, 1000)):           # signals with negative values, signals of tiny or huge values
        N = rng.choice([8, 12, 20, 33])
        lo = rng.choice([-60, -9, -100])
        y = [rng.randint(lo, rng.choice([-1, 3, 40])) for _ in range(N)]
        out.append(dict(op="ext", y=y, r=rng.choice([1, 2, 3, 4, 5]), opt=rng.choice(["min", "max"]), sens=rng.choice([0, 3, 6, 13, 32]), sub=rng.randrange(2), dt=rng.choice(["list", "float64", "int64", "float32", "int16"])))
        y = [rng.randint(-20, 50) for _ in range(N)]
        out.append(dict(op="slope", y=y, size=rng.choice([3, 4, 5, 7, 9]), norm=1 if n % 3 else 0, dt=rng.choice(["list", "float64"] if n % 2 else ["int64", "float32", "int16"]), k=rng.choice([1e-5, 1e-9, 1e7]) if n % 2 and n % 3 else 1))
    for n in range(6):
        out.append(dict(op="reject", N=n % 3, size=3 + n // 3))
    for n in range(ctx.pick(120, 1200)):
        out.append(dict(op="same", what=["scale", "mirror", "dual", "integers", "subpixel-near", "select-subset"][n % 6], N=rng.randint(24, 90), seed=rng.randrange(10 ** 6),
                        r=rng.choice([1, 2, 3, 5, 7]), sens=rng.choice([3, 6, 13]), opt=rng.choice(["min", "max"]), den=rng.randrange(2), norm=rng.randrange(2)))
    for n in range(ctx.pick(150, 1500)):
        T = rng.uniform(16, 36)
        out.append(dict(op="find", T=T, N=int(T * rng.uniform(5, 9)), ph=rng.uniform(0, 1), opt=rng.choice(["min", "max"]), den=rng.randrange(2), norm=0, sub=rng.randrange(2),
                        shade=rng.choice([0, 0, .2, -.2]), amp=rng.uniform(.4, .7), scale=rng.choice([1, 100, 50000]), dt=rng.choice(["float64", "float32", "int"]), r=rng.choice([.25, .33, .4]),
                        sel=0, w=rng.uniform(2, 3.5)))
    for n in range(ctx.pick(100, 1000)):
        out.append(dict(op="peaks", seed=rng.randrange(10 ** 6), radius=rng.choice([9, 11, 13, 15]), scale=rng.choice([1, 7.5, 1000]), base=rng.choice([0, 0, 3, 100]), noise=rng.choice([0, .01]),
                        use=rng.choice([True, False, None]), dt=rng.choice(["float64", "float32"]), tol=rng.choice([None, .2, .3])))
        if n % 2:
            out.append(dict(out[-1], ped=1, base=rng.choice([0, 0, 40, -3]), seed=rng.randrange(10 ** 6)))
    return out


def mk(y, dt):
    if dt == "list":
        return list(y)
    if dt == "tuple":
        return tuple(y)
    return np.array(y, dtype=dt)


def ext(y, **kw):
    return call(lp.get_local_extrema_points, y, limit=20, **kw)


def arr(r, q):
    return [fx(v, q) for v in np.asarray(r).ravel()]


def execute(s):
    op = s["op"]
    e = dict(op=op)
    if op == "sub":
        e["out"], r = call(lp.locate_subpixel_point, mk(s["y"], s["dt"]), option=s["opt"])
        e.update(y=s["y"], opt=s["opt"], p=fx(r, Q))
    elif op == "slope":
        y = s["y"] if s.get("k", 1) == 1 else [v * s["k"] for v in s["y"]]
        e["out"], r = call(lp.sliding_window_slope, mk(y, s["dt"]), size=s["size"], norm=bool(s["norm"]))
        e.update(y=s["y"], size=s["size"], norm=s["norm"], res=arr(r, Q) if e["out"] == "ok" else [])
    elif op == "reject":
        e["out"], r = call(lp.sliding_window_slope, [4] * s["N"], size=s["size"])
    elif op == "ext":
        kw = {} if s["sens"] == 0 else dict(sensitive=s["sens"] / 64)
        if s["sens"] == 0:
            kw = dict(sensitive=0.0)
        keep = mk(s["y"], s["dt"])
        e["out"], r = ext(keep, option=s["opt"], radius=s["r"], denoise=False, norm=False, subpixel=bool(s["sub"]), **kw)
        e.update(y=s["y"], r=s["r"], opt=s["opt"], sens=s["sens"], sub=s["sub"], res=arr(r, Q if s["sub"] else 1) if e["out"] == "ok" else [])
    elif op == "same":
        rs = np.random.RandomState(s["seed"])
        N = s["N"]
        y = rs.rand(N) + .5
        if s["what"] == "integers":
            y = np.floor(y * 1000)
        kw = dict(option=s["opt"], radius=s["r"], sensitive=s["sens"] / 64 + .001 * math.pi, denoise=bool(s["den"]), norm=bool(s["norm"]))
        w = s["what"]
        if w == "mirror":
            kw["norm"] = False
        e.update(what=w, tol=3)
        o1, A = ext(y, **kw)
        if w == "scale":
            o2, B = ext(y * 4, **kw)
        elif w == "mirror":
            o2, B = ext(y[::-1].copy(), **kw)
            if o2 == "ok":
                B = (N - 1) - np.asarray(B)[::-1]
        elif w == "dual":
            if kw["norm"]:
                kw["norm"] = False
            o1, A = ext(y, **dict(kw, option="max"))
            # the maxima are the minima of the signal hung from its (filtered) maximum
            o2, B = ext(y * 4, **dict(kw, option="max"))
        elif w == "integers":
            o2, B = ext(y.astype(np.int64), **kw)
        elif w == "subpixel-near":
            o1, A = ext(y, **dict(kw, subpixel=True))
            o2, B = ext(y, **dict(kw, subpixel=False))
            e["tol"] = Q // 2 + 3
        else:
            # without the selection every extremum is returned; with it, a selection
            o2, B = ext(y, **dict(kw, select_peaks=True, tol=.3))
            o1, A = ext(y, **dict(kw))
            if o1 == o2 == "ok":
                a = arr(A, Q)
                return dict(op="peaks", out="ok", peaks=a, good=[], wrong=[], res=arr(B, Q))
        e["out"] = o1 if o1 != "ok" else o2
        if e["out"] == "ok":
            e.update(A=arr(A, Q), B=arr(B, Q))
    elif op == "find":
        N, T = s["N"], s["T"]
        x = np.arange(N)
        d = (x - s["ph"] * T + T / 2) % T - T / 2
        g = np.exp(-(d / s["w"]) ** 2)
        y = 1 + s["amp"] * g if s["opt"] == "max" else 1 - s["amp"] * g
        y = (y * (1 + s["shade"] * x / N) * s["scale"])
        if s["dt"] == "int":
            y = np.round(y * (1 if s["scale"] > 1 else 1000)).astype(np.int64)
        else:
            y = y.astype(s["dt"])
        r = max(3, int(s["r"] * T))
        kw = dict(option=s["opt"], radius=r, sensitive=.04, denoise=bool(s["den"]), norm=bool(s["norm"]), subpixel=bool(s["sub"]))
        e["out"], res = ext(y, **kw)
        c = [s["ph"] * T + k * T for k in range(-1, 12)]
        c = [v for v in c if -1 <= v <= N]
        rr = min(r, N // 4)
        inner = [v for v in c if rr + 2 <= v <= N - 3 - rr]
        tol = .25 if s["sub"] else .75
        if s["shade"]:
            tol += .25
        e.update(truth=[fx(v, Q) for v in inner], all=[fx(v, Q) for v in c], tol=int(tol * Q), res=arr(res, Q) if e["out"] == "ok" else [])
    elif op == "peaks":
        rs = np.random.RandomState(s["seed"])
        R = s["radius"]
        gap = 2 * R + 6
        kinds = [rs.choice(["gauss", "flat", "ramp", "dip", "step", "off"]) if not s.get("ped") else rs.choice(["gauss", "gauss", "dip"]) for _ in range(6)]
        N = gap * 6 + gap
        y = np.zeros(N)
        x = np.arange(N)
        peaks, good, wrong = [], [], []
        p = gap // 2 + rs.randint(0, 3)
        for k in kinds:
            sg = rs.uniform(R / 6, R / 3.6)
            off = rs.uniform(-.4, .4)
            a = rs.uniform(.7, 1.5)
            if k == "gauss":
                y += a * np.exp(-((x - p - off) / sg) ** 2 / 2)
                good.append(p)
            elif k == "dip":
                y[p - R:p + R + 1] += a * (1 - np.exp(-((x[p - R:p + R + 1] - p) / sg) ** 2 / 2))
                if s["use"] is not False:
                    wrong.append(p)
            elif k == "off":       # the given place is on the side of a peak
                c = p + rs.choice([-1, 1]) * (R // 2 + rs.uniform(1, 2.5))
                y += a * np.exp(-((x - c) / sg) ** 2 / 2)
                wrong.append(p)
            elif k == "ramp":
                y[p - R - 2:p + R + 3] += np.linspace(0, a, 2 * R + 5)
                wrong.append(p)
            elif k == "step":
                y[p - R - 2:p + 1] += a
                wrong.append(p)
            else:
                wrong.append(p)
            peaks.append(int(p))
            p += gap
        if s.get("ped"):           # the peaks stand on plateaus of different heights
            for i in range(7):
                y[gap * i:gap * (i + 1)] += rs.uniform(-3, 3) * (1 if rs.rand() < .7 else 10)
        y = (s["base"] + s["scale"] * y).astype(s["dt"])
        kw = {} if s["use"] is None else dict(use_offset=s["use"])
        if s["tol"] is not None:
            kw["tol"] = s["tol"]
        if rs.rand() < .3:
            peaks = peaks[::-1]
        if rs.rand() < .3:
            peaks = [0, 1] + peaks + [N - 1]
        e["out"], r = call(lp.select_good_peaks, y, peaks, radius=R, **kw)
        e.update(peaks=[int(v) for v in peaks], good=[int(v) for v in good], wrong=[int(v) for v in wrong], res=arr(r, 1) if e["out"] == "ok" else [])
    return e


def corrupt(e):
    op = e["op"]
    if op == "sub":
        if len(set(e["y"])) < 3:
            return None
        e["p"] += 700
    elif op == "slope":
        e["res"][0] += 60
    elif op == "ext":
        e["res"] = e["res"] + [7 * Q]
        if e["sub"]:
            e["res"] += [8 * Q] * 20
    elif op == "same":
        e["A"] = e["A"] + [1]
    elif op == "reject":
        e["out"] = "ok"
    elif op == "peaks":
        e["res"] = e["res"] + [-3]
    else:
        e["res"] = e["res"] + [-9 * Q]
    return e

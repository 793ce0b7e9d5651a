"""C12: the perspective effect of a distorted grid is removed, nothing else."""
import numpy as np
import random
from vp import call, fx
import projdrv as pd
import c07
import discorpy.proc.processing as proc

ID = "C12"
MC = [("MC_Grid", "MC_Grid.cfg"), ("MC_Calib", "MC_Calib.cfg")]
TRACE = ("T_Grid", "T.cfg")
S = pd.S
METHODS = ["mean", "median", "min", "max"]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    base = list(model["MC_Calib"])
    rng.shuffle(base)
    base = base[:ctx.pick(40, 90)] + [c07.rand_grid(rng) for _ in range(ctx.pick(30, 300))]
    for n, b in enumerate(base):
        d = dict(R=b["R"], G=b["pts"], xc=b["xc"], yc=b["yc"])
        for z in range(2):
            out.append(dict(d, op="same", method=METHODS[(n + z) % 4], scale=rng.choice(["mean", "min", "max", 1.0]), defaults=int(n % 7 == 0)))
    for n in range(ctx.pick(70, 700)):
        b = view(rng)
        m = METHODS[n % 4]
        # the rotation of the corrected grid is free when it is hardly tilted
        bt = view(rng, rng.choice([-1, 1]) * rng.uniform(.02, .05))
        out.append(dict(b, op="persp", method=m, scale=rng.choice(["mean", "min", "max", 1.0, .8, 1.3]), defaults=int(n % 9 == 0)))
        for w in ("transpose", "mirror", "flip"):
            out.append(dict(bt if w == "transpose" else b, op="agree", what=w, method=m, scale=rng.choice(["mean", "min", "max"]), defaults=0))
        if n % 2:
            out.append(dict(b, op="zoom", method=m, f=int(S * rng.choice([.5, .8, 1.25, 1.5]))))
    for n in range(ctx.pick(40, 300)):
        R = 1024
        lines = [[[rng.randrange(-S, S), rng.randrange(-S, S)] for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(0, 5))]
        g = S // R
        if n % 6 > 2:
            lines = [[[v // g * g for v in p] for p in l] for l in lines]
        out.append(dict(op="shift", R=R, lines=lines, d=[rng.randrange(-S, S), rng.randrange(-S, S)], cast=n % 6))
    for n in range(ctx.pick(12, 60)):
        lines = [[[rng.randrange(-30 * S, 30 * S) for _ in range(2)] for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 4))]
        out.append(dict(op="shift", R=16, lines=lines, d=[rng.randrange(-25 * S, 25 * S), rng.randrange(-25 * S, 25 * S)], cast=n % 2))
    for w in ("up", "down", "left", "right", "one-h", "one-v"):
        for m in METHODS:
            out.append(dict(rej(rng, w), op="reject", what=w, method=m))
    return out


def rej(rng, w):
    """distorted grids which lack one kind of curve, or lines"""
    b = c07.rand_grid(rng)
    return dict(R=b["R"], G=b["pts"], xc=b["xc"], yc=b["yc"])


def view(rng, t=None, aspect=1.0):
    g = c07.rand_grid(rng)
    R = g["R"]
    p, nh, nv = g["pitch"], g["nh"], g["nv"]
    xc, yc = g["xc"] * R / S, g["yc"] * R / S
    K = [k / S / float(R) ** i for i, k in enumerate(g["K"])]
    t = rng.uniform(-.03, .03) if t is None else t
    c7, c8 = rng.uniform(-1, 1) * 1e-4, rng.uniform(-1, 1) * 1e-4
    oy, ox = rng.uniform(-20, 20), rng.uniform(-20, 20)
    pts = []
    for i in range(nh):
        row = []
        for j in range(nv):
            gx, gy = (j - (nv - 1) / 2) * p + ox, (i - (nh - 1) / 2) * p * aspect + oy
            x, y = gx - t * gy, gy + t * gx
            d = 1 + c7 * x + c8 * y
            x, y = x / d, y / d
            r = np.hypot(x, y)
            f = sum(k * r ** a for a, k in enumerate(K))
            row.append([yc + f * y, xc + f * x])
        pts.append(pd.pts(row, R))
    return dict(R=R, G=pts, xc=g["xc"], yc=g["yc"])


def fix(z, R):
    return [pd.pts(x, R) for x in z]


def execute(s):
    R = s["R"]
    e = dict(op=s["op"], R=R, out="ok")
    if s["op"] == "shift":
        u = S / R
        lines = [pd.unpts(l, R) for l in s["lines"]]
        lines = [lines, [l.tolist() for l in lines], [l.astype("f4") for l in lines], [np.round(l).astype("i8") for l in lines],
                 [np.round(l).astype(int).tolist() for l in lines], [np.round(l).astype("i2") for l in lines]][s["cast"]]
        e.update(lines=[pd.pts(np.asarray(l, dtype="f8"), R) for l in lines], d=s["d"])
        e["out"], r = call(proc.update_center, lines, s["d"][1] / u, s["d"][0] / u)
        if e["out"] == "ok":
            e["res"] = fix(r, R)
        return e
    A = pd.unpts(s["G"], R)
    nv = A.shape[1]
    H, V = list(A), [A[:, j] for j in range(nv)]
    xc, yc = s["xc"] * R / S, s["yc"] * R / S
    e["G"] = s["G"]
    if s["op"] == "reject":
        ch = np.array([np.polyfit(l[:, 1] - xc, l[:, 0], 2)[0] for l in H])
        cv = np.array([np.polyfit(l[:, 0] - yc, l[:, 1], 2)[0] for l in V])
        w = s["what"]
        if w == "up":
            H = [l for l, a in zip(H, ch) if a < 0]
        elif w == "down":
            H = [l for l, a in zip(H, ch) if a > 0]
        elif w == "left":
            V = [l for l, a in zip(V, cv) if a > 0]
        elif w == "right":
            V = [l for l, a in zip(V, cv) if a < 0]
        elif w == "one-h":
            H = H[:1]
        else:
            V = V[:1]
        e["out"], _ = call(proc.correct_perspective_effect, H, V, xc, yc, method=s["method"])
        return e
    if s["op"] == "zoom":
        for k, sc in (("A", "mean"), ("B", s["f"] / S), ("Lo", "min"), ("Hi", "max")):
            o, r = call(proc.correct_perspective_effect, H, V, xc, yc, method=s["method"], scale=sc)
            if o != "ok":
                e["out"] = o
            else:
                e[k] = fix(r[0], R)
        e["f"] = s["f"]
        return e
    kw = {} if s["defaults"] else dict(method=s["method"], scale=s["scale"])
    e["out"], r = call(proc.correct_perspective_effect, H, V, xc, yc, **kw)
    if e["out"] != "ok":
        return e
    if s["op"] == "agree":
        w = s["what"]
        e.update(what=w, tol1000=60, A=fix(r[0], R))
        sw = lambda L: [np.asarray(l)[:, ::-1].copy() for l in L]
        fl = lambda l, a: np.asarray(l) * np.where(np.arange(2) == a, -1, 1) + np.where(np.arange(2) == a, 1024, 0)
        if w == "transpose":
            o, q = call(proc.correct_perspective_effect, sw(V), sw(H), yc, xc, **kw)
            back = (lambda q: sw(q[1]))
        elif w == "mirror":
            o, q = call(proc.correct_perspective_effect, [fl(l, 1)[::-1] for l in H], [fl(l, 1) for l in V][::-1], 1024 - xc, yc, **kw)
            back = (lambda q: [fl(l, 1)[::-1] for l in q[0]])
        else:
            o, q = call(proc.correct_perspective_effect, [fl(l, 0) for l in H][::-1], [fl(l, 0)[::-1] for l in V], xc, 1024 - yc, **kw)
            back = (lambda q: [fl(l, 0) for l in q[0]][::-1])
        e["out"] = o
        if o == "ok":
            e["B"] = fix(back(q), R)
        return e
    e["H"], e["V"] = fix(r[0], R), fix(r[1], R)
    if s["op"] == "same":
        e.update(what="no-perspective", tol1000=800)
    return e


def corrupt(e):
    z = 3 * S // e["R"]
    if e["op"] == "reject":
        e["out"] = "ok"
    elif e["op"] == "shift":
        if not e["lines"]:
            return None
        e["res"][0][0][1] += z
    elif e["op"] == "agree":
        e["B"][0][0][0] += z
    elif e["op"] == "zoom":
        e["f"] += S // 20
    elif e["op"] == "same":
        e["H"][0][0][0] += z
    else:
        for p in e["H"][0]:
            p[0] += int(p[1] * .1)
    return e

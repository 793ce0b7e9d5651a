"""C21: masks, filters and rotations of lists of points."""
import math
import numpy as np
from vp import call, fx
import discorpy.prep.preprocessing as prep

ID = "C21"
MC = [("MC_Points", "MC_Points.cfg")]
TRACE = ("T_PointSets", "T.cfg")
TR = [[0, 1, 1], [3, 4, 5], [4, 3, 5], [5, 12, 13], [-5, 12, 13], [12, 5, 13], [7, 24, 25], [-7, 24, 25], [1, 0, 1], [0, -1, 1], [-1, 0, 1], [-3, -4, 5]]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    ms = model["MC_Points"]
    rng.shuffle(ms)
    for n, m in enumerate(ms[:ctx.pick(200, 2000)]):
        out.append(dict(m, op="mask", form=n % 3, q=0))

    def geo():
        h, w = rng.randint(3, 40), rng.randint(3, 40)
        mg = [rng.randint(0, h // 3), rng.randint(0, h // 3), rng.randint(0, w // 3), rng.randint(0, w // 3)]
        if rng.random() < .1:
            mg[rng.randrange(4)] = 60
        if rng.random() < .1:
            mg[0], mg[1] = h // 2, h - h // 2
        if rng.random() < .1:
            mg[2], mg[3] = w // 2, w - w // 2
        return dict(h=h, w=w, hc=rng.choice([0, 19, 20, 45, 64, 100, -20]), vc=rng.choice([0, 19, 20, 45, 64, 100, -20]), mg=mg, form=rng.randrange(3), q=0)
    for n in range(ctx.pick(120, 1200)):
        out.append(dict(geo(), op="mask"))
    for n in range(ctx.pick(60, 600)):
        g = dict(geo(), op="turn", q=rng.choice([1, 2, 2, 3]))
        if g["q"] != 2:
            g["h"] = g["w"] = max(g["h"], g["w"])
        out.append(g)
    for n in range(ctx.pick(200, 2000)):
        g = geo()
        P = []
        for _ in range(rng.randint(0, 25)):
            P.append([rng.randint(-64 * 6, 64 * (g["h"] + 6)), rng.randint(-64 * 6, 64 * (g["w"] + 6))] if rng.random() < .4 else [rng.randint(0, 64 * g["h"]), rng.randint(0, 64 * g["w"])])
        if rng.random() < .3:
            P = [[y // 64 * 64, x // 64 * 64] for y, x in P]
        if P and rng.random() < .2:
            P.append(list(P[0]))
        far = rng.random() < .15
        if far:                                  # so far out that a narrow integer would wrap back into the frame
            for _ in range(3):
                j = rng.randrange(2)
                p = [64 * (g["h"] // 2), 64 * (g["w"] // 2)]
                p[j] += rng.choice([-1, 1]) * 64 * rng.choice([256, 32768, 65536, 2 ** 17, 2 ** 23])
                P.insert(rng.randint(0, len(P)), p)
        out.append(dict(g, op="keep", P=P, dt=rng.choice(["float64", "float32"]) if any(v % 64 for p in P for v in p) else rng.choice(["float64", "int64", "int32"] + ["int16"] * (not far))))
    for n in range(ctx.pick(120, 1200)):
        P = [[rng.randint(-6400, 6400), rng.randint(-6400, 6400)] for _ in range(rng.randint(1, 9))]
        it = rng.random() < .3
        if it:
            P = [[y // 64 * 64, x // 64 * 64] for y, x in P]
        out.append(dict(op="rot", P=P, t=rng.choice(TR), deg=rng.randrange(2), dt=rng.choice(["list", "int64", "int16", "int8"] if it else ["list", "float64", "float32"])))
    for n in range(ctx.pick(30, 300)):           # tiny angles
        out.append(dict(op="rot", P=[[rng.randint(-6400, 6400), rng.randint(-6400, 6400)] for _ in range(5)], t=[rng.choice([-1, 1]) * rng.randint(1, 40), 16384, 16384], deg=n % 2, dt="float64"))
    for n in range(ctx.pick(30, 300)):           # masks turned by any angle
        h, w = rng.randint(14, 30), rng.randint(14, 30)
        out.append(dict(op="tilt", h=h, w=w, hc=rng.choice([0, 19, 45, -20]), vc=rng.choice([0, 19, 45, -20]), mg=[rng.randint(0, h // 5), rng.randint(0, h // 5), rng.randint(0, w // 5), rng.randint(0, w // 5)],
                        form=n % 3, q=0, t=rng.choice([t for t in TR if 0 not in t])))
    for n in range(ctx.pick(120, 1200)):
        ids = list(range(1, 12))
        P = [rng.choice(ids) for _ in range(rng.randint(0, 14))]
        R = [rng.choice(ids) for _ in range(rng.randint(0, 8))]
        out.append(dict(op="minus", P=P, R=R, dt=rng.choice(["float64", "int64", "list", "mixed"]), seed=rng.randrange(10 ** 6)))
    return out


def margins(s):
    t, b, l, r = s["mg"]
    f = s["form"]
    v = t if t == b and f == 0 else (t, b) if f != 1 else [t, b]
    h = l if l == r and f == 0 else (l, r) if f != 1 else [l, r]
    return dict(ver_margin=v, hor_margin=h, hor_curviness=s["hc"] / 64, ver_curviness=s["vc"] / 64)


def execute(s):
    op = s["op"]
    e = {k: v for k, v in s.items() if k not in ("form", "dt", "seed", "deg")}
    if op in ("mask", "turn", "tilt"):
        kw = margins(s)
        if op == "tilt":
            kw["rotate"] = math.degrees(math.atan2(s["t"][0], s["t"][1]))
        if s["q"]:
            kw["rotate"] = 90.0 * s["q"] if s["q"] < 3 else -90.0
        e["out"], r = call(prep.make_parabola_mask, s["h"], s["w"], **kw)
        if e["out"] == "ok":
            r = np.asarray(r)
            e["oh"], e["ow"] = r.shape
            e["bin"] = int(set(np.unique(np.round(r, 6)).tolist()) <= {0.0, 1.0, -0.0})
            e["px"] = [[int(a), int(b)] for a, b in zip(*np.nonzero(r > .5))]
        return e
    if op == "keep":
        P = np.array([[v / 64 for v in p] for p in s["P"]], dtype=s["dt"]).reshape(-1, 2)
        e["out"], r = call(prep.remove_points_using_parabola_mask, P, s["h"], s["w"], **margins(s))
        if e["out"] == "ok":
            e["res"] = [[fx(v, 64) for v in p] for p in np.asarray(r).reshape(-1, 2)]
        return e
    if op == "rot":
        P = [[v / 64 for v in p] for p in s["P"]]
        P = P if s["dt"] == "list" else np.array(P, dtype=s["dt"])
        if s["dt"] == "int8":
            P = np.clip(np.asarray(s["P"]) // 64, -99, 99).astype("int8")
            e["P"] = [[int(v) * 64 for v in p] for p in P]
        t = s["t"]
        a = math.atan2(t[0], t[1])
        e["out"], r = call(prep.rotate_points, P, math.degrees(a) if s["deg"] else a, **({} if s["deg"] else dict(degree_unit=False)))
        if e["out"] == "ok":
            e["res"] = [[fx(v, 1024) for v in p] for p in np.asarray(r).reshape(-1, 2)]
        return e
    rs = np.random.RandomState(s["seed"])
    # identities -> points; some share a coordinate, neighbours differ in the last bits
    tab = {0: (0.0, 0.0)}
    for i in range(1, 12):
        tab[i] = (float(rs.randint(0, 3)), float(rs.randint(0, 99)) + i * 1e-9 if s["dt"] != "int64" else float(i))
    inv = {v: k for k, v in tab.items()}
    mk = lambda ids, dt: [tab[i] for i in ids] if dt == "list" else np.array([tab[i] for i in ids], dtype="int64" if dt == "int64" else "float64").reshape(-1, 2)
    e["out"], r = call(prep.remove_subset_points, mk(s["R"], "list" if s["dt"] == "mixed" else s["dt"]), mk(s["P"], s["dt"] if s["dt"] != "mixed" else "float64"))
    if e["out"] == "ok":
        e["res"] = [inv.get((float(p[0]), float(p[1])), -1) for p in np.asarray(r).reshape(-1, 2)]
    return e


def corrupt(e):
    op = e["op"]
    if e["out"] != "ok":
        e["out"] = "ok"
    elif op == "mask":
        e["oh"] += 1
    elif op in ("turn", "tilt"):
        e["bin"] = 0
    elif op == "rot":
        e["res"][0][0] += 9
    else:
        e["res"] = e["res"] + [[-9999, -9999]] if op == "keep" else e["res"] + [77]
    return e

"""C14: grouping dots of strongly curved lines by polynomial fits."""
import random
import numpy as np
from vp import call, fx
import discorpy.prep.preprocessing as prep
from c13 import index

ID = "C14"
MC = [("MC_Poly", "MC_Poly.cfg")]
TRACE = ("T_Group", "T.cfg")
U = 256


def grid(rng, rows_cols, pitch, slope, curv, noise, ndist, power=2):
    """rows_cols: occupied columns of every row; curved rows; tilted by slope"""
    nr = len(rows_cols)
    nc = max(max(r) for r in rows_cols)
    th = np.arctan(slope)
    P, rows = [], []
    for i, cols in enumerate(rows_cols):
        q = curv * (i - (nr - 1) / 2) / max(1, nr)
        for j in cols:
            x = (j - (nc + 1) / 2 + rng.uniform(-noise, noise)) * pitch
            y = (i - (nr - 1) / 2 + q * (x / (pitch * nc / 2)) ** power + rng.uniform(-1, 1) * noise * .2) * pitch
            P.append([y, x])
            rows.append(i + 1)
    for _ in range(ndist):      # stray dots half-way between two rows
        i = rng.randrange(nr - 1)
        j = rng.choice(range(2, nc))
        x = (j - (nc + 1) / 2 + rng.uniform(-.4, .4)) * pitch
        q = curv * (i + .5 - (nr - 1) / 2) / max(1, nr)
        P.append([(i + .5 - (nr - 1) / 2 + q * (x / (pitch * nc / 2)) ** power) * pitch, x])
        rows.append(0)
    P = np.array(P)
    y, x = P[:, 0], P[:, 1]
    P = np.stack([x * np.sin(th) + y * np.cos(th), x * np.cos(th) - y * np.sin(th)], axis=1)
    off = max(0, -P.min()) + rng.uniform(5, 200)
    P = P + off
    idx = list(range(len(P)))
    rng.shuffle(idx)
    return [[int(round(v * U)) for v in P[i]] for i in idx], [rows[i] for i in idx]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    pats = [m["cols"] for m in model["MC_Poly"]]
    for n in range(ctx.pick(700, 6000)):
        nr = rng.randint(3, 8)
        kind = n % 4
        nc = rng.randint(9, 15)
        m = rng.choice([2, 3, 3, 5])
        full = list(range(1, nc + 1))
        if kind == 0:
            rows = [full] * nr
        elif kind == 1:         # rows of the model: gaps of one dot
            m = rng.choice([3, 4])
            nc = 13
            rows = [sorted(rng.choice(pats)) for _ in range(nr)]
            rows[0] = list(range(1, 14))
        elif kind == 2:         # short rows: only the middle, or only one end
            rows = [full] * nr
            c = (nc + 1) // 2
            rows[rng.randrange(nr)] = list(range(max(1, c - 2), min(nc, c + 2) + 1))
            m = 2
        else:                   # a few missing dots anywhere
            # the middle, where the lines start, is complete
            m = 3
            rows = [[c for c in full if c in (1, nc) or abs(c - (nc + 1) / 2) <= m + 1 or rng.random() > .3] for _ in range(nr)]
            rows = [r if max(b - a for a, b in zip(r, r[1:])) <= 2 else full for r in rows]
        pitch = rng.choice([20, 31.5, 48])
        slope = rng.choice([0, rng.uniform(-.3, .3)])
        ratio = rng.choice([.1, .1, .15, .2])
        # neighbours (of the starting part) stay within the admitted variation
        curv = rng.uniform(-1, 1) * rng.choice([0, .5, 1]) * ratio * 8 * (.5 if kind == 1 else 1)
        P, rw = grid(rng, rows, pitch, slope, curv, .02, rng.choice([0, 0, 1, 2]))
        num, den = rng.choice([(1, 2), (65, 100), (5, 8)])
        dr = rng.choice(["hor", "ver"])
        if kind == 1:
            num, den = rng.choice([(1, 4), (3, 10)])
        counts = [len(r) for r in rows]
        want = [i + 1 for i, c in enumerate(counts) if c * den >= num * max(counts)]
        s = dict(op="rows", dir=dr, P=[p[::-1] for p in P] if dr == "ver" else P, rows=rw, want=want, slope=slope,
                 d=pitch, ratio=ratio, m=m, acc=num / den, ov=rng.choice([.5, .5, 0.0, 1.0, .25]), order=2,
                 cast=rng.choice(["f8", "f8", "list", "f4"]), defaults=0)
        if s["ov"] > 0 and kind != 1 and m >= 3:
            s["order"] = rng.choice([2, 3])
        if kind in (0, 3) and n % 3 == 0 and ratio == .1:
            s["defaults"] = 1
            if kind == 3:
                s["want"] = [i + 1 for i, c in enumerate(counts) if c * 100 >= 65 * max(counts)]
        # tightly spaced grids: neighbours closer than the nominal distance
        if n % 10 == 7:
            s.update(m=1, d=pitch * rng.choice([1.0, 1.06]), op="mixed", acc=.3, order=2, defaults=0)
        out.append(s)
    # rows of fourth order, followed by fits of that order
    for n in range(ctx.pick(40, 400)):
        nr, nc, pitch = rng.randint(3, 7), 2 * rng.randint(15, 20) + 1, rng.choice([20, 31.5])
        slope = rng.choice([0, rng.uniform(-.2, .2)])
        P, rw = grid(rng, [list(range(1, nc + 1))] * nr, pitch, slope, max(-.5 * nr, rng.choice([-1, 1]) * rng.uniform(1, 2) * nr / (nr - 1)), 0.002, 0, 4)
        dr = rng.choice(["hor", "ver"])
        out.append(dict(op="rows", dir=dr, P=[p[::-1] for p in P] if dr == "ver" else P, rows=rw, want=list(range(1, nr + 1)), slope=slope, d=pitch,
                        ratio=.1, m=3, acc=.65, ov=.5, order=4, cast="f8", defaults=0))
    # very strong curvature: lines are often not followed to their ends, but
    # to the same dot whether they run along the rows or along the columns
    for n in range(ctx.pick(60, 900)):
        nr, nc, pitch, ratio = rng.randint(3, 8), rng.randint(9, 25), rng.choice([20, 31.5, 48]), rng.choice([.1, .15, .2])
        slope = rng.choice([0, rng.uniform(-.3, .3)])
        P, rw = grid(rng, [list(range(1, nc + 1))] * nr, pitch, slope, rng.uniform(-1, 1) * rng.choice([1, 2, 4]) * ratio * 8, .01,
                     rng.choice([0, 0, 3]), rng.choice([2, 2, 3, 4]))
        out.append(dict(op="twin", dir="hor", P=P, slope=slope, d=pitch, ratio=ratio, m=rng.choice([3, 4, 5]), acc=rng.choice([.3, .5, .65]),
                        ov=rng.choice([.5, .5, 0.0, 1.0, .25]), order=2))
    for d in ("hor", "ver"):
        for k in ("f8", "list"):
            out.append(dict(op="reject", dir=d, cast=k))
    return out


def execute(s):
    hor = s["dir"] == "hor"
    fn = prep.group_dots_hor_lines_based_polyfit if hor else prep.group_dots_ver_lines_based_polyfit
    e = dict(op=s["op"], dir=s["dir"])
    if s["op"] == "reject":
        e["out"] = call(fn, [] if s["cast"] == "list" else np.zeros((0, 2)), 0.0, 20.0)[0]
        return e
    P = np.array(s["P"], dtype=np.float64) / U
    if s["op"] == "twin":
        kw = dict(ratio=s["ratio"], num_dot_miss=s["m"], accepted_ratio=s["acc"], overlap_ratio=s["ov"], order=s["order"])

        def lines(fn, Q, back):
            o, r = call(fn, Q, s["slope"], s["d"], **kw)
            return o, [[index(P, p[::-1] if back else p, 2e-3) for p in l] for l in r] if o == "ok" else []
        h, v = prep.group_dots_hor_lines_based_polyfit, prep.group_dots_ver_lines_based_polyfit
        e["out"], e["res"] = lines(h, P, 0)
        e["out2"], e["res2"] = lines(v, P[:, ::-1].copy(), 1)
        rs = np.random.RandomState(5)
        e["near"] = [dict(zip(("out", "res"), lines(h, P + rs.uniform(-1e-4, 1e-4, P.shape), 0))) for _ in range(4)]
        return e
    a = {"f8": P, "list": P.tolist(), "f4": P.astype("f4")}[s["cast"]]
    kw = dict(ratio=s["ratio"], num_dot_miss=s["m"], accepted_ratio=s["acc"], overlap_ratio=s["ov"], order=s["order"])
    e["out"], r = call(fn, a, s["slope"], s["d"], **({} if s["defaults"] else kw))
    e.update(P=s["P"], rows=s["rows"], want=s["want"], res=[])
    if e["out"] == "ok":
        e["res"] = [[index(P, p, 2e-3) for p in l] for l in r]
    return e


def corrupt(e):
    if e["op"] == "reject":
        e["out"] = "ok"
    elif e["op"] == "twin":
        if any(x != dict(out=e["out"], res=e["res"]) for x in e["near"]) or not e["res2"]:
            return None
        e["res2"][0] = e["res2"][0][1:]
    elif e["op"] == "mixed":
        if not e["res"]:
            return None
        o = next(i for i, r in enumerate(e["rows"]) if r not in (0, e["rows"][e["res"][0][0] - 1]))
        e["res"][0][-1] = o + 1
    else:
        e["res"][0] = e["res"][0][1:]
    return e

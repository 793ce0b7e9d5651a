"""C10: targets of a perspective correction are rectangles / regular grids."""
import random
import numpy as np
from vp import call, fx
import projdrv as pd
import discorpy.proc.processing as proc

ID = "C10"
MC = [("MC_Grid", "MC_Grid.cfg")]
TRACE = ("T_Grid", "T.cfg")
S = pd.S
SC = ["mean", "min", "max", "factor"]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    grids = list(model["MC_Grid"])
    for n, m in enumerate(grids):
        G = m["G"]
        q = [G[0][0], G[0][-1], G[-1][0], G[-1][-1]]
        for z in range(ctx.pick(2, 6)):
            rng.shuffle(q)
            out.append(four(rng, m["R"], list(q), n + z))
        for z in range(ctx.pick(2, 6)):
            if m["nh"] < 3 or m["nv"] < 3:
                continue
            out.append(dict(op=["und", "st"][(n + z) % 2], R=m["R"], G=G, sc=rng.choice(SC + ["median"]), f=int(S * rng.choice([.5, .75, 1.25, 1.5])),
                            eq=rng.randint(0, 1), opt=rng.randint(0, 1), defaults=int(rng.random() < .15)))
        if m["nh"] >= 3 and m["nv"] >= 3 and n % 2:
            out.append(dict(op="scales", R=m["R"], G=G, f=int(S * rng.choice([.5, .75, 1.5]))))
    for n in range(ctx.pick(150, 2000)):
        R = rng.choice([256, 1024, 2048])
        w, h = rng.uniform(.2, .7), rng.uniform(.2, .7)
        oy, ox = rng.uniform(0.05, .9 - h), rng.uniform(0.05, .9 - w)
        if n % 3 == 0:      # tilted rectangle
            a = rng.uniform(-.3, .3)
            c, s = np.cos(a), np.sin(a)
            q = [[oy + i * h * c + j * w * s, ox + j * w * c - i * h * s] for i in (0, 1) for j in (0, 1)]
        else:
            j = lambda z: rng.uniform(-.2, .2) * z
            q = [[oy + j(h), ox + j(w)], [oy + j(h), ox + w + j(w)], [oy + h + j(h), ox + j(w)], [oy + h + j(h), ox + w + j(w)]]
        q = [[int(v * S) for v in p] for p in q]
        rng.shuffle(q)
        out.append(four(rng, R, q, n))
    for n in range(ctx.pick(60, 800)):
        R = rng.choice([512, 1024, 2048])
        nh, nv = rng.randint(3, 10), rng.randint(3, 10)
        c = pd.rand_c(rng, R, .5)
        if n % 2:
            a, sc = rng.uniform(-.2, .2), 1.0
            f = lambda v: int(round(v * S))
            c = [f(np.cos(a)), f(-np.sin(a)), f(.1), f(np.sin(a)), f(np.cos(a)), f(.12), 0, 0]
        ph, pv = rng.uniform(.4, .8) / nh, rng.uniform(.4, .8) / nv
        g = np.array([[[.05 + i * ph, .05 + j * pv] for j in range(nv)] for i in range(nh)]) * R
        G = [pd.pts(r, R) for r in pd.proj(pd.real_c(c, R), g)]
        out.append(dict(op=["und", "st"][(n // 2) % 2], R=R, G=G, sc=rng.choice(SC + ["median"]), f=int(S * rng.choice([.5, .75, 1.25, 1.5])),
                        eq=rng.randint(0, 1), opt=rng.randint(0, 1), defaults=int(rng.random() < .15)))
        if n % 2 == 0:
            out.append(dict(op="agree", R=R, G=G, sc=rng.choice(["mean", "min", "max", "median"]), f=S, eq=n // 2 % 2, opt=0, defaults=0))
        if n % 4 == 0:
            out.append(dict(op="scales", R=R, G=G, f=int(S * rng.choice([.5, .75, 1.5]))))
    # one gap next to the middle line is wider or narrower than the others
    for n in range(ctx.pick(40, 300)):
        R = 1024
        nh, nv = rng.randint(7, 11), rng.randint(7, 11)
        u = S // R
        dy, dx = rng.randint(30, 60), rng.randint(30, 60)
        gy, gx = int(dy * rng.uniform(.7, 1.5)), int(dx * rng.uniform(.7, 1.5))
        def pos(n, d, g):
            k = n // 2 - rng.randint(0, 1)          # the gap before or after the middle line
            return [40 + i * d + (g - d if i > k else 0) for i in range(n)]
        ys, xs = pos(nh, dy, gy), pos(nv, dx, gx)
        out.append(dict(op="gap", R=R, G=[[[y * u, x * u] for x in xs] for y in ys], sc=["median", "min", "max", "mean"][n % 4], f=S,
                        eq=rng.randint(0, 1), opt=0, defaults=0, d=[dy * u, gy * u, dx * u, gx * u]))
    for n in range(ctx.pick(30, 200)):      # figures in other units
        q = [[.1 + rng.uniform(-.05, .05), .1], [.12, .7 + rng.uniform(-.1, .1)], [.6 + rng.uniform(-.1, .1), .15], [.65, .75 + rng.uniform(-.1, .1)]]
        q = [[int(v * S) for v in p] for p in q]
        rng.shuffle(q)
        out.append(four(rng, rng.choice([1, 4, 16384]), q, n))
    for d in out:       # a factor is only defined for the measured (not the optimised) distance
        if d["op"] in ("und", "st") and d["sc"] == "factor":
            d["opt"] = 0
    # known finding: parallel, unevenly spaced lines, optimised distance
    ys, xs = [100, 150, 206, 249, 300, 356, 400], [100, 160, 223, 280, 338]
    out.append(dict(op="opt", R=1024, G=[[[y * (S // 1024), x * (S // 1024)] for x in xs] for y in ys], sc="mean", f=S, eq=0, opt=1, defaults=0,
                    tag="optimised-distance"))
    for k in (1, 2, 3, 5, 6):
        out.append(dict(op="reject", R=1024, k=k))
    return out


def four(rng, R, q, n):
    d = dict(op="four", R=R, q=q, sc=rng.choice(SC), f=int(S * rng.choice([.5, .75, 1.25, 1.5])), eq=rng.randint(0, 1),
             order=rng.choice(["yx", "xy"]), cast=rng.choice(["list", "f8", "f4", "tuple"]), defaults=int(n % 5 == 0))
    if d["defaults"]:
        d.update(sc="mean", eq=0, order="yx")
    return d


def scale_arg(s):
    return s["f"] / S if s["sc"] == "factor" else s["sc"]


def execute(s):
    R = s["R"]
    e = dict(op=s["op"], R=R)
    if s["op"] == "reject":
        e["out"] = call(proc.generate_4_source_target_perspective_points, [[i * 3.0 + 1, i * i * 2.0] for i in range(s["k"])])[0]
        return e
    if s["op"] == "four":
        q = pd.unpts(s["q"], R)
        a = q[:, ::-1] if s["order"] == "xy" else q
        a = {"list": a.tolist(), "tuple": tuple(map(tuple, a.tolist())), "f8": a.copy(), "f4": a.astype("f4")}[s["cast"]]
        kw = {} if s["defaults"] else dict(input_order=s["order"], equal_dist=bool(s["eq"]), scale=scale_arg(s))
        e["out"], r = call(proc.generate_4_source_target_perspective_points, a, **kw)
        e.update(given=s["q"], sc=s["sc"], f=s["f"], eq=s["eq"])
        if e["out"] == "ok":
            e["src"], e["tgt"] = pd.pts(r[0], R), pd.pts(r[1], R)
        return e
    A = pd.unpts(s["G"], R)
    H, V = list(A), [A[:, j] for j in range(A.shape[1])]
    e["G"] = s["G"]
    if s["op"] == "scales":
        e.update(out="ok", f=s["f"], Gs=[])
        for sc in ["min", "median", "mean", "max", s["f"] / S]:
            o, r = call(proc.generate_undistorted_perspective_lines, H, V, equal_dist=False, scale=sc, optimizing=False)
            e["out"] = o if o != "ok" else e["out"]
            if o == "ok":
                e["Gs"].append([pd.pts(x, R) for x in r[0]])
        return e
    kw = dict(equal_dist=bool(s["eq"]), scale=scale_arg(s), optimizing=bool(s["opt"]))
    e.update(sc=s["sc"], f=s["f"], eq=s["eq"], opt=s["opt"], H=[], V=[])
    if s["defaults"]:
        kw = {}
        e.update(sc="mean", eq=1, opt=1)
    if s["op"] == "gap":
        e.update(dy=s["d"][0], gy=s["d"][1], dx=s["d"][2], gx=s["d"][3])
    if s["op"] == "agree":
        o1, r = call(proc.generate_undistorted_perspective_lines, H, V, **kw)
        H2, V2 = [l[:, ::-1].copy() for l in V], [l[:, ::-1].copy() for l in H]
        o2, q = call(proc.generate_undistorted_perspective_lines, H2, V2, **kw)
        e.update(out=o1 if o1 != "ok" else o2, what="transpose", tol1000=60)
        if e["out"] == "ok":
            e["A"] = [pd.pts(x, R) for x in r[0]]
            e["B"] = [pd.pts(np.asarray(x)[:, ::-1], R) for x in q[1]]
    elif s["op"] in ("und", "opt", "gap"):
        e["out"], r = call(proc.generate_undistorted_perspective_lines, H, V, **kw)
        if e["out"] == "ok":
            e["H"], e["V"] = ([pd.pts(x, R) for x in z] for z in r)
    else:
        e["out"], r = call(proc.generate_source_target_perspective_points, H, V, **kw)
        if e["out"] == "ok":
            e["src"], e["tgt"] = pd.pts(r[0], R), pd.pts(r[1], R)
    return e


def corrupt(e):
    z = 3 * S // e["R"]
    if e["op"] == "reject":
        e["out"] = "ok"
    elif e["op"] in ("four", "st"):
        e["tgt"][0][0] += z
    elif e["op"] == "agree":
        e["B"][0][0][0] += z
    elif e["op"] in ("und", "opt", "gap"):
        e["H"][0][0][0] += z
    else:
        e["f"] += S // 10
    return e

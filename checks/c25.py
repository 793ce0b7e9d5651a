"""C25: residuals of dots from their fitted lines, and the verdict on distortion."""
import numpy as np
from vp import call, fx
import discorpy.post.postprocessing as post

ID = "C25"
MC = [("MC_Resid", "MC_Resid.cfg")]
TRACE = ("T_Resid", "T.cfg")
ASSUMPTIONS = ["Lines with slopes beyond 3 to their own direction are not judged."]


def steep(l):
    u = np.array([p[0] for p in l], float)
    v = np.array([p[1] for p in l], float)
    n = len(l)
    return abs(n * (u * v).sum() - u.sum() * v.sum()) >= 2.9 * (n * (u * u).sum() - u.sum() ** 2)


def scenarios(ctx, model):
    rng = ctx.rng
    out = []

    def world():
        return dict(hor=rng.randrange(2), e=rng.choice([0, 0, -2, 2, 4, 6]), o=[rng.randint(-50, 4000), rng.randint(-50, 4000)], dt=rng.choice(["float64", "float64", "float32", "list", "tuple", "int64", "int16", "uint16"]), ic=rng.randrange(2))
    ms = model["MC_Resid"]
    rng.shuffle(ms)
    for m in ms[:ctx.pick(150, 1000)]:
        v = m["v"]
        st, off = rng.randint(1, 3), rng.randint(-5, 2)
        out.append(dict(world(), op="resid", L=[[[off + st * i, x] for i, x in enumerate(v)]]))
    for n in range(ctx.pick(250, 2500)):
        L = []
        for _ in range(rng.randint(1, 5)):
            k = rng.randint(2, 6)
            us = rng.sample(range(-30, 31), k)
            if rng.random() < .7:
                us.sort()
            s = rng.choice([0, 0, .1, -.3, .8, 1.5])
            b = rng.randint(-25, 25)
            nz = rng.choice([0, 0, 1, 2, 6])
            l = [[u, int(round(s * u)) + b + rng.randint(-nz, nz)] for u in us]
            if steep(l):
                l = [[u, b] for u in us]
            L.append(l)
        out.append(dict(world(), op="resid", L=L))
    for n in range(ctx.pick(24, 200)):
        # many dots, some of them far off
        us = rng.sample(range(-20, 21), rng.choice([21, 22, 25, 28]))
        s, b = rng.choice([0, .1, -.3]), rng.randint(-6, 6)
        l = [[u, int(round(s * u)) + b] for u in us]
        for i in rng.sample(range(len(l)), rng.choice([1, 1, 2, 4])):
            l[i][1] += rng.choice([-15, 9, 20, 25])
        out.append(dict(world(), op="resid", L=[l]))
    for n in range(ctx.pick(150, 1500)):
        N = rng.choice([1, 2, 5, 6, 7, 13, 20, 27, 40, 60, 100, 300])
        b = max(0, min(N, rng.choice([0, int(.15 * N), int(.15 * N) + 1, int(.15 * N) - 1, N, round(.15 * N)])))
        out.append(dict(op="verdict", n=N, big=b, seed=rng.randrange(10 ** 6), dt=rng.choice(["float64", "float32"])))
    return out


def execute(s):
    if s["op"] == "verdict":
        g = np.random.default_rng(s["seed"])
        n, b = s["n"], s["big"]
        res = np.concatenate([1 + g.choice([2 ** -20, .001, .5, 30, 1e6], b), g.choice([0, .2, .999, 1.0, 1 - 2 ** -20], n - b)])
        g.shuffle(res)
        d = np.column_stack((np.sort(g.uniform(0, 2000, n)), res)).astype(s["dt"])
        keep = d.copy()
        out, r = call(post.check_distortion, d)
        return dict(op="verdict", out=out, n=n, big=b, v=1 if r is True or (isinstance(r, np.bool_) and r) else 0 if (r is False or isinstance(r, np.bool_)) else 7)
    dt, e = s["dt"], s["e"]
    o = list(s["o"])
    if "int" in dt:
        e = max(e, 0)
    if dt == "uint16":
        o = [max(v, 30 * 2 ** e + 60 * 2 ** e) for v in o]
    f = 2.0 ** e
    lines = []
    for l in s["L"]:
        a = np.array([[o[0] + v * f, o[1] + u * f] if s["hor"] else [o[0] + u * f, o[1] + v * f] for u, v in l])
        if dt == "list":
            a = a.tolist()
        elif dt == "tuple":
            a = tuple(map(tuple, a.tolist()))
        else:
            a = a.astype(dt)
        lines.append(a)
    yc, xc = (int(o[0]), int(o[1])) if s["ic"] else (float(o[0]), float(o[1]))
    out, r = call(post.calc_residual_hor if s["hor"] else post.calc_residual_ver, lines, xc, yc)
    e = dict(op="resid", out=out, L=s["L"])
    if out != "ok":
        return e
    r = np.asarray(r, dtype=float)
    if r.ndim != 2 or r.shape[1] != 2:
        return dict(e, out="shape")
    e.update(rad=[min(46000, fx(v / f, 128)) for v in r[:, 0]], res=[fx(v / f, 2 ** 20) for v in r[:, 1]], inc=1 if (np.diff(r[:, 0]) >= 0).all() else 0)
    return e


def corrupt(e):
    if e["out"] != "ok":
        return None
    if e["op"] == "verdict":
        return dict(e, v=1 - e["v"])
    return dict(e, res=[e["res"][0] + 200000] + e["res"][1:])

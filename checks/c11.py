"""C11: regenerated grid points are the crossings of the fitted lines."""
import numpy as np
from vp import call, fx
import projdrv as pd
import c07
import discorpy.proc.processing as proc

ID = "C11"
MC = [("MC_Grid", "MC_Grid.cfg"), ("MC_Calib", "MC_Calib.cfg")]
TRACE = ("T_Grid", "T.cfg")
S = pd.S


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    # straight grids of the model (flat and perspective): they come back
    for n, m in enumerate(model["MC_Grid"]):
        if n % ctx.pick(2, 1) == 0:
            out.append(dict(op="same", fn="linear", R=m["R"], G=m["G"], drop=n % 3, seed=n))
    # radially distorted grids
    base = list(model["MC_Calib"])
    rng.shuffle(base)
    base = base[:ctx.pick(30, 90)] + [c07.rand_grid(rng) for _ in range(ctx.pick(20, 200))]
    for n, b in enumerate(base):
        for fn in ("parabola", "centre", "perspective"):
            out.append(dict(op="same", fn=fn, R=b["R"], G=b["pts"], drop=0, seed=n, defaults=n % 2))
    import c12
    for n in range(ctx.pick(40, 300)):
        out.append(dict(c12.view(rng), op="persp", fn="perspective", drop=0, seed=n, defaults=0))
    for n in range(ctx.pick(40, 300)):
        out.append(dict(c12.view(rng, aspect=rng.choice([.7, .8, .9, .95, 1.05, 1.1, 1.25, 1.4])), op="square", fn="perspective", drop=0, seed=n, defaults=0))
    # random lines and parabolas, any sampling of each
    for n in range(ctx.pick(200, 2500)):
        R = rng.choice([512, 1024, 2048])
        nh, nv = rng.randint(1, 7), rng.randint(1, 7)
        a0 = rng.uniform(-.25, .25)
        mk = lambda k, s: sorted(([int(S * b), int(S * (s * a0 + rng.uniform(-.08, .08)))] for b in [rng.uniform(.05, .95) for _ in range(k)]), key=lambda z: z[0])
        out.append(dict(op="cross", R=R, h=mk(nh, 1), v=mk(nv, -1), coef=n % 2, seed=rng.randrange(10 ** 6)))
    for n in range(ctx.pick(120, 1500)):
        R = rng.choice([512, 1024, 2048])
        nh, nv = rng.randint(1, 6), rng.randint(1, 6)
        a0, cv = rng.uniform(-.1, .1), rng.choice([-1, 1]) * rng.uniform(.02, .2)
        def mk(k, s):
            bs = sorted(rng.uniform(.1, .9) for _ in range(k))
            # like a distorted grid: the curvature grows with the distance to the middle
            L = []
            for b in bs:
                q, sl = cv * (b - .5), s * a0 + rng.uniform(-.02, .02)
                L.append([int(S * (b - sl * .5 + q * .25)), int(S * (sl - q)), int(S * q)])
            return L
        out.append(dict(op="pcross", R=R, h=mk(nh, 1), v=mk(nv, -1), coef=0, seed=rng.randrange(10 ** 6)))
    return out


def execute(s):
    R = s["R"]
    e = dict(op=s["op"], R=R)
    rng = np.random.RandomState(s["seed"])
    if s["op"] in ("same", "persp", "square"):
        A = pd.unpts(s["G"], R)
        nh, nv = A.shape[:2]
        H, V = list(A), [A[:, j] for j in range(nv)]
        if s["drop"]:
            # lines keep only some of their points, in any order
            cut = lambda l: l[rng.permutation(len(l))[:max(2, len(l) - s["drop"])]]
            H, V = [cut(l) for l in H], [cut(l) for l in V]
        fn, kw = s["fn"], {}
        if fn == "linear":
            f = proc.regenerate_grid_points_linear
            e["tol1000"] = 30
        else:
            f = proc.regenerate_grid_points_parabola
            kw = dict(perspective=fn == "perspective", find_center=fn == "centre")
            if fn == "parabola" and s["defaults"]:
                kw = {}
            e["tol1000"] = 1500 if fn == "perspective" else 150
        e["out"], r = call(f, H, V, **kw)
        e.update(G=s["G"], what=fn, xc=s.get("xc", 0), yc=s.get("yc", 0))
    else:
        f = proc.regenerate_grid_points_linear if s["op"] == "cross" else proc.regenerate_grid_points_parabola
        nc = 2 if s["op"] == "cross" else 3
        def real(L):    # polynomial coefficients (lowest first) in pixels
            return [[c / S * R / float(R) ** i for i, c in enumerate(l)] for l in L]
        h, v = real(s["h"]), real(s["v"])
        e.update(h=s["h"], v=s["v"])
        if s["coef"]:
            H, V = np.array([l[::-1] for l in h]), np.array([l[::-1] for l in v])
            e["out"], r = call(f, H, V, is_coef=True)
        else:
            t = lambda: np.sort(rng.uniform(0, R, nc + rng.randint(0, 8)) + np.linspace(0, 1, 1))
            H, V = [], []
            for l in h:
                x = np.concatenate([t(), [0, R]] + ([[R / 2]] if nc == 3 else []))
                H.append(np.stack([np.polyval(l[::-1], x), x], axis=1))
            for l in v:
                y = np.concatenate([t(), [0, R]] + ([[R / 2]] if nc == 3 else []))
                V.append(np.stack([y, np.polyval(l[::-1], y)], axis=1))
            e["out"], r = call(f, H, V)
    if e["out"] == "ok":
        e["H"], e["V"] = ([pd.pts(x, R) for x in z] for z in r)
    return e


def corrupt(e):
    if e["op"] == "square":
        e["H"] = [[[p[0], p[1] + p[1] // 20] for p in l] for l in e["H"]]
        return e
    e["H"][-1][-1][1] += (90 if e["op"] == "persp" else 2) * S // e["R"]
    return e

"""C07: calibration recovers the centre and straightens the grid."""
import random
import warnings
import numpy as np
from vp import call, fx
import warpdrv as wd
import discorpy.proc.processing as proc

ID = "C07"
MC = [("MC_Calib", "MC_Calib.cfg")]
TRACE = ("T_Calib", "T.cfg")
S = wd.S


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    base = list(model["MC_Calib"])
    rng.shuffle(base)
    for _ in range(ctx.pick(25, 300)):
        base.append(rand_grid(rng))
    for n, b in enumerate(base):
        for m in ["coarse", "bailey", "vp", "vp_iter"]:
            out.append(dict(b, op="centre", method=m))
        for q, m in enumerate(["backward", "forward", "pair"]):
            out.append(dict(b, op="coef", method=m, nf=[3, 4, 5, 2][(n + q) % 4], optimizing=int((n + q) % 5 == 0)))
        for q, m in enumerate(["backward", "forward", "pair"]):
            d = [-1, 3, -2 - 4][(n + q) % 3]
            out.append(dict(b, op="warn", method=m, drop=d, opt=int((n + q) % 4 == 1), thr=["", "10", "0.3"][(n // 3 + q) % 3]))
            if n % 4 == q:
                out.append(dict(b, op="count", method=m, nf=[1, 6, 8, 12][(n // 4) % 4]))
        kinds = ["transpose", "reverse", "shift", "mirror"]
        for q, m in enumerate(["coarse", "bailey", "vp", "vp_iter"]):
            out.append(dict(b, op="symcentre", method=m, kind=kinds[(n + q) % 4] if m != "coarse" else kinds[n % 2]))
        for q, m in enumerate(["backward", "forward", "pair"]):
            out.append(dict(b, op="symcoef", method=m, kind=kinds[(n + q) % 4], nf=3 + n % 3, optimizing=int(n % 4 == 0)))
        if n % ctx.pick(12, 4) == 0:
            out.append(dict(b, op="centre", method="fine"))
    # known finding: the centre lies exactly on a line of a tilted grid
    b = make_grid(500.0, 400.0, [S, 0, int(-0.0262144 * S)], 9, 11, 60, 0.02, 500.0, 400.0)
    out.append(dict(b, op="coef", method="backward", nf=3, optimizing=0, tag="centre-on-tilted-grid-line"))
    # exactly aligned grid with a line through the centre
    b = make_grid(500.0, 400.0, [S, 0, int(-0.0262144 * S)], 9, 11, 60, 0.0, 500.0, 400.0)
    for m in ("backward", "forward", "pair"):
        out.append(dict(b, op="coef", method=m, nf=3, optimizing=0))
    return out


def rand_grid(rng):
    R = 512
    u = S // R
    xc, yc = rng.uniform(430, 570), rng.uniform(330, 470)
    K = [int(S * rng.uniform(0.97, 1.03)), int(S * rng.uniform(-0.006, 0.006)), int(S * rng.choice([-1, 1]) * rng.uniform(0.015, 0.05))]
    if rng.random() < 0.5:
        K.append(int(S * rng.uniform(-0.004, 0.004)))
    nh, nv, p, t = rng.randint(7, 12), rng.randint(7, 13), rng.randint(45, 65), rng.uniform(-0.04, 0.04)
    # origin: a node-free place near the centre, at least 0.12 pitch off any line
    fr = lambda n: rng.choice([-1, 1]) * rng.uniform(0.12, 0.38) * p + (0 if n % 2 else p / 2)
    ox, oy = xc + fr(nv), yc + fr(nh)
    return make_grid(xc, yc, K, nh, nv, p, t, ox, oy)


def make_grid(xc, yc, K, nh, nv, p, t, ox, oy):
    R = 512
    u = S // R
    xi, yi = fx(xc, u), fx(yc, u)
    m = dict(R=R, xc=xi, yc=yi, K=K)
    xc, yc, ks = wd.model_args(m)
    pts = []
    for i in range(nh):
        row = []
        for j in range(nv):
            gx, gy = (j - (nv - 1) / 2) * p, (i - (nh - 1) / 2) * p
            x, y = ox + gx - t * gy, oy + gy + t * gx
            r = np.hypot(x - xc, y - yc)
            f = sum(k * r ** a for a, k in enumerate(ks))
            row.append([fx(yc + f * (y - yc), u), fx(xc + f * (x - xc), u)])
        pts.append(row)
    return dict(R=R, xc=xi, yc=yi, K=K, pitch=p, nh=nh, nv=nv, t=0, pts=pts)


def lines(s):
    a = np.asarray(s["pts"], dtype=np.float64) * s["R"] / S
    return [a[i] for i in range(a.shape[0])], [a[:, j] for j in range(a.shape[1])]


def find_centre(m, H, V):
    return call({"coarse": proc.find_cod_coarse, "bailey": proc.find_cod_bailey, "vp": proc.find_center_based_vanishing_points,
                 "vp_iter": proc.find_center_based_vanishing_points_iteration}[m], H, V)


def find_coef(m, H, V, xc, yc, nf, **kw):
    out, T = call({"backward": proc.calc_coef_backward, "forward": proc.calc_coef_forward,
                   "pair": proc.calc_coef_backward_from_forward}[m], H, V, xc, yc, nf, **kw)
    return out, (T[1] if m == "pair" and out == "ok" else T)


def present(kind, H, V, xc, yc):
    """the same grid, presented differently; also the centre and the shift"""
    if kind == "transpose":
        f = lambda L: [l[:, ::-1].copy() for l in L]
        return f(V), f(H), yc, xc, 0, 0
    if kind == "reverse":
        f = lambda L: [l[::-1].copy() for l in L[::-1]]
        return f(H), f(V), xc, yc, 0, 0
    if kind == "shift":
        d = np.array([96.0, -160.0])
        return [l + d for l in H], [l + d for l in V], xc + d[1], yc + d[0], d[0], d[1]
    w = 1024.0
    f = lambda l: np.stack([l[:, 0], w - l[:, 1]], axis=1)
    return [f(l)[::-1] for l in H], [f(l) for l in V][::-1], w - xc, yc, 0, w


def symmetric(s, e, H, V, xc, yc, u):
    H2, V2, x2, y2, sy, sx = present(s["kind"], H, V, xc, yc)
    e.update(kind=s["kind"], sy=fx(sy, u), sx=fx(sx, u))
    if s["op"] == "symcentre":
        o1, a = find_centre(s["method"], H, V)
        o2, b = find_centre(s["method"], H2, V2)
        e["out"] = o1 if o1 != "ok" else o2
        if e["out"] == "ok":
            e.update(fx=fx(a[0], u), fy=fx(a[1], u), bx=fx(b[0], u), by=fx(b[1], u))
    else:
        kw = dict(optimizing=bool(s["optimizing"]))
        o1, a = find_coef(s["method"], H, V, xc, yc, s["nf"], **kw)
        o2, b = find_coef(s["method"], H2, V2, x2, y2, s["nf"], **kw)
        e["out"] = o1 if o1 != "ok" else o2
        if e["out"] == "ok":
            e["T"], e["T2"] = ([fx(float(t) * float(s["R"]) ** i, S) for i, t in enumerate(T)] for T in (a, b))
    return e


def execute(s):
    H, V = lines(s)
    R = s["R"]
    u = S / R
    xc, yc = s["xc"] * R / S, s["yc"] * R / S
    e = dict(op=s["op"], method=s["method"], out="ok", R=R, xc=s["xc"], yc=s["yc"], pitch=s["pitch"], nh=s["nh"], nv=s["nv"])
    if s["op"].startswith("sym"):
        return symmetric(s, e, H, V, xc, yc, u)
    if (s["nh"] + s["xc"] // 4096) % 3 == 0 and s["op"] != "warn":
        H, V = [l.tolist() for l in H], [[tuple(p) for p in l] for l in V]
    if s["op"] == "centre":
        m = s["method"]
        if m == "coarse":
            out, c = call(proc.find_cod_coarse, H, V)
        elif m == "bailey":
            out, c = call(proc.find_cod_bailey, H, V)
        elif m == "vp":
            out, c = call(proc.find_center_based_vanishing_points, H, V)
        elif m == "vp_iter":
            out, c = call(proc.find_center_based_vanishing_points_iteration, H, V)
        else:
            rng = random.Random(s["nh"] * 100 + s["xc"])
            out, c = call(proc.find_cod_fine, H, V, xc + rng.uniform(-8, 8), yc + rng.uniform(-8, 8), 8.0, limit=300)
        e["out"] = out
        if out == "ok":
            e["fx"], e["fy"] = fx(c[0], u), fx(c[1], u)
    elif s["op"] == "warn":
        d = s["drop"]
        if d >= 0:
            H = H[:d] + H[d + 1:]
            V = [np.delete(v, d, axis=0) for v in V]
        elif d < -1:
            d = -2 - d
            V = V[:d] + V[d + 1:]
            H = [np.delete(h, d, axis=0) for h in H]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                kw = dict(threshold=float(s["thr"])) if s["thr"] else {}
                {"backward": proc.calc_coef_backward, "forward": proc.calc_coef_forward,
                 "pair": proc.calc_coef_backward_from_forward}[s["method"]](H, V, xc, yc, 3, optimizing=bool(s["opt"]), **kw)
            except Exception as x:
                e["out"] = "raise:" + type(x).__name__
        e["warned"] = int(any(issubclass(x.category, UserWarning) for x in w))
        e["missing"] = int(s["drop"] != -1 and s["thr"] != "10")
    elif s["op"] == "count":
        f = {"backward": proc.calc_coef_backward, "forward": proc.calc_coef_forward, "pair": proc.calc_coef_backward_from_forward}[s["method"]]
        e["out"], T = call(f, H, V, xc, yc, s["nf"])
        if e["out"] == "ok":
            T = [T] if s["method"] != "pair" else list(T)
            e.update(nf=s["nf"], lens=[len(t) for t in T], finite=int(all(np.all(np.isfinite(t)) for t in T)))
    else:
        nf, kw = s["nf"], dict(optimizing=bool(s["optimizing"]))
        e.update(nf=nf, pts=s["pts"], models=[], optimizing=s["optimizing"])
        if s["method"] == "backward":
            out, T = call(proc.calc_coef_backward, H, V, xc, yc, nf, **kw)
            ms = [("backward", T)]
        elif s["method"] == "forward":
            out, T = call(proc.calc_coef_forward, H, V, xc, yc, nf, **kw)
            ms = [("forward", T)]
        else:
            out, T = call(proc.calc_coef_backward_from_forward, H, V, xc, yc, nf, **kw)
            ms = [("forward", T[0]), ("backward", T[1])] if out == "ok" else []
        e["out"] = out
        if out == "ok":
            e["models"] = [dict(dir=d, T=[fx(float(t) * float(R) ** i, S) for i, t in enumerate(T)]) for d, T in ms]
    return e


def corrupt(e):
    if e["out"] != "ok":
        return None
    if e["op"] == "centre":
        e["fx"] += (S // e["R"]) * e["pitch"]
    elif e["op"] == "symcentre":
        e["by"] += S // e["R"]
    elif e["op"] == "symcoef":
        e["T2"][0] += S // 300
    elif e["op"] == "count":
        e["lens"][-1] -= 1
    elif e["op"] == "warn":
        e["warned"] = 1 - e["warned"]
    else:
        e["models"][-1]["T"][1] += S // 5
    return e

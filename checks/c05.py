"""C05: points through the radial model."""
import random
import numpy as np
from vp import call, fx
import warpdrv as wd
import discorpy.post.postprocessing as post
import discorpy.util.utility as util

ID = "C05"
MC = [("MC_Warp", "MC_Warp.cfg")]
TRACE = ("T_Points", "T.cfg")


def physical(m, top=2.2):
    r = np.linspace(0, top, 120)
    if not any(m["K"]):
        return False
    f = r * sum(k / wd.S * r ** i for i, k in enumerate(m["K"]))
    return bool(np.all(np.diff(f) > 0.004)) and f[-1] > 1.6


def pts(rng, m, n, integer):
    """points in fixed-point units"""
    u = wd.S // m["R"]
    out = []
    for _ in range(n):
        y, x = rng.uniform(-0.05, 1.05) * m["h"] * u, rng.uniform(-0.05, 1.05) * m["w"] * u
        if rng.random() < 0.06:
            y, x = m["yc"], m["xc"]
        elif rng.random() < 0.06:
            y = m["yc"]
        y, x = int(y), int(x)
        if integer:
            y, x = int(round(y / u)) * u, int(round(x / u)) * u
        out.append([y, x])
    return out


def scenarios(ctx, model):
    rng = ctx.rng
    ms = []
    for n, s in enumerate(model["MC_Warp"]):
        if n % 2 == 0:
            ms.append(wd.model_from_tlc(s))
    for n in range(ctx.pick(160, 1500)):
        h, w = rng.choice([(rng.randint(2, 200), rng.randint(2, 200)), (rng.randint(900, 2600), rng.randint(900, 2600)), (2160, 2560)])
        ms.append(wd.rand_model(rng, h, w, physical=rng.random() < 0.7, strong=rng.choice([0.3, 1, 2])))
    for n in range(ctx.pick(30, 200)):
        h, w = rng.choice([(rng.randint(2, 200), rng.randint(2, 200)), (rng.randint(900, 2600), rng.randint(900, 2600))])
        ms.append(wd.long_model(rng, h, w))
    out = []
    for n, m in enumerate(ms):
        integer = n % 4 == 0
        lines = [pts(rng, m, rng.choice([0, 1, 2, 5, 8]), integer) for _ in range(rng.choice([1, 2, 3]))]
        base = dict(m, lines=lines, integer=int(integer), box=rng.choice(["array", "list", "f32" if integer else "array"]),
                    kv=rng.choice(["list", "tuple", "array"]))
        out.append(dict(base, fn="line_fwd"))
        out.append(dict(base, fn="p2p", order=rng.choice(["xy", "yx", "default"])))
        if physical(m):
            out.append(dict(base, fn="line_bwd"))
            out.append(dict(base, fn="round"))
    return out


def build(s):
    R = s["R"]
    ls = []
    for l in s["lines"]:
        a = np.asarray(l, dtype=np.float64).reshape(-1, 2) * R / wd.S
        if s["integer"]:
            a = np.round(a).astype(np.float32 if s["box"] == "f32" else np.int64)
        if s["box"] == "list" and len(a):
            a = a.tolist()
        ls.append(a)
    return ls


def proj(res, R):
    return [[[fx(p[0], wd.S / R), fx(p[1], wd.S / R)] for p in l] for l in res]


def execute(s):
    R = s["R"]
    xc, yc, ks = wd.model_args(s)
    ks = wd.kvec(s["kv"], ks)
    ls = build(s)
    e = dict(op="fwd", R=R, xc=s["xc"], yc=s["yc"], K=s["K"], lines=s["lines"], res=[], out="ok", fn=s["fn"])
    try:
        if s["fn"] == "line_fwd":
            out, res = call(post.unwarp_line_forward, ls, xc, yc, ks)
            e["out"] = out
            if out == "ok":
                e["res"] = proj(res, R)
        elif s["fn"] == "p2p":
            for l in ls:
                row = []
                for p in l:
                    if s["order"] == "default":
                        out, q = call(util.find_point_to_point, tuple(p), xc, yc, ks)
                    else:
                        out, q = call(util.find_point_to_point, tuple(p), xc, yc, ks, output_order=s["order"])
                    if out != "ok":
                        e["out"] = out
                        return e
                    q = [q[0], q[1]] if s["order"] == "yx" else [q[1], q[0]]
                    row.append(q)
                e["res"].append(row)
            e["res"] = proj(e["res"], R)
        elif s["fn"] == "line_bwd":
            e["op"] = "bwd"
            out, res = call(post.unwarp_line_backward, ls, xc, yc, ks)
            e["out"] = out
            if out == "ok":
                e["res"] = proj(res, R)
        else:
            # undistorted -> distorted by the backward model, and back
            e["op"] = "round"
            mid = []
            for l in ls:
                mid.append(np.asarray([util.find_point_to_point(tuple(p), xc, yc, ks, output_order="yx") for p in l],
                                      dtype=np.float64).reshape(-1, 2))
            out, res = call(post.unwarp_line_backward, mid, xc, yc, ks)
            e["out"] = out
            if out == "ok":
                e["res"] = proj(res, R)
    except Exception as x:
        e["out"] = "raise:" + type(x).__name__
    return e


def corrupt(e):
    for l in e["res"]:
        if l:
            l[-1][0] += wd.S // e["R"] // 8
            return e
    return None

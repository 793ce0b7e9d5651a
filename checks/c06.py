"""C06: forward and backward coefficient lists are inverse models."""
import random
import numpy as np
from vp import call, fx
import warpdrv as wd
import discorpy.proc.processing as proc

ID = "C06"
MC = [("MC_Inverse", "MC_Inverse.cfg")]
TRACE = ("T_Inverse", "T.cfg")
S = wd.S


def scenarios(ctx, model):
    rng = ctx.rng
    Ks = [[k * (S // 64) for k in s["K64"]] for s in model["MC_Inverse"]]
    for _ in range(ctx.pick(150, 2000)):
        n = rng.choice([1, 2, 3, 4, 5, 5])
        st = rng.choice([0.02, 0.05, 0.1])
        Ks.append([int(S * (1 + rng.uniform(-.1, .1)))] + [int(S * rng.uniform(-1, 1) * st / i) for i in range(1, n)])
    out = []
    for n, K in enumerate(Ks):
        ref = ["default", "grid", "rand", "grid", "xaxis", "yaxis"][n % 6]
        R = 2048 if ref == "default" else rng.choice([8, 64, 256, 1024, 2048, 4096])
        out.append(dict(K=K, R=R, ref=ref, nref=rng.choice([len(K), len(K) + 2, 40]), mapping=rng.choice(["backward", "forward", "default"]),
                        seed=rng.randrange(10 ** 6), kv=rng.choice(["list", "tuple", "array"]), refbox=rng.choice(["list", "array"])))
    for n in range(2, 6):
        for m in range(1, n):
            out.append(dict(K=[S] + [S // 50] * (n - 1), R=64, ref="rand", nref=m, mapping="backward", seed=n * 10 + m, kv="list",
                            refbox="list", want="reject"))
    return out


def execute(s):
    rng = random.Random(s["seed"])
    R = s["R"]
    ks = [k / S / float(R) ** i for i, k in enumerate(s["K"])]
    if s["ref"] == "default":
        pts, lo, hi = None, 0.0, 1000 * 2 ** 0.5 / R
    elif s["ref"] == "grid":
        g = np.linspace(-0.7 * R, 0.7 * R, 24)
        pts = [[i, j] for i in g for j in g]
    else:
        n = s["nref"]
        pts = []
        for t in range(n):
            # radii spread over the range, so that the fit is well posed
            r, a = R * 0.95 * (t + 0.5 + rng.uniform(-0.3, 0.3)) / n, rng.uniform(0, 6.28)
            if s["ref"] != "rand":
                a = rng.choice([0, np.pi])
                pts.append([0, r * np.cos(a)] if s["ref"] == "xaxis" else [r * np.cos(a), 0])
                continue
            pts.append([r * np.sin(a), r * np.cos(a)])
    if pts is not None:
        rr = np.hypot(*np.asarray(pts).T) / R
        lo, hi = (0.0, rr.max()) if s["ref"] == "grid" else (rr.min(), rr.max())
    kw = {} if s["mapping"] == "default" else dict(mapping=s["mapping"])
    if pts is not None:
        kw["ref_points"] = np.asarray(pts) if s["refbox"] == "array" else pts
    out, T = call(proc.transform_coef_backward_and_forward, wd.kvec(s["kv"], ks), **kw)
    e = dict(op="transform", out=out, want=s.get("want", "value"), K=s["K"], T=[], r0=fx(lo, S), r1=fx(hi, S))
    if out == "ok":
        try:
            e["T"] = [fx(float(t) * float(R) ** i, S) for i, t in enumerate(T)]
        except Exception:
            e["out"] = "malformed"
    return e


def corrupt(e):
    if e["want"] == "reject":
        e["out"] = "ok"
        return e
    if len(e["K"]) < 2:
        e["T"][0] += S // 1000
    else:
        e["T"][0] += S // 20
    return e

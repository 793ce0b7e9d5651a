"""C04: forward unwarping of an image, deposit law."""
import random
import numpy as np
from vp import call, fx
import warpdrv as wd
import discorpy.post.postprocessing as post

ID = "C04"
MC = [("MC_Warp", "MC_Warp.cfg")]
TRACE = ("T_Warp", "T.cfg")


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    for n, s in enumerate(model["MC_Warp"]):
        m = wd.model_from_tlc(s)
        m.update(dt=["float32", "float64", "int32", "uint16"][n % 4], lay=["C", "F", "view"][n % 3], seed=n, npix=64, kv="list")
        out.append(m)
    for n in range(ctx.pick(120, 1000)):
        h, w = rng.randint(2, 60), rng.randint(2, 60)
        if n % 10 == 0:
            h, w = rng.choice([(700, 900), (1200, 500), (900, 1100), (1600, 1500)])
        elif n % 20 == 3:
            h, w = rng.choice([(rng.randint(2, 4), rng.choice([32769, 40000, 66000])), (rng.choice([32769, 40000, 66000]), rng.randint(2, 4))])
        m = wd.rand_model(rng, h, w, physical=rng.random() < 0.8, strong=rng.choice([0.5, 1, 2]))
        m.update(dt=rng.choice(["float32", "float64", "int32", "int64"]), lay=rng.choice(["C", "F", "view"]), seed=rng.randrange(10 ** 6),
                 npix=60, kv=rng.choice(["list", "tuple", "array"]))
        out.append(m)
    for n in range(ctx.pick(24, 200)):      # long coefficient lists; factors that change sign
        h, w = rng.randint(12, 60), rng.randint(12, 60)
        m = wd.long_model(rng, h, w) if n % 2 else wd.turned_model(rng, h, w)
        m.update(dt=rng.choice(["float32", "float64", "int32"]), lay="C", seed=rng.randrange(10 ** 6), npix=60, kv=rng.choice(["list", "array"]))
        out.append(m)
    return out


def execute(s):
    rng = random.Random(s["seed"])
    h, w = s["h"], s["w"]
    # values are told apart by their distance from a base that needs the full precision of the type
    base = {"int32": 2 ** 26 + 1, "int64": 2 ** 40 + 1, "float64": 2.0 ** 40 + .5}.get(s["dt"], 0) if s["seed"] % 2 else 0
    img = wd.layout(np.asarray(1 + np.arange(h * w), dtype=s["dt"]).reshape(h, w) + np.asarray(base, dtype=s["dt"]), s["lay"])
    xc, yc, ks = wd.model_args(s)
    out, res = call(post.unwarp_image_forward, img, xc, yc, wd.kvec(s["kv"], ks))
    e = wd.base_event(s, "fwd", out=out, dt=s["dt"], edt=s["dt"])
    if out == "ok":
        res = np.asarray(res)
        e["odt"] = str(res.dtype)
        if res.ndim == 2:
            e["oh"], e["ow"] = res.shape
        if res.shape == (h, w):
            res = np.where(res != 0, res - np.asarray(base, dtype=s["dt"]), 0)
            if base:
                res = np.where(res != np.round(res), -7, res)
            if max(h, w) > 32767:
                far = [(h - 1 - rng.randrange(min(h, 5000)), w - 1 - rng.randrange(min(w, 5000))) for _ in range(12)]
            else:
                far = []
            e["pix"] = [[i, j, 0, fx(res[i, j])] for i, j in wd.sample_pixels(rng, h, w, s["npix"]) + far]
            for i, j in wd.sample_pixels(rng, h, w, s["npix"]) + far:
                # window of the output around where this source roughly lands
                r = np.hypot(i - yc, j - xc)
                f = sum(k * r ** n for n, k in enumerate(ks))
                y = int(np.clip(round(np.clip(yc + f * (i - yc), 0, h - 1)), 0, h - 1))
                x = int(np.clip(round(np.clip(xc + f * (j - xc), 0, w - 1)), 0, w - 1))
                y0, x0 = max(0, y - 1), max(0, x - 1)
                e["src"].append(dict(i=i, j=j, y0=y0, x0=x0, win=[[fx(v) for v in row] for row in res[y0:y + 2, x0:x + 2]]))
    return e


def corrupt(e):
    for q in e["pix"]:
        if q[3] > 0 and e["h"] * e["w"] > 20:
            q[3] = -7
            return e
    return None

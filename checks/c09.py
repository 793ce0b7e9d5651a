"""C09: perspective correction of an image, pixel law."""
import random
import numpy as np
from vp import call, fx
import projdrv as pd
import warpdrv as wd
import discorpy.post.postprocessing as post

ID = "C09"
MC = [("MC_Proj", "MC_Proj.cfg")]
TRACE = ("T_Proj", "T.cfg")
S = pd.S
MODES = ["reflect", "nearest", "constant", "mirror", "wrap", "grid-mirror", "grid-constant", "grid-wrap"]
EXT = ["reflect", "nearest", "constant", "mirror", "grid-mirror", "grid-constant", "grid-wrap"]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    coefs = [m["c"] for m in model["MC_Proj"]]
    for n in range(ctx.pick(160, 1600)):
        h, w = rng.choice([(rng.randint(2, 60), rng.randint(2, 60)), (rng.randint(60, 400), rng.randint(60, 400)), (1, rng.randint(2, 50)),
                           (rng.randint(2, 50), 1), (1200, 900), (500, 1700)])
        R = max(8, wd.pow2ge(max(h, w)))
        c = coefs[n % len(coefs)] if n % 2 else pd.rand_c(rng, R, rng.choice([0.3, 1, 1.5]))
        if n % 17 == 0:
            c = [S, 0, 0, 0, S, 0, 0, 0]
        d = dict(op="image", R=R, h=h, w=w, c=c, kind=rng.choice([0, 0, 1, 3]), order=rng.choice([1, 1, 1, 0, 3]),
                 dt=rng.choice(["float32", "float64", "uint8", "uint16", "int16"]), mode=rng.choice(MODES),
                 lay=rng.choice(["C", "F", "view", "neg"]), cv=n % 3, defaults=int(n % 4 == 0), seed=rng.randrange(10 ** 6))
        if d["defaults"]:
            d.update(order=1, mode="reflect")
        if n % 9 == 0 and min(h, w) > 25:
            d.update(kind=2, order=rng.choice([2, 3, 4]), dt="float64", mode="reflect", defaults=0)
            d["h"], d["w"], d["R"] = rng.randint(30, 60), rng.randint(30, 60), 64
        if d["order"] > 1 and d["mode"] == "grid-constant":      # zeros outside enter the spline
            d["mode"] = "reflect"
        if d["kind"] == 1 and d["dt"] == "uint8":
            d["dt"] = "uint16"
        out.append(d)
    # spline orders: a wave sampled half way between its pixels
    for n in range(ctx.pick(24, 120)):
        h, w = rng.randint(60, 90), rng.randint(60, 90)
        out.append(dict(op="image", R=128, h=h, w=w, c=[S // 2, 0, 0, 0, S // 2, 0, 0, 0], kind=4 + n % 2, order=2 + (n // 2) % 4, lay="C", cv=n % 3, defaults=0,
                        dt=["float64", "uint8", "float32", "int16", "uint16"][n % 5], mode=rng.choice(["reflect", "mirror", "nearest"]), seed=rng.randrange(10 ** 6)))
    # the horizon of the map crosses the frame
    for n in range(ctx.pick(40, 400)):
        h, w = rng.randint(6, 60), rng.randint(6, 60)
        R = max(8, wd.pow2ge(max(h, w)))
        c = pd.rand_c(rng, R)
        a, g = rng.uniform(0, 1.57), rng.uniform(1.3, 4) * R / max(h, w)
        c[6], c[7] = int(-S * g * np.cos(a)), int(-S * g * np.sin(a))
        out.append(dict(op="horizon", R=R, h=h, w=w, c=c, kind=rng.choice([0, 1]), order=rng.choice([1, 1, 0]), lay="C", cv=n % 3, defaults=0,
                        dt=rng.choice(["float64", "float32", "int16"]), mode=rng.choice(MODES), seed=rng.randrange(10 ** 6)))
    for n in range(ctx.pick(60, 500)):
        h, w = rng.randint(2, 40), rng.randint(2, 40)
        R = max(8, wd.pow2ge(max(h, w)))
        whole = n % 2
        out.append(dict(op="index", R=R, h=h, w=w, c=pd.rand_c(rng, R), kind=0, order=1 if whole else rng.choice([0, 1]),
                        dt=rng.choice(["float32", "float64", "uint8"]), mode=rng.choice(EXT), lay="C", cv=n % 3, defaults=0, whole=whole,
                        shape=["pair", "flat", "array", "grids", "stack"][n % 5], seed=rng.randrange(10 ** 6)))
    return out


def execute(s):
    rng = random.Random(s["seed"])
    h, w, R = s["h"], s["w"], s["R"]
    img = wd.layout(wd.image(s["kind"], 0, h, w, s["dt"]), s["lay"])
    c = pd.real_c(s["c"], R)
    c = [c, tuple(c), np.asarray(c)][s["cv"]]
    kw = {} if s["defaults"] else dict(order=s["order"], mode=s["mode"])
    e = dict(op=s["op"], R=R, h=h, w=w, c=s["c"], kind=s["kind"], order=s["order"], dt=s["dt"], mode=s["mode"], whole=s.get("whole", 0),
             oh=-1, ow=-1, odt="?", pix=[])
    if s["op"] == "index":
        if s["whole"]:
            pos = np.array([[rng.randint(-2 * h, 3 * h), rng.randint(-2 * w, 3 * w)] for _ in range(h * w)])
        else:
            pos = np.array([[rng.randrange(0, (h - 1) * 64 + 1) / 64, rng.randrange(0, (w - 1) * 64 + 1) / 64] for _ in range(h * w)])
        pos = pos.astype(np.float32)
        kw["map_index"] = {"pair": (pos[:, :1].copy(), pos[:, 1:].copy()), "flat": (pos[:, 0].copy(), pos[:, 1].copy()),
                           "array": pos.T.copy(), "grids": [pos[:, 0].reshape(h, w).copy(), pos[:, 1].reshape(h, w).copy()],
                           "stack": pos.T.reshape(2, h, w).copy()}[s["shape"]]
    e["out"], res = call(post.correct_perspective_image, img, c, **kw)
    if e["out"] == "ok":
        res = np.asarray(res)
        e["odt"] = str(res.dtype)
        if res.ndim == 2:
            e["oh"], e["ow"] = res.shape
            if res.shape == (h, w):
                px = wd.sample_pixels(rng, h, w, 48)
                if s["op"] != "index":
                    e["pix"] = [[i, j, fx(res[i, j], 1024)] for i, j in px]
                else:
                    f = 1 if s["whole"] else S // R
                    e["pix"] = [[fx(res[i, j], 1024), fx(pos[i * w + j, 0], f), fx(pos[i * w + j, 1], f)] for i, j in px]
    return e


def corrupt(e):
    if not e["pix"] or e["order"] > 1:
        return None
    if e["op"] == "horizon":
        for q in e["pix"]:
            q[2] += 230000
    elif e["op"] == "image":
        e["pix"][len(e["pix"]) // 2][2] += 230000
    else:
        e["pix"][len(e["pix"]) // 2][0] += 230000
    return e

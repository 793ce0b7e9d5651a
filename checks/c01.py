"""C01: backward unwarping of an image, pixel law."""
import random
import numpy as np
from vp import call, fx
import warpdrv as wd
import discorpy.post.postprocessing as post

ID = "C01"
MC = [("MC_Warp", "MC_Warp.cfg")]
TRACE = ("T_Warp", "T.cfg")
MODES = ["reflect", "nearest", "constant", "mirror", "wrap", "grid-mirror",
         "grid-constant", "grid-wrap"]
ASSUMPTIONS = ["images are the formula images of Warp!ImgVal; splines of order >= 2 are judged on "
               "source pixels, constant images and the interior of a quadratic image"]


def scenarios(ctx, model):
    out = []
    rng = ctx.rng
    for n, s in enumerate(model["MC_Warp"]):
        m = wd.model_from_tlc(s)
        m.update(kind=0, order=1 if n % 4 else 0, dt=["float32", "float64", "uint8", "uint16"][n % 4 if n % 3 else 1],
                 mode=MODES[n % 8], lay=["C", "F", "view", "neg"][(n // 3) % 4],
                 kv=["list", "tuple", "array"][n % 3], npix=64, seed=n, defaults=0)
        out.append(m)
    N = ctx.pick(150, 1500)
    for n in range(N):
        big = n % 10 == 0
        if big:
            h, w = rng.choice([(1100, 1500), (2100, 900), (700, 2600), (2560, 2160), (640, 480)])
        else:
            h, w = rng.choice([(rng.randint(2, 90), rng.randint(2, 90)), (rng.randint(100, 300), rng.randint(100, 300)),
                               (1, rng.randint(2, 200)), (rng.randint(2, 200), 1)])
        m = wd.rand_model(rng, h, w, physical=rng.random() < 0.8, strong=rng.choice([0.3, 1, 2]))
        m.update(kind=rng.choice([0, 0, 0, 1, 3]), order=rng.choice([1, 1, 1, 0, 2, 3]),
                 dt=rng.choice(["float32", "float64", "uint8", "uint16", "float32", "int16"]),
                 mode=rng.choice(MODES), lay=rng.choice(["C", "C", "F", "view", "neg"]),
                 kv=rng.choice(["list", "tuple", "array"]), npix=64 if h * w > 100000 else 48,
                 seed=rng.randrange(10 ** 6), defaults=int(rng.random() < 0.25))
        if m["defaults"]:
            m["order"], m["mode"] = 1, "reflect"
        out.append(m)
    # splines on the quadratic image, and integer-ratio scalings (source on pixels)
    for n in range(ctx.pick(40, 300)):
        h, w = rng.randint(30, 60), rng.randint(30, 60)
        m = wd.rand_model(rng, h, w, nk=3, centre="int")
        if n % 3 == 0:
            m["K"] = [wd.S * rng.choice([1, 2, 3])]
        m.update(kind=2 if n % 3 else 0, order=rng.choice([2, 3, 4, 5]), dt="float64", mode=rng.choice(["reflect", "mirror", "nearest"]),
                 lay="C", kv="list", npix=80, seed=rng.randrange(10 ** 6), defaults=0)
        out.append(m)
    # long coefficient lists; factors that change sign
    for n in range(ctx.pick(30, 300)):
        h, w = rng.randint(12, 150), rng.randint(12, 150)
        m = wd.long_model(rng, h, w) if n % 2 else wd.turned_model(rng, h, w)
        m.update(kind=rng.choice([0, 1]), order=rng.choice([1, 1, 0]), dt=rng.choice(["float32", "float64", "uint8"]), mode=rng.choice(MODES),
                 lay="C", kv=rng.choice(["list", "array"]), npix=48, seed=rng.randrange(10 ** 6), defaults=0)
        out.append(m)
    # thin frames around round sizes
    for n in range(ctx.pick(24, 160)):
        k = rng.choice([64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096]) * rng.choice([1, 1, 2]) + rng.choice([-1, 0, 1, 2])
        h, w = (k, rng.randint(1, 6)) if n % 2 else (rng.randint(1, 6), k)
        m = wd.rand_model(rng, h, w, strong=rng.choice([1, 2]))
        m.update(kind=1, order=rng.choice([1, 1, 0]), dt=rng.choice(["float32", "float64", "uint8"]), mode=rng.choice(MODES), lay=rng.choice(["C", "F"]), kv="list", npix=60,
                 seed=rng.randrange(10 ** 6), defaults=0)
        out.append(m)
    # every spline order half way between the pixels of a wave
    for n in range(ctx.pick(16, 80)):
        h, w = rng.randint(60, 90), rng.randint(60, 90)
        m = wd.rand_model(rng, h, w, nk=1, centre="int")
        m["K"] = [wd.S // 2]
        m.update(kind=4 + n % 2, order=2 + (n // 2) % 4, dt="float64", mode=rng.choice(["reflect", "mirror", "nearest"]),
                 lay="C", kv="list", npix=80, seed=rng.randrange(10 ** 6), defaults=0)
        out.append(m)
    for m in out:
        if m["order"] > 1 and m["mode"] == "grid-constant":      # zeros outside enter the spline
            m["mode"] = "reflect"
    return out


def execute(s):
    rng = random.Random(s["seed"])
    h, w = s["h"], s["w"]
    img = wd.layout(wd.image(s["kind"], 0, h, w, s["dt"]), s["lay"])
    xc, yc, ks = wd.model_args(s)
    kw = {} if s["defaults"] else dict(order=s["order"], mode=s["mode"])
    out, res = call(post.unwarp_image_backward, img, xc, yc, wd.kvec(s["kv"], ks), **kw)
    e = wd.base_event(s, "bwd", order=s["order"], dt=s["dt"], edt=s["dt"], out=out)
    if out == "ok":
        res = np.asarray(res)
        e["odt"] = str(res.dtype)
        if res.ndim == 2:
            e["oh"], e["ow"] = res.shape
            if res.shape == (h, w):
                e["pix"] = [[i, j, 0, fx(res[i, j], 1024)] for i, j in wd.sample_pixels(rng, h, w, s["npix"])]
    return e


def corrupt(e):
    if not e["pix"] or e["order"] > 1:
        return None
    e["pix"][len(e["pix"]) // 2][3] += 130000
    return e

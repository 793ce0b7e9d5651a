"""C03: colour, padded and OpenCV variants of the backward unwarping."""
import random
import numpy as np
import cv2
from vp import call, fx
import warpdrv as wd
import discorpy.util.utility as util

ID = "C03"
MC = [("MC_Warp", "MC_Warp.cfg")]
TRACE = ("T_Warp", "T.cfg")


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    pads = [False, 0, 1, 3, [0, 0, 0, 0], [1, 0, 2, 3], [0, 4, 0, 0], [5, 1, 0, 2]]
    for n, s in enumerate(model["MC_Warp"]):
        m = wd.model_from_tlc(s)
        if not any(m["K"]):
            continue
        m.update(kind=n % 2, nc=[0, 3, 1, 4][n % 4], dt=["float32", "uint8", "float64"][n % 3],
                 pad=pads[n % 8], padk="tuple" if n % 2 else "list", pad_mode=["constant", "edge", "reflect", "symmetric", "wrap"][(n // 8) % 5],
                 order=1 if n % 5 else 0, fn="color", seed=n, npix=48, defaults=0)
        out.append(dict(m))
        m.update(fn="cv2", kind=1, nc=[0, 3][n % 2], dt=["uint8", "float32", "uint16"][n % 3])
        if m["h"] > 1 and m["w"] > 1:
            out.append(m)
    for n in range(ctx.pick(160, 1500)):
        h, w = rng.randint(3, 140), rng.randint(3, 140)
        if n % 20 == 0:
            h, w = rng.choice([(900, 1200), (1300, 700)])
        fn = rng.choice(["color", "cv2"])
        m = wd.rand_model(rng, h, w, physical=True, strong=rng.choice([0.5, 1]))
        m.update(kind=1 if fn == "cv2" else rng.choice([0, 1]), nc=rng.choice([0, 3, 3, 2]),
                 dt=rng.choice(["uint8", "float32"] if fn == "cv2" else ["uint8", "float32", "float64", "uint16"]),
                 pad=rng.choice([False, 0, rng.randint(1, 20), [rng.choice([0, 0, 70, 130, 300]) if n % 20 == 0 else rng.randint(0, 9) for _ in range(4)]]), padk=rng.choice(["tuple", "list"]),
                 pad_mode=rng.choice(["constant", "edge", "reflect", "symmetric", "wrap"]), order=rng.choice([1, 1, 1, 0]), fn=fn, seed=rng.randrange(10 ** 6), npix=60,
                 defaults=int(rng.random() < 0.2))
        if m["defaults"]:
            m.update(order=1, pad=False, pad_mode="constant")
        out.append(m)
    # spline orders, half way between the pixels of a wave
    for n in range(ctx.pick(24, 120)):
        h, w = rng.randint(60, 90), rng.randint(60, 90)
        m = wd.rand_model(rng, h, w, nk=1, centre="int")
        m["K"] = [wd.S // 2]
        m.update(kind=4 + n % 2, order=2 + (n // 2) % 4, dt=["float64", "uint8", "float32"][n % 3], nc=rng.choice([0, 3, 2]), fn="color", pad=False, padk="list",
                 pad_mode="edge", seed=rng.randrange(10 ** 6), npix=80, defaults=0)
        out.append(m)
    # automatic padding
    for n in range(ctx.pick(60, 400)):
        h, w = rng.randint(40, 160), rng.randint(40, 160)
        if n % 12 == 0:
            h, w = rng.choice([(600, 800), (1000, 500)])
        elif n % 12 == 4:
            h, w = rng.choice([(480, 1000), (1000, 480), (900, 900)])
        m = wd.rand_model(rng, h, w, physical=True, centre=rng.choice(["mid", "off"]) if n % 12 != 4 else "off", nk=1)
        S = wd.S
        sgn = rng.choice([-1, -1, -1, 1])
        K = [S, 0, int(sgn * rng.uniform(0.02, 0.12) * S)]
        if rng.random() < 0.5:
            K = [int(rng.uniform(0.9, 1.05) * S), int(-rng.uniform(0.0, 0.08) * S), int(-rng.uniform(0.0, 0.05) * S), int(-rng.uniform(0.0, 0.02) * S)]
        r = np.linspace(0, 2.0, 200)
        f = r * sum(k / S * r ** i for i, k in enumerate(K))
        far = max(np.hypot(y - m["yc"] * m["R"] / S, x - m["xc"] * m["R"] / S) for y in (0, h) for x in (0, w)) / m["R"]
        if np.any(np.diff(f) <= 0.001) or f[-1] < far * 1.15:
            K = [S, 0, int(-0.03 * S)]
        if n % 6 == 1:
            K = [int(max(rng.uniform(.25, .7), far / 1.7) * S)]             # far beyond the frame
        elif n % 6 == 4:
            K = [int(rng.uniform(.68, .78) * S), 0, int(rng.uniform(.2, .28) * S), 0, 0, 0]     # the nearest corner goes farthest
        m["K"] = K
        fn = rng.choice(["color", "cv2"])
        m.update(kind=1, nc=rng.choice([0, 3]), dt="float32", pad=True, padk="list", pad_mode=rng.choice(["edge", "constant"]), order=1, fn=fn,
                 seed=rng.randrange(10 ** 6), npix=40, defaults=0)
        out.append(m)
    # the OpenCV mapping itself
    for n in range(ctx.pick(40, 400)):
        h, w = rng.randint(6, 30), rng.randint(6, 30)
        m = wd.rand_model(rng, h, w)
        m.update(kind=n % 2, nc=rng.choice([0, 3]), dt=rng.choice(["uint8", "float32", "uint16"]), order=rng.choice([1, 1, 0]), fn="remap",
                 border=rng.choice([None, "constant", "edge", "reflect", "symmetric", "wrap"]), size=[rng.randint(1, 9), rng.randint(1, 9)], seed=rng.randrange(10 ** 6))
        out.append(m)
    m = wd.rand_model(rng, 20, 30)
    m.update(kind=0, nc=0, dt="float32", padk="list", pad_mode="constant", order=1, seed=1, npix=4, defaults=0, want="reject")
    for p in [[1, 2], [1, 2, 3], [1, 2, 3, 4, 5], [], "auto", 2.5, None]:
        for fn in ("color", "cv2"):
            out.append(dict(m, pad=p, fn=fn))
    return out


BORDER = dict(constant=cv2.BORDER_CONSTANT, edge=cv2.BORDER_REPLICATE, reflect=cv2.BORDER_REFLECT_101, symmetric=cv2.BORDER_REFLECT, wrap=cv2.BORDER_WRAP)


def remap(s, img):
    rng = random.Random(s["seed"])
    h, w, nc = s["h"], s["w"], s["nc"]
    fr = range(32) if s["order"] else [0, 3, 9, 12, 20, 25, 30]
    pos = lambda n: [[32 * rng.randint(-4 if rng.random() < .5 else 0, n + 3 if rng.random() < .5 else n - 1) + rng.choice(fr) for _ in range(s["size"][1])] for _ in range(s["size"][0])]
    y, x = pos(h), pos(w)
    kw = dict(method=cv2.INTER_NEAREST) if s["order"] == 0 else dict(method=cv2.INTER_LINEAR) if s["seed"] % 2 else {}
    if s["border"]:
        kw["border"] = BORDER[s["border"]]
    out, res = call(util.mapping_cv2, img, np.float32(x) / np.float32(32), np.float32(y) / np.float32(32), **kw)
    e = wd.base_event(s, "remap", out=out, want="value", order=s["order"], dt=s["dt"], edt=s["dt"], lib="cv2", nc=nc, pads=[0, 0, 0, 0], padmode=s["border"] or "constant",
                      eh=s["size"][0], ew=s["size"][1])
    if out == "ok":
        res = np.asarray(res)
        e["odt"] = str(res.dtype)
        if res.ndim == (3 if nc else 2):
            e["oh"], e["ow"] = res.shape[:2]
            e["oc"] = res.shape[2] if nc else 0
            if e["oc"] == nc and [e["oh"], e["ow"]] == s["size"]:
                for i in range(e["oh"]):
                    for j in range(e["ow"]):
                        c = rng.randrange(nc) if nc else 0
                        e["pix"].append([i, j, c, fx(res[i, j, c] if nc else res[i, j], 1024), y[i][j], x[i][j]])
    return e


def execute(s):
    rng = random.Random(s["seed"])
    h, w, nc = s["h"], s["w"], s["nc"]
    if nc:
        img = np.stack([wd.image(s["kind"], c, h, w, s["dt"]) for c in range(nc)], axis=-1)
    else:
        img = wd.image(s["kind"], 0, h, w, s["dt"])
    if s["fn"] == "remap":
        return remap(s, img)
    xc, yc, ks = wd.model_args(s)
    pad = s["pad"]
    if isinstance(pad, list) and s["padk"] == "tuple":
        pad = tuple(pad)
    kw = {} if s["defaults"] else dict(pad=pad, pad_mode=s["pad_mode"])
    if s["fn"] == "color":
        if not s["defaults"]:
            kw["order"] = s["order"]
        out, res = call(util.unwarp_color_image_backward, img, xc, yc, ks, **kw)
    else:
        if s["order"] == 0:
            kw["method"] = cv2.INTER_NEAREST
        out, res = call(util.unwarp_image_backward_cv2, img, xc, yc, ks, **kw)
    auto = pad is True
    p = [0, 0, 0, 0]
    if isinstance(pad, bool):
        pass
    elif isinstance(pad, int):
        p = [pad] * 4
    elif isinstance(pad, (list, tuple)) and len(pad) == 4:
        p = list(pad)
    e = wd.base_event(s, "autopad" if auto else s["fn"], out=out, want=s.get("want", "value"), order=s["order"], dt=s["dt"], edt=s["dt"],
                      lib="cv2" if s["fn"] == "cv2" else "scipy", nc=nc, pads=p, padmode=s["pad_mode"],
                      eh=h + p[0] + p[1], ew=w + p[2] + p[3])
    if out == "ok" and not isinstance(res, np.ndarray):
        e["out"] = "not-an-array"
    elif out == "ok":
        e["odt"] = str(res.dtype)
        if res.ndim == (3 if nc else 2):
            e["oh"], e["ow"] = res.shape[:2]
            e["oc"] = res.shape[2] if nc else 0
            if e["oc"] == nc and (auto or (e["oh"], e["ow"]) == (e["eh"], e["ew"])):
                for i, j in wd.sample_pixels(rng, e["oh"], e["ow"], s["npix"]):
                    c = rng.randrange(nc) if nc else 0
                    e["pix"].append([i, j, c, fx(res[i, j, c] if nc else res[i, j], 1024)])
    return e


def corrupt(e):
    if e["want"] == "reject":
        e["out"] = "ok"
        return e
    if not e["pix"] or e["order"] > 1:
        return None
    e["pix"][len(e["pix"]) // 3][3] += 330000
    return e

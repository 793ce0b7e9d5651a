"""C02: slices and bands of a 3D stack are rows of the corrected frames."""
import os
import random
import tempfile
import numpy as np
import h5py
from vp import call, fx
import warpdrv as wd
import discorpy.post.postprocessing as post

ID = "C02"
MC = [("MC_Warp", "MC_Warp.cfg")]
TRACE = ("T_Warp", "T.cfg")


def physical(m):
    r = np.linspace(0, 3, 120)
    if not any(m["K"]):
        return False
    f = r * sum(k / wd.S * r ** i for i, k in enumerate(m["K"]))
    return bool(np.all(np.diff(f) > 0))


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    for n, s in enumerate(model["MC_Warp"]):
        m = wd.model_from_tlc(s)
        if not physical(m):
            continue
        m.update(kind=0, dt=["float32", "float64", "uint16", "uint8"][n % 4], depth=1 + n % 3, cont="array", seed=n, npix=40, kv="list")
        h = m["h"]
        for idx in range(h):
            if (idx + n) % 3 == 0 or h < 4:
                out.append(dict(m, op="slice", index=idx))
        for a in range(h):
            for b in range(a, h):
                if (a + b + n) % 4 == 0 or h < 3:
                    out.append(dict(m, op="chunk", start=a, stop=b))
        out.append(dict(m, op="chunk", start=rng.randrange(h), stop=-1))
        if n % 5 == 0:
            for a, b in [(0, h), (-1, h - 1), (h, h), (0, -2), (h + 4, -1), (h, -1), (h, h - 1)]:
                out.append(dict(m, op="chunk", start=a, stop=b, want="reject"))
    for n in range(ctx.pick(140, 1200)):
        k = n % 14
        kind, depth = 0, rng.randint(1, 4)
        if k == 0:
            h, w, kind, depth = rng.choice([32769, 40000, 66000]), rng.randint(2, 5), 1, 1
        elif k in (1, 2):
            h, w = rng.choice([(300, 1200), (1200, 300), (900, 900)])
            depth = 2
        else:
            h, w = rng.randint(2, 120), rng.randint(2, 120)
        m = wd.rand_model(rng, h, w, physical=True, strong=0.5 if k == 0 else rng.choice([0.5, 1, 2]))
        m.update(kind=kind, dt=rng.choice(["float32", "float64", "uint16", "uint8", "int16", "int32"]), depth=depth,
                 cont=rng.choice(["array", "array", "F", "view", "hdf", "memmap"]), seed=rng.randrange(10 ** 6), npix=60,
                 kv=rng.choice(["list", "tuple", "array"]))
        if k == 0:
            m["cont"] = "array"
        pick = rng.choice(["edge", "any", "mid"])
        idx = {"edge": rng.choice([0, h - 1]), "any": rng.randrange(h),
               "mid": max(0, min(h - 1, m["yc"] * m["R"] // wd.S))}[pick]
        if n % 2 or n % 28 == 14:
            if k == 0:
                idx = rng.randrange(32000, h)
            out.append(dict(m, op="slice", index=idx))
        else:
            a = rng.randrange(h) if k else rng.randrange(30000, h)
            b = min(h - 1, a + rng.choice([0, 1, 3, 10, h]))
            if k == 0:
                b = min(h - 1, a + rng.choice([0, 2, 7]))
            if rng.random() < 0.2 and k:
                b = -1
            out.append(dict(m, op="chunk", start=a, stop=b))
    # slices and bands whose highest or lowest source row is anywhere: strong
    # models with an off-centre centre, many rows, columns around the centre
    for n in range(ctx.pick(60, 500)):
        h, w = rng.randint(30, 90), rng.randint(40, 110)
        m = wd.rand_model(rng, h, w, physical=True, strong=rng.choice([1.5, 2.5, 4]), centre=rng.choice(["off", "off", "mid", "corner"]))
        m.update(kind=0, dt="float32", depth=1, cont="array", seed=rng.randrange(10 ** 6), npix=24, kv="list", cols="spread")
        for idx in sorted({0, h - 1, rng.randrange(h), rng.randrange(h), rng.randrange(h)}):
            out.append(dict(m, op="slice", index=idx))
        for _ in range(2):
            a = rng.randrange(h)
            out.append(dict(m, op="chunk", start=a, stop=min(h - 1, a + rng.choice([0, 1, 2, 5, 20]))))
    # large frames, strongly bent: a slice draws on hundreds of rows
    for n in range(ctx.pick(6, 50)):
        h, w = rng.choice([(600, 1000), (900, 900), (1000, 1400)])
        m = wd.rand_model(rng, h, w, nk=1, centre="mid")
        m["K"] = [int(.65 * wd.S), 0, int(rng.uniform(.9, 1.4) * wd.S)]
        m.update(kind=n % 2, dt="float32", depth=1, cont="array", seed=rng.randrange(10 ** 6), npix=24, kv="list", cols="spread")
        for idx in (rng.randrange(h // 8, h // 4), rng.randrange(3 * h // 4, 7 * h // 8)):
            out.append(dict(m, op="slice", index=idx))
            out.append(dict(m, op="chunk", start=idx, stop=idx + rng.randint(0, 3)))
    # long coefficient lists
    for n in range(ctx.pick(12, 80)):
        h, w = rng.randint(12, 90), rng.randint(12, 90)
        m = wd.long_model(rng, h, w)
        m.update(kind=0, dt=rng.choice(["float32", "uint8"]), depth=2, cont="array", seed=rng.randrange(10 ** 6), npix=30, kv=rng.choice(["list", "array"]))
        a = rng.randrange(h)
        out.append(dict(m, op="slice", index=rng.randrange(h)))
        out.append(dict(m, op="chunk", start=a, stop=rng.randrange(a, h)))
    # deep stacks, looked at in their last frames
    for n in range(ctx.pick(8, 40)):
        h, w = rng.randint(2, 6), rng.randint(2, 6)
        m = wd.rand_model(rng, h, w, physical=True)
        m.update(kind=0, dt=rng.choice(["float32", "uint16", "uint8"]), depth=rng.choice([260, 300, 600]), cont=rng.choice(["array", "hdf"]),
                 seed=rng.randrange(10 ** 6), npix=3, kv="list", late=1)
        a = rng.randrange(h)
        out.append(dict(m, op="slice", index=a))
        out.append(dict(m, op="chunk", start=a, stop=rng.randrange(a, h)))
    m = wd.rand_model(rng, 9, 11)
    m.update(kind=0, dt="float32", depth=0, cont="2d", seed=3, npix=5, kv="list", want="reject")
    out.append(dict(m, op="slice", index=2))
    out.append(dict(m, op="chunk", start=2, stop=4))
    return out


def stack(s):
    d = s["depth"]
    if s["cont"] == "2d":
        return wd.image(s["kind"], 0, s["h"], s["w"], s["dt"]), None
    a = np.stack([wd.image(s["kind"], c, s["h"], s["w"], s["dt"]) for c in range(d)])
    if s["cont"] == "hdf":
        f = h5py.File("x%d.h5" % os.getpid(), "w", driver="core", backing_store=False)
        return f.create_dataset("d", data=a), f
    if s["cont"] == "memmap":
        fn = tempfile.mktemp(dir=os.environ["VP_SCRATCH"])
        mm = np.memmap(fn, dtype=a.dtype, mode="w+", shape=a.shape)
        mm[:] = a
        os.unlink(fn)
        return mm, None
    return wd.layout(a, s["cont"]), None


def execute(s):
    rng = random.Random(s["seed"])
    mat, f = stack(s)
    xc, yc, ks = wd.model_args(s)
    ks = wd.kvec(s["kv"], ks)
    h, w, d = s["h"], s["w"], s["depth"]
    fr = range(d) if not s.get("late") else sorted({0, 127, 128, 255, 256, d - 2, d - 1, rng.randrange(d)})
    if s["op"] == "slice":
        out, res = call(post.unwarp_slice_backward, mat, xc, yc, ks, s["index"])
        e = wd.base_event(s, "slice", eh=d, ew=w, dt=s["dt"])
    else:
        last = h - 1 if s["stop"] == -1 else s["stop"]
        out, res = call(post.unwarp_chunk_slices_backward, mat, xc, yc, ks, s["start"], s["stop"])
        e = wd.base_event(s, "chunk", eh=last - s["start"] + 1, ew=w, nc=d, dt=s["dt"])
    e.update(out=out, want=s.get("want", "value"))
    if out == "ok":
        res = np.asarray(res)
        if s["op"] == "slice" and res.ndim == 2:
            e["oh"], e["ow"] = res.shape
            if res.shape == (d, w):
                if s.get("cols") == "spread":
                    x = int(xc)
                    cols = [c for c in sorted({0, w - 1, w // 2} | set(range(x - 4, x + 5)) | set(range(0, w, max(1, w // 11)))) if 0 <= c < w]
                else:
                    cols = sorted({0, w - 1} | {rng.randrange(w) for _ in range(s["npix"])})
                e["pix"] = [[s["index"], j, c, fx(res[c, j], 1024)] for c in fr for j in cols][:3 * s["npix"] if not s.get("late") else None]
        elif s["op"] == "chunk" and res.ndim == 3:
            e["oc"], e["oh"], e["ow"] = res.shape
            if e["oc"] == d and e["oh"] == e["eh"] and e["ow"] == w:
                e["pix"] = [[s["start"] + i, j, c, fx(res[c, i, j], 1024)] for c in fr
                            for i, j in wd.sample_pixels(rng, e["oh"], w, (s["npix"] if s.get("cols") != "spread" else 70) if e["oh"] * w > 40 else 12)]
    if f is not None:
        f.close()
    return e


def corrupt(e):
    if e["want"] == "reject":
        e["out"] = "ok"
        return e
    if not e["pix"]:
        return None
    e["pix"][-1][3] += 260000
    return e

"""C16: segmentation of a grey image into separated dots."""
import contextlib
import io
import numpy as np
from vp import call
import c15
import discorpy.prep.preprocessing as prep

ID = "C16"
MC = [("MC_Seg", "MC_Seg.cfg")]
TRACE = ("T_Seg", "T.cfg")
DT = ["uint8", "float32", "int16", "float64", "uint16", "int32"]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    ms = model["MC_Seg"]
    rng.shuffle(ms)
    for n, m in enumerate(ms[:ctx.pick(200, 3000)]):
        h, w = m["h"], m["w"]
        inv = n % 2
        G = [[7 if inv else 1] * w for _ in range(h)]
        for y, x in m["px"]:
            G[y][x] = 1 if inv else 7
        out.append(dict(op="bin", G=G, thr=rng.choice([1, 4, 6.5]), den=0, dt=DT[n % 6], lay=n % 3))
    for n in range(ctx.pick(260, 3000)):
        h, w = rng.randint(4, 16), rng.randint(4, 16)
        kind = rng.choice(["noise", "blobs", "blobs", "blobs", "rings", "salt"])
        G = picture(rng, h, w, kind)
        dt = rng.choice(DT)
        if dt[0] in "fi" and rng.random() < .2:
            G = [[-v if rng.random() < .3 else v for v in r] for r in G]
        thr = rng.choice([0, 1, 3, 4.5, 5, 7, 8])
        if dt[0] == "f" and rng.random() < .5:
            G = [[v + .5 if rng.random() < .5 else v for v in r] for r in G]
        out.append(dict(op="bin", G=G, thr=thr, den=rng.choice([0, 0, 1]), dt=dt, lay=rng.randrange(3)))
    for n in range(ctx.pick(12, 80)):        # dots with large holes; exactly half of the pixels
        if n % 2:
            h, w = rng.randint(36, 42), rng.randint(36, 42)
            r = rng.uniform(13, 16.4)
            px = [(y, x) for y in range(h) for x in range(w) if (r - 3.6) ** 2 < (y - 17) ** 2 + (x - 17.4) ** 2 <= r * r]
        elif n % 6 == 0:
            h = w = 70
            px = [(y, x) for y in range(6, 56) for x in range(8, 57)] + [(30, 57)] * (n % 12 == 0)
        else:
            h = w = 16
            px = [(y, x) for y in range(2, 13) for x in range(2, 13)] + [(13, x) for x in range(2, 9)] + [(13, 9)] * (n % 4 == 0)
        lo, hi = rng.choice([(1, 6), (6, 1)])
        G = [[lo] * w for _ in range(h)]
        for y, x in px:
            G[y][x] = hi
        out.append(dict(op="bin", G=G, thr=3, den=0, dt=rng.choice(DT), lay=rng.randrange(3)))
    for n in range(ctx.pick(120, 1200)):
        out.append(otsu(rng))
    for n in range(ctx.pick(40, 300)):
        k = rng.choice([0, 1, 23, 24, 25, 26, 30])
        px = []
        cells = [(y, x) for y in range(1, 14, 2) for x in range(1, 14, 2)]
        rng.shuffle(cells)
        for y, x in cells[:k]:
            px.append([y, x])
            if rng.random() < .2:
                px.append([y, x + 1] if x < 13 and [y, x + 2] not in px else [y, x])
        if rng.random() < .5:
            px += [[y + 1, x + 1] for y, x in cells[:2]]      # diagonal neighbours
        out.append(dict(op="count", h=16, w=16, px=px, dt=rng.choice(["float32", "int16", "uint8", "bool"])))
    return out


def picture(rng, h, w, kind):
    lo, hi = rng.choice([(1, 6), (6, 1), (2, 9), (0, 5)])
    G = [[lo] * w for _ in range(h)]
    if kind == "noise":
        q = rng.uniform(.1, .9)
        return [[hi if rng.random() < q else lo for _ in range(w)] for _ in range(h)]
    for _ in range(rng.randint(1, 5)):
        if kind == "rings":
            cy, cx, r = rng.randint(2, h - 1), rng.randint(2, w - 1), rng.uniform(2, 4)
            px = [(y, x) for y in range(h) for x in range(w) if (r - 1.6) ** 2 < (y - cy) ** 2 + (x - cx) ** 2 <= r * r]
        else:
            oy, ox = rng.randrange(h), rng.randrange(w)
            px = [(y + oy, x + ox) for y, x in c15.shape(rng, rng.choice(["disk", "rect", "walk", "disk"]))]
        for y, x in px:
            if 0 <= y < h and 0 <= x < w:
                G[y][x] = hi
    if kind == "salt":
        for _ in range(6):
            G[rng.randrange(h)][rng.randrange(w)] = rng.randint(0, 9)
    return G


def otsu(rng):
    """two levels inside the region of interest, other things outside of it"""
    dt = rng.choice(["uint8", "uint16", "int16", "int32", "float32", "float64"])
    h, w = rng.randint(16, 26), rng.randint(16, 26)
    dark = rng.random() < .5
    lo = rng.randint(5, 60)
    hi = lo + rng.randint(40, 150)
    bg, dot = (hi, lo) if dark else (lo, hi)
    G = [[bg] * w for _ in range(h)]
    step = rng.randint(6, 8)
    oy, ox = rng.randint(1, 4), rng.randint(1, 4)
    r = rng.choice([1.5, 2, 2.3])
    for y in range(h):
        for x in range(w):
            dy, dx = (y - oy) % step - step // 2, (x - ox) % step - step // 2
            if dy * dy + dx * dx <= r * r:
                G[y][x] = dot
    r64 = rng.choice([64, 48, 40, 32])
    m = lambda n: ((64 - r64) * n) // 128
    my, mx = m(h), m(w)
    if dt[0] != "f":
        for y in range(h):
            for x in range(w):
                # outside the region the levels are not seen: keep them away from the gap
                # (nor do levels of the region leak out of it by the median filter)
                inside = my <= y < h - my - 1 and mx <= x < w - mx - 1
                G[y][x] += rng.randint(-5, 5) if inside else (-5 if G[y][x] == lo else 5)
    far = rng.choice([None, 255, 0])
    if r64 < 64 and far is not None:
        for y in range(h):
            for x in range(w):
                if not (my <= y < h - my and mx <= x < w - mx) and min(abs(y - my), abs(y - h + my), abs(x - mx), abs(x - w + mx)) > 1 and rng.random() < .5:
                    G[y][x] = far
    return dict(op="otsu", G=G, thr=(lo + hi) / 2, den=rng.choice([1, 1, 0]), dt=dt, lay=0, r64=r64, over=rng.choice([0, 0, 13, 64]) if r64 == 64 else 0)


def layout(a, k):
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.zeros((2 * a.shape[0], 2 * a.shape[1]), a.dtype)
        b[::2, ::2] = a
        return b[::2, ::2]
    return a


def execute(s):
    if s["op"] == "count":
        m = np.zeros((s["h"], s["w"]), s["dt"])
        for y, x in s["px"]:
            m[y, x] = 1
        with contextlib.redirect_stdout(io.StringIO()):
            out, r = call(prep.check_num_dots, m)
        return dict(op="count", px=s["px"], out=out, few=int(bool(r)) if out == "ok" else -1)
    a = layout(np.array(s["G"], dtype=s["dt"]), s["lay"])
    keep = a.copy()
    kw = dict(denoise=bool(s["den"]))
    if s["op"] == "bin":
        kw["thres"] = s["thr"]
    else:
        kw["ratio"] = (s["r64"] + s.get("over", 0)) / 64
        if s["den"]:
            del kw["denoise"]
    out, r = call(prep.binarization, a, **kw)
    h, w = a.shape
    e = dict(op=s["op"], G=[[int(2 * v) for v in row] for row in s["G"]], thr=int(2 * s["thr"]), den=s["den"], h=h, w=w, out=out)
    if out == "ok":
        r = np.asarray(r)
        e["oh"], e["ow"] = r.shape if r.ndim == 2 else (-1, -1)
        e["binary"] = int(set(np.unique(r).tolist()) <= {0, 1})
        e["res"] = [[int(p[0]), int(p[1])] for p in zip(*np.nonzero(r))]
    return e


def corrupt(e):
    if e["op"] == "count":
        e["few"] = 1 - e["few"]
    elif e["res"]:
        e["res"] = e["res"][1:]
    else:
        e["res"] = [[1, 1]]
    return e

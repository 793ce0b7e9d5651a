"""C15: selection of dots by size, shape and distance."""
import numpy as np
from vp import call, fx
import discorpy.prep.preprocessing as prep

ID = "C15"
MC = [("MC_Blobs", "MC_Blobs.cfg")]
TRACE = ("T_Blobs", "T.cfg")


def shape(rng, kind):
    n = lambda a, b: rng.randint(a, b)
    if kind == "disk":
        r = rng.choice([1, 1.5, 2, 2.5, 3])
        return [(y, x) for y in range(-4, 5) for x in range(-4, 5) if y * y + x * x <= r * r]
    if kind == "rect":
        h, w = n(1, 6), n(1, 6)
        return [(y, x) for y in range(h) for x in range(w)]
    if kind == "ell":
        a, b, t = rng.uniform(1, 5), rng.uniform(1, 3), rng.uniform(0, 3.1)
        c, s = np.cos(t), np.sin(t)
        px = [(y, x) for y in range(-6, 7) for x in range(-6, 7) if ((x * c + y * s) / a) ** 2 + ((y * c - x * s) / b) ** 2 <= 1]
        return comp(px)
    if kind == "ell-L":
        k = n(3, 7)
        return [(y, 0) for y in range(k)] + [(k - 1, x) for x in range(1, n(3, 7))]
    # random walk
    p, px = (0, 0), {(0, 0)}
    for _ in range(n(1, 18)):
        d = rng.choice([(0, 1), (1, 0), (0, -1), (-1, 0)])
        p = (max(-4, min(4, p[0] + d[0])), max(-4, min(4, p[1] + d[1])))
        px.add(p)
    return sorted(px)


def comp(px):
    px = set(px)
    st = [min(px, key=lambda p: abs(p[0]) + abs(p[1]))]
    seen = set(st)
    while st:
        y, x = st.pop()
        for q in ((y + 1, x), (y - 1, x), (y, x + 1), (y, x - 1)):
            if q in px and q not in seen:
                seen.add(q)
                st.append(q)
    return sorted(seen)


def place(rng, H, W, kinds, count, at=None):
    """objects that do not touch (their bounding boxes may overlap)"""
    used, blobs = set(), []
    for c in range(count):
        for _ in range(30):
            px = shape(rng, rng.choice(kinds))
            oy, ox = at[c] if at else (rng.randint(0, H - 1), rng.randint(0, W - 1))
            b = [(y + oy, x + ox) for y, x in px]
            if any(not (0 <= y < H and 0 <= x < W) for y, x in b):
                continue
            halo = {(y + a, x + d) for y, x in b for a, d in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1))}
            if halo & used:
                if at:
                    break
                continue
            used |= set(b)
            blobs.append([list(p) for p in b])
            break
    return blobs


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    TY = ["f4", "i2", "bool", "f8", "u1"]
    kinds = ["disk", "rect", "ell", "ell-L", "walk"]
    imgs = list(model["MC_Blobs"])
    rng.shuffle(imgs)
    for m in imgs[:ctx.pick(400, 5000)]:
        out.append(dict(op="size", H=m["H"], W=m["W"], blobs=m["blobs"], size8=8 * rng.choice([1, 2, 3, 4]), r8=rng.choice([0, 2, 4, 8]), ty=rng.choice(TY), defaults=0))
    for n in range(ctx.pick(250, 3000)):
        H, W = rng.randint(18, 40), rng.randint(18, 40)
        b = place(rng, H, W, kinds, rng.randint(1, 12))
        if not b:
            continue
        s = dict(H=H, W=W, blobs=b, ty=rng.choice(TY), defaults=0)
        out.append(dict(s, op="size", size8=rng.choice([8 * len(rng.choice(b)), rng.randint(8, 160)]), r8=rng.choice([0, 1, 2, 4, 6, 8, 12, 20])))
        out.append(dict(s, op="ratio", r=rng.choice([.1, .25, .3, .5, .8])))
    for n in range(ctx.pick(150, 2000)):
        d = rng.choice([9, 12, 15.5])
        t = rng.uniform(-.2, .2)
        nr, nc = rng.randint(2, 5), rng.randint(2, 6)
        j = rng.choice([0, .5, 1.5])
        sc = rng.choice([1.0, 1.0, .93, 1.1])
        pts = [[8 + i * d * sc + t * k * d + rng.uniform(-j, j), 8 + k * d * sc - t * i * d + rng.uniform(-j, j)] for i in range(nr) for k in range(nc) if rng.random() > .1]
        pts += [[rng.uniform(4, 8 + nr * d), rng.uniform(4, 8 + nc * d)] for _ in range(rng.choice([0, 1, 2]))]
        mny, mnx = min(p[0] for p in pts), min(p[1] for p in pts)
        pts = [(int(round(p[0] - mny)) + 5, int(round(p[1] - mnx)) + 5) for p in pts]
        H, W = max(p[0] for p in pts) + 6, max(p[1] for p in pts) + 6
        b = place(rng, H, W, ["disk", "disk", "rect"], len(pts), pts)
        if len(b) < 2:
            continue
        k = rng.choice([1, 1, 1, 2, 3, 4, 5])     # nominal distance a fraction of the actual one
        out.append(dict(op="dist", H=H, W=W, blobs=b, d64=int(d * 64 / k), r=rng.choice([.05, .1, .2, .3]), ty=rng.choice(TY), defaults=0))
    for n in range(ctx.pick(6, 30)):        # many objects
        k = rng.randint(17, 20)
        H = W = 3 * k + 2
        b = []
        for y in range(k):
            for x in range(k):
                c = [[3 * y + 1, 3 * x + 1]]
                if rng.random() < .5:
                    c.append([3 * y + 1, 3 * x + 2])
                    if rng.random() < .5:
                        c += [[3 * y + 2, 3 * x + 1], [3 * y + 2, 3 * x + 2]]
                b.append(c)
        s = dict(H=H, W=W, blobs=b, ty=rng.choice(TY), defaults=0)
        out.append(dict(s, op=["size", "ratio"][n % 2], size8=8 * rng.choice([1, 2, 4]), r8=2, r=.3))
    for n, s in enumerate(out):
        if n % 13 == 0:
            s["defaults"] = 1
            if s["op"] == "size":
                s.update(size8=8 * 10, r8=2.4)
            else:
                s["r"] = .3
    return out


def execute(s):
    mat = np.zeros((s["H"], s["W"]), dtype=s["ty"])
    for b in s["blobs"]:
        for y, x in b:
            mat[y, x] = 1
    given = mat.copy()
    e = dict(op=s["op"], blobs=s["blobs"])
    if s["op"] == "size":
        kw = {} if s["defaults"] else dict(ratio=s["r8"] / 8)
        e["out"], r = call(prep.select_dots_based_size, mat, s["size8"] / 8, **kw)
        # exact limits: 10 +- 30% = 7..13
        e.update(size8=s["size8"], r8=s["r8"]) if not s["defaults"] else e.update(size8=80, r8=2)
        if s["defaults"]:
            e.update(size8=80, r8=3)    # 6.25..13.75: sizes 7..13, the same
    elif s["op"] == "ratio":
        kw = {} if s["defaults"] else dict(ratio=s["r"])
        e["out"], r = call(prep.select_dots_based_ratio, mat, **kw)
        q = (1 + s["r"]) ** 2
        e["q"] = fx((q - 1) / (q + 1), 4096)
    else:
        kw = {} if s["defaults"] else dict(ratio=s["r"])
        e["out"], r = call(prep.select_dots_based_distance, mat, s["d64"] / 64, **kw)
        e.update(d64=s["d64"], r64=fx(s["r"] * s["d64"]))
    if e["out"] == "ok":
        r = np.asarray(r)
        e["binary"] = int(r.shape == mat.shape and set(np.unique(r).tolist()) <= {0, 1} and (mat == given).all())
        e["res"] = np.argwhere(r).tolist() if r.ndim == 2 else []
    return e


def corrupt(e):
    if not e["res"]:
        return None
    e["res"] = e["res"][1:]
    if len(e["res"]) == 0 and e["op"] != "size":
        return None
    return e

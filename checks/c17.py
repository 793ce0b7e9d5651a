"""C17: measures of a segmented pattern (dot size and distance, slopes, centres)."""
import numpy as np
from vp import call, fx
import c15, c16
import discorpy.prep.preprocessing as prep

ID = "C17"
MC = [("MC_Seg", "MC_Seg.cfg")]
TRACE = ("T_Meas", "T.cfg")


def blobs(rng, h, w, n):
    b = c15.place(rng, h, w, ["disk", "rect", "disk", "walk"], n)
    return [list(p) for o in b for p in o]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    ms = model["MC_Seg"]
    for n, m in enumerate(ms[:ctx.pick(80, 800)]):
        out.append(dict(op="points", h=m["h"], w=m["w"], px=m["px"], grey=0, dt=["float32", "int16", "uint8", "float64"][n % 4]))
    for n in range(ctx.pick(100, 1000)):
        h, w = rng.randint(18, 44), rng.randint(18, 44)
        px = blobs(rng, h, w, rng.randint(3, 18))
        out.append(dict(op="size", h=h, w=w, px=px, r64=rng.choice([20, 32, 40, 48, 56, 64, 64]), over=rng.choice([0, 7, 64]), dt=rng.choice(["int16", "float32", "uint8"])))
    for n in range(ctx.pick(60, 500)):
        h, w = rng.randint(8, 30), rng.randint(8, 30)
        out.append(dict(op="points", h=h, w=w, px=blobs(rng, h, w, rng.randint(1, 9)), grey=0, dt=rng.choice(["float32", "int16", "uint8"])))
    for n in range(ctx.pick(50, 400)):
        h, w = rng.randint(8, 18), rng.randint(8, 18)
        out.append(dict(op="points", h=h, w=w, G=c16.picture(rng, h, w, "blobs"), thr=4.5, grey=1, dt=rng.choice(["float32", "uint8"])))
    for n in range(ctx.pick(70, 700)):
        p = rng.uniform(14, 26)
        th = rng.uniform(-.4, .4) if n % 2 else rng.uniform(-.2, .2)
        tv = -th + (rng.uniform(-.08, .08) if n % 3 == 0 else 0)
        out.append(dict(op="slope", p=p, r=rng.uniform(.17, .25) * p, th=th, tv=tv, h=int(p * rng.uniform(9, 13)), w=int(p * rng.uniform(9, 13)),
                        oy=rng.uniform(0, p), ox=rng.uniform(0, p), r64=rng.choice([45, 51, 64]), over=rng.choice([0, 7, 64]), junk=rng.choice([0, 0, 1]), seed=rng.randrange(10 ** 6)))
    for n in range(ctx.pick(2, 8)):             # very many objects
        out.append(dict(op="lattice", h=rng.randint(370, 420), w=rng.randint(370, 420), dt=["uint8", "float32"][n % 2]))
    for v in ([[0, 2], [0, 1]], [[1, 1], [1, 1]], [[0, 0], [0, 0]], [[0, .5], [1, 2]], [[-1, 0], [1, 0]], [[0, 255], [255, 0]]):
        out.append(dict(op="reject", v=v))
    return out


def image(s):
    m = np.zeros((s["h"], s["w"]), s["dt"])
    for y, x in s["px"]:
        m[y, x] = 1
    return m


def dots(s):
    """rows run along (dx, dy) = (1, th), columns along (tv, 1)"""
    h, w, p = s["h"], s["w"], s["p"]
    y, x = np.mgrid[:h, :w]
    a = np.array([1, s["th"]]) / np.hypot(1, s["th"]) * p      # (dx, dy) of a step along a row
    b = np.array([s["tv"], 1]) / np.hypot(1, s["tv"]) * p
    m = np.zeros((h, w), np.float32)
    for i in range(-25, 26):
        for j in range(-25, 26):
            cx, cy = s["ox"] + i * a[0] + j * b[0], s["oy"] + i * a[1] + j * b[1]
            if -p < cx < w + p and -p < cy < h + p:
                m[(x - cx) ** 2 + (y - cy) ** 2 <= s["r"] ** 2] = 1
    if s["junk"] and s["r64"] < 64:
        rng = np.random.RandomState(s["seed"])
        my, mx = (64 - s["r64"]) * h // 128, (64 - s["r64"]) * w // 128
        z = np.float32(rng.rand(h, w) < .3)
        z[my:h - my, mx:w - mx] = m[my:h - my, mx:w - mx]
        m = z
    return m


def ratio(s):
    """a ratio beyond 1 selects the whole image"""
    return (s["r64"] + (s["over"] if s["r64"] == 64 else 0)) / 64


def execute(s):
    e = dict(op=s["op"], out="ok")
    if s["op"] == "reject":
        e["out"] = call(prep.get_points_dot_pattern, np.array(s["v"]), binarize=False)[0]
    elif s["op"] == "lattice":
        m = np.zeros((s["h"], s["w"]), s["dt"])
        m[::2, ::2] = 1
        e["out"], r = call(prep.get_points_dot_pattern, m, binarize=False)
        if e["out"] == "ok":
            r = np.asarray(r)
            e.update(h=s["h"], w=s["w"], n=len(r), sy=fx(r[:, 0].sum(), 1), sx=fx(r[:, 1].sum(), 1), last=[fx(v, 64) for v in r[r[:, 0] + r[:, 1] == np.max(r[:, 0] + r[:, 1])][0]],
                     distinct=len(set(map(tuple, r.tolist()))))
    elif s["op"] == "size":
        e["out"], r = call(prep.calc_size_distance, image(s), ratio=ratio(s))
        e.update(h=s["h"], w=s["w"], px=s["px"], r64=s["r64"], size2=-1, dist128=-1)
        if e["out"] == "ok":
            e.update(size2=fx(r[0], 2), dist128=fx(r[1], 128))
    elif s["op"] == "points":
        e.update(h=s["h"], w=s["w"], grey=s["grey"], res=[])
        if s["grey"]:
            a = np.array(s["G"], dtype=s["dt"])
            e["out"], r = call(prep.get_points_dot_pattern, a, thres=s["thr"])
            e.update(G=[[2 * v for v in q] for q in s["G"]], thr=int(2 * s["thr"]))
        else:
            e["out"], r = call(prep.get_points_dot_pattern, image(s), binarize=False)
            e["px"] = s["px"]
        if e["out"] == "ok":
            e["res"] = [[fx(v, 64) for v in p] for p in np.asarray(r).reshape(-1, 2)]
    else:
        m = dots(s)
        o1, a = call(prep.calc_hor_slope, m, ratio=ratio(s))
        o2, b = call(prep.calc_ver_slope, m, ratio=ratio(s))
        e["out"] = o1 if o1 != "ok" else o2
        e.update(th=fx(s["th"], 65536), tv=fx(s["tv"], 65536), tol=900)
        if e["out"] == "ok":
            e.update(hs=fx(a, 65536), vs=fx(b, 65536))
    return e


def corrupt(e):
    if e["op"] == "reject":
        e["out"] = "ok"
    elif e["op"] == "size":
        if e["out"] != "ok" or e["size2"] > 10 ** 6 or e["r64"] < 48:
            return None
        e["size2"] += 1
    elif e["op"] == "lattice":
        e["n"] -= 1
    elif e["op"] == "points":
        if not e["res"]:
            return None
        e["res"][0][1] += 9
    else:
        e["vs"] += 2000
    return e

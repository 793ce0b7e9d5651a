"""Driving helpers for the radial-model checks (no judgement here)."""
import numpy as np
from vp import fx, fxs, call, BIG

S = 2 ** 24


def img_val(kind, c, i, j):
    if kind == 0:
        return (7 * i + 13 * j + 5 * ((i * j) % 101) + 17 * c) % 101
    if kind == 1:
        return np.abs(((2 * i + 3 * j + 31 * c) % 400) - 200)
    if kind == 2:
        return i * i + i * j + 2 * j * j + c
    if kind in (4, 5):        # a wave of period 4 along x or y
        return 100 + 100 * (np.abs((j if kind == 4 else i) % 4 - 2) - 1)
    return 0 * i + 0 * j + 40 + c


def image(kind, c, h, w, dt):
    i, j = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
    return img_val(kind, c, i, j).astype(dt)


def model_from_tlc(s):
    """scenario of MC_Warp -> integer model fields"""
    R = s["R"]
    u = S // R
    return dict(R=R, xc=s["xc8"] * (u // 8), yc=s["yc8"] * (u // 8),
                K=[k * (S // 64) for k in s["K64"]], h=s["h"], w=s["w"])


def model_args(m):
    """exact floats for the code: xcenter, ycenter, list_fact"""
    R = m["R"]
    return (m["xc"] * R / S, m["yc"] * R / S,
            [k / S / float(R) ** i for i, k in enumerate(m["K"])])


def pow2ge(v):
    p = 1
    while p < v:
        p *= 2
    return p


def rand_model(rng, h, w, nk=None, strong=1.0, physical=True, centre="any"):
    """random model whose corner radius stays below ~1.5 R.  The lengths of
    the frame are at most R, so the fixed-point law keeps its precision."""
    R = max(8, pow2ge(max(h, w)))
    u = S // R
    q = u // 64 if u >= 64 else 1
    if centre == "any":
        c = rng.choice(["mid", "mid", "off", "corner", "out", "int"])
    else:
        c = centre
    if c == "mid":
        yc, xc = rng.uniform(0.35, 0.65) * h, rng.uniform(0.35, 0.65) * w
    elif c == "off":
        yc, xc = rng.uniform(0.05, 0.95) * h, rng.uniform(0.05, 0.95) * w
    elif c == "corner":
        yc, xc = rng.choice([0, h - 1]), rng.choice([0, w - 1])
    elif c == "out":
        yc, xc = rng.uniform(-0.3, 1.3) * h, rng.choice([-0.2, 1.25]) * w
    else:
        yc, xc = rng.randrange(h), rng.randrange(w)
    yc = int(round(yc * u / q)) * q
    xc = int(round(xc * u / q)) * q
    n = nk if nk is not None else rng.choice([1, 2, 3, 4, 5, 5, 6, 7])
    for _ in range(200):
        K = [S + int(rng.uniform(-0.06, 0.06) * S * strong)]
        for i in range(1, n):
            K.append(int(rng.uniform(-0.12, 0.12) * S * strong / i))
        if rng.random() < 0.25 and n > 2:
            K[1] = 0
        r = np.linspace(0, 2.1, 80)
        f = r * sum(kk / S * r ** i for i, kk in enumerate(K))
        if not physical or np.all(np.diff(f) > 0.002):
            return dict(R=R, xc=xc, yc=yc, K=K, h=h, w=w)
    return dict(R=R, xc=xc, yc=yc, K=[S], h=h, w=w)


def long_model(rng, h, w):
    """8 to 12 coefficients, all of which matter; an increasing radius map"""
    m = rand_model(rng, h, w, nk=4, strong=0.5, centre="mid")
    for i in range(4, rng.randint(8, 12)):
        m["K"].append(int(rng.uniform(0.05, 0.3) * S))
    return m


def turned_model(rng, h, w):
    """the factor changes sign inside the frame: far pixels take their value
    from the other side of the centre"""
    m = rand_model(rng, h, w, nk=1, centre=rng.choice(["mid", "off", "int"]))
    d = max(h, w) / m["R"]
    K = [rng.uniform(0.3, 1.1)]
    for i in range(1, rng.choice([2, 3])):
        K.append(-rng.uniform(1.0, 4.0) / d ** i)
    m["K"] = [int(k * S) for k in K]
    return m


def sample_pixels(rng, h, w, n):
    """all pixels of a small frame, else corners, borders and random ones"""
    if h * w <= n:
        return [(i, j) for i in range(h) for j in range(w)]
    s = {(0, 0), (0, w - 1), (h - 1, 0), (h - 1, w - 1)}
    while len(s) < n // 3:
        i, j = rng.randrange(h), rng.randrange(w)
        s.add(rng.choice([(i, 0), (i, w - 1), (0, j), (h - 1, j)]))
    while len(s) < n:
        s.add((rng.randrange(h), rng.randrange(w)))
    return sorted(s)


def base_event(s, op, **kw):
    e = dict(op=op, R=s["R"], xc=s["xc"], yc=s["yc"], K=s["K"], h=s["h"],
             w=s["w"], kind=s.get("kind", 0), c0=s.get("c0", 0), nc=0, oc=0,
             order=1, dt="float32", edt="any", odt="any", lib="scipy",
             pads=[0, 0, 0, 0], padmode="constant", want="value", out="ok",
             oh=-1, ow=-1, eh=s["h"], ew=s["w"], pix=[], src=[])
    e.update(kw)
    return e


def layout(a, how):
    """same values, different memory layout"""
    if how == "F":
        return np.asfortranarray(a)
    if how == "view":
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if how == "neg":
        return a[::-1].copy()[::-1]
    return a


def kvec(kind, ks):
    """coefficient container"""
    if kind == "tuple":
        return tuple(ks)
    if kind == "array":
        return np.asarray(ks, dtype=np.float64)
    return list(ks)

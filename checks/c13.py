"""C13: grouping of dots into lines, removal of misplaced dots."""
import random
import numpy as np
from vp import call, fx
import discorpy.prep.preprocessing as prep

ID = "C13"
MC = [("MC_Group", "MC_Group.cfg")]
TRACE = ("T_Group", "T.cfg")
S = 2 ** 24
U = 256


def clean(s):
    """no comparison of the grouping is closer than the rounding of the
    specification; dots of one line differ along the line"""
    P = np.array(s["P"], dtype=float)
    if s["dir"] == "ver":
        P = P[:, ::-1]
    sl, d = s["s"] / S, s["d"]
    w = s["r"] * d // 256 * np.sqrt(1 + sl * sl)
    w2 = s["r"] * d / 256 * np.sqrt(1 + sl * sl)
    dx = P[None, :, 1] - P[:, None, 1]
    dy = P[None, :, 0] - P[:, None, 0]
    off = np.abs(sl * dx - dy)
    n = len(P)
    o = ~np.eye(n, dtype=bool)
    if (np.abs(off - w)[o] < 6).any() or (np.abs(off - w2)[o] < 6).any():
        return False
    if (np.abs(np.abs(dx) - s["m"] * d)[o] < 2).any() or (np.abs(dx)[o] < 1).any():
        return False
    return True


def rand_dots(rng, kind):
    """a tilted grid with jitter, missing and stray dots; strictly ordered x"""
    nr, nc = rng.randint(2, 6), rng.randint(2, 9)
    pitch = rng.choice([20, 35, 50]) * U
    t = rng.choice([0, rng.randint(-700, 700)])     # 1/4096
    jit = rng.choice([0, .05, .15, .3, .45])
    img = kind == "img"
    P, used = [], set()
    for i in range(nr):
        for j in range(nc):
            if rng.random() < rng.choice([0, .1, .3]):
                continue
            x = (j + 1) * pitch + rng.uniform(-.15, .15) * pitch + i * 300
            y = (i + 2) * pitch + rng.uniform(-jit, jit) * pitch + t * x / 4096
            P.append([y, x])
    for _ in range(rng.choice([0, 0, 1, 4])):
        P.append([rng.uniform(1, nr + 2) * pitch, rng.uniform(1, nc + 1) * pitch])
    out, xs = [], set()
    q = U if img else 1
    off = max(0, -min([p[0] for p in P] + [0])) + 3 * U
    for y, x in P:
        y, x = int(round((y + off) / q)) * q, int(round(x / q)) * q
        while x in xs:
            x += q
        xs.add(x)
        if img and any(abs(a - y) < 5 * q and abs(b - x) < 5 * q for a, b in out):
            continue
        out.append([y, x])
    rng.shuffle(out)
    return out, pitch, t


def scenarios(ctx, model):
    rng = ctx.rng
    out = []

    def add(s):
        if len(s["P"]) >= 2 and clean(s):
            out.append(s)

    for n, m in enumerate(model["MC_Group"]):
        for dr in ("hor", "ver"):
            P = [list(p) for p in m["P"]]
            rng.shuffle(P)
            if dr == "ver":
                P = [p[::-1] for p in P]
            num, den = rng.choice([(1, 2), (1, 1), (3, 4), (1, 4), (0, 1)])
            add(dict(op="group", dir=dr, P=P, s=m["s"], d=m["d"], r=m["r"], m=m["m"], num=num, den=den, kind=rng.choice(["list", "array", "array"])))
    tries = 0
    want = len(out) + ctx.pick(500, 6000)
    while len(out) < want and tries < 20 * want:
        tries += 1
        kind = rng.choice(["list", "array", "array", "f4", "img"])
        P, pitch, t = rand_dots(rng, kind)
        dr = rng.choice(["hor", "ver"])
        if dr == "ver":
            P = [p[::-1] for p in P]
        r = rng.choice([26, 51, 77, 100, 150])
        m = rng.choice([1, 2, 3, 6])
        num, den = rng.choice([(1, 2), (1, 1), (3, 4), (1, 4), (5, 8), (65, 100)])
        sl = t if rng.random() < .8 else rng.randint(-700, 700)
        s = dict(op="group", dir=dr, P=P, s=sl * 4096, d=pitch, r=r, m=m, num=num, den=den, kind=kind)
        if rng.random() < .12 and kind != "img":
            # defaults: ratio 0.3, 6 missing dots, accepted 0.65 / 0.75
            s.update(r=76.8, m=6, num=65 if dr == "hor" else 75, den=100, defaults=1)
        add(s)
    # well separated rows; dots of different rows at exactly the same place
    # along the rows, negative coordinates, long gaps, many dots
    for n in range(ctx.pick(90, 900)):
        kind = ["array", "f4", "list", "img", "i4"][n % 5]
        nr, nc = rng.randint(2, 5), rng.randint(4, 9)
        gap = n % 3 == 0 and kind != "img"
        if gap:
            nc = rng.randint(14, 20)
        pitch = rng.choice([20, 35]) * U
        q = U if kind in ("img", "i4") else 1
        t = rng.choice([0, 0, rng.randint(-600, 600)])
        lo, m = 0, rng.choice([2, 3, 6])
        if gap:
            lo, m = rng.randint(2, 3), rng.choice([12, 13, 15])
        P = []
        shared = rng.random() < .6
        base = [(j + 1) * pitch + int(rng.uniform(-.1, .1) * pitch) for j in range(nc)]
        for i in range(nr):
            ex = rng.randint(9, 11)     # the dots between lo and lo + ex are missing
            for j in range(nc):
                if gap and lo <= j < min(lo + ex, nc - 2) or (not gap and 0 < j < nc - 1 and rng.random() < .08):
                    continue
                x = base[j] if shared or rng.random() < .5 else base[j] + int(rng.uniform(-.05, .05) * pitch)
                x = x // q * q
                y = (i + 2) * pitch + int(rng.uniform(-.08, .08) * pitch) + t * x // 4096
                P.append([y // q * q, x])
        oy = -min(p[0] for p in P) + 6 * U
        ox = 0
        if kind not in ("img",) and n % 2:
            oy, ox = -rng.randint(0, 9) * pitch // 2, -rng.randint(0, nc + 4) * pitch
        oy, ox = oy // q * q, ox // q * q
        P = [[y + oy, x + ox] for y, x in P]
        rng.shuffle(P)
        dr = rng.choice(["hor", "ver"])
        if dr == "ver":
            P = [p[::-1] for p in P]
        num, den = rng.choice([(1, 2), (3, 4), (1, 4)])
        out.append(dict(op="group", dir=dr, P=P, s=t * 4096, d=pitch, r=77, m=m, num=num, den=den, kind=kind))
    for n in range(ctx.pick(300, 4000)):
        lines = []
        for _ in range(rng.randint(1, 4)):
            k = rng.randint(4, 9)
            a = rng.uniform(-8, 8)
            b, q = rng.uniform(-12, 12), rng.uniform(-3, 3)
            y = [int((200 + a + b * i + q * (i - k / 2) ** 2 + rng.gauss(0, .3)) * U) for i in range(k)]
            for _ in range(rng.choice([0, 0, 1, 2])):
                y[rng.randrange(k)] += int(rng.choice([-1, 1]) * rng.uniform(2, 14) * U)
            lines.append(y)
        d = n % 9 == 0
        lim = 640 if d else rng.choice([50, 128, 256, 640, 1280])
        if n % 17 == 0 and not d:
            lim = 1     # everything goes (almost)
            lines = [[v + (700 if i % 2 else -900) + 37 * i * i % 500 for i, v in enumerate(l)] for l in lines]
        sl = rng.choice([0, rng.randint(-800, 800), rng.randint(-4096, 4096)]) * 4096
        if n % 2 and not d:       # one dot just inside or outside
            y = rng.choice(lines)
            r = np.abs(np.asarray(y) - np.polyval(np.polyfit(range(len(y)), y, 2), range(len(y))))
            lim = max(1, int(r[rng.randrange(len(y))] / np.hypot(1, sl / S)) + rng.choice([-1, 1]) * rng.randint(30, 60))
        out.append(dict(op="resid", dir=rng.choice(["hor", "ver"]), lines=lines, s=sl, lim=lim,
                        x0=rng.randint(0, 300), dx=rng.choice([10, 37.5, 60]), defaults=int(d)))
    for d in ("hor", "ver"):
        for kind in ("list", "array"):
            out.append(dict(op="reject", dir=d, kind=kind))
    return out


def index(P, p, tol):
    a = np.abs(P - np.asarray(p, dtype=float)).max(axis=1)
    i = int(np.argmin(a))
    return i + 1 if a[i] < tol else 0


def execute(s):
    hor = s["dir"] == "hor"
    fn = prep.group_dots_hor_lines if hor else prep.group_dots_ver_lines
    e = dict(op=s["op"], dir=s["dir"])
    if s["op"] == "reject":
        e["out"] = call(fn, [] if s["kind"] == "list" else np.zeros((0, 2)), 0.0, 20.0)[0]
        return e
    if s["op"] == "resid":
        L = []
        for y in s["lines"]:
            l = np.stack([np.array(y) / U, s["x0"] + np.arange(len(y)) * s["dx"]], axis=1)
            L.append(l if hor else l[:, ::-1].copy())
        f = prep.remove_residual_dots_hor if hor else prep.remove_residual_dots_ver
        kw = {} if s["defaults"] else dict(residual=s["lim"] / U)
        e.update(lines=s["lines"], s=s["s"], lim=s["lim"], slack=24, keep=[])
        e["out"], r = call(f, L, s["s"] / S, **kw)
        if e["out"] == "ok":
            left = [np.asarray(l) for l in r]
            # a line without dots is left out of the result
            j = 0
            for l in L:
                if j < len(left) and index(l, left[j][0], 1e-6):
                    e["keep"].append([index(l, p, 1e-6) for p in left[j]])
                    j += 1
                else:
                    e["keep"].append([])
            if j != len(left):
                e["out"] = "extra-lines"
        return e
    P = np.array(s["P"], dtype=np.float64) / U
    kind = s["kind"]
    if kind == "img":
        q = P.astype(int)
        mat = np.zeros((q[:, 0].max() + 6, q[:, 1].max() + 6), dtype=np.float32)
        for y, x in q:
            mat[y - 1:y + 2, x - 1:x + 2] = 1.0
    else:
        mat = {"list": P.tolist(), "array": P, "f4": P.astype("f4"), "i4": P.astype("i4")}[kind]
    kw = dict(ratio=s["r"] / 256, num_dot_miss=s["m"], accepted_ratio=s["num"] / s["den"])
    if s.get("defaults"):
        kw = {}
    e.update(P=s["P"], s=s["s"], d=s["d"], w=int(s["r"] * s["d"] // 256), m=s["m"], num=s["num"], den=s["den"], res=[])
    e["out"], r = call(fn, mat, s["s"] / S, s["d"] / U, **kw)
    if e["out"] == "ok":
        e["res"] = [[index(P, p, 1e-3) for p in l] for l in r]
    return e


def corrupt(e):
    if e["op"] == "reject":
        e["out"] = "ok"
    elif e["op"] == "group":
        if not e["res"]:
            return None
        e["res"][0] = e["res"][0][:-1]
    else:
        k = [k for k in e["keep"] if k] if e["out"] == "ok" else []
        if not k:
            return None
        k[0].append(k[0][0])
    return e

"""C19: line and chessboard patterns: profiles, slopes, distances, crossings."""
import math
import numpy as np
from vp import call, fx
import discorpy.prep.linepattern as lp

ID = "C19"
MC = [("MC_Lines", "MC_Lines.cfg")]
TRACE = ("T_Lines", "T.cfg")
U15 = 32768
TR = [[0, 1, 1], [5, 12, 13], [7, 24, 25], [3, 4, 5], [13, 84, 85], [15, 8, 17], [9, 40, 41], [11, 60, 61]]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    ms = model["MC_Lines"]
    rng.shuffle(ms)
    for n, m in enumerate(ms[:ctx.pick(300, 3000)]):
        out.append(dict(m, op="prof", dt=["float64", "float32", "uint16", "int32"][n % 4], a=rng.randint(-3, 3), b=rng.randint(-3, 3)))
    for n in range(ctx.pick(150, 1500)):
        h, w = rng.randint(2, 48), rng.randint(2, 48)
        t = rng.choice(TR)
        out.append(dict(op="prof", dir=rng.choice(["hor", "ver"]), t=t, sg=rng.choice([-1, 1]), h=h, w=w, idx=rng.randint(0, 48), dt=rng.choice(["float64", "float32", "uint16", "int32"]),
                        a=rng.randint(-3, 3), b=rng.randint(-3, 3)))
    for t in (TR[0], TR[6]):
        for d in ("hor", "ver"):
            out.append(dict(op="prof", dir=d, t=t, sg=-1 if d == "hor" else 1, h=40000 if d == "hor" else 12, w=12 if d == "hor" else 40000, idx=36000, dt="float32", a=0, b=0))
            out.append(dict(out[-1], a=0 if d == "hor" else 1, b=1 if d == "hor" else 0))
    for n in range(ctx.pick(60, 600)):           # bent images
        t, d, sg = rng.choice([TR[1], TR[3]]), ["hor", "ver"][n % 2], rng.choice([-1, 1])
        h, w = (48, rng.randint(40, 48) if t[0] == 5 else 30 + n % 10)[::1 if d == "hor" else -1]
        out.append(dict(op="prof", dir=d, t=t, sg=sg, h=h, w=w, idx=(44 if d == "hor" else 3) if sg == 1 else (3 if d == "hor" else 44), dt=rng.choice(["float64", "float32"]), a=w // 2, b=h // 2, bent=1))
    for n in range(ctx.pick(8, 40)):             # many tilts: most of them found precisely
        L = []
        for _ in range(12):
            p = rng.randint(22 * 4, 38 * 4) * 16
            L.append(dict(kind="line", p=p, T=2 * rng.randint(-75, 74) + 1, h=int(p / 64 * 9), w=int(p / 64 * 9), ox=rng.randint(0, p), oy=rng.randint(0, p), lw=rng.uniform(2, 3.2),
                          dt="float64", bgr=["bright", "dark"][n // 2 % 2], fam=["hor", "ver"][n % 2]))
        out.append(dict(op="slopes", L=L))
    for n in range(8):
        out.append(dict(op="reject", what=["90", "-90", "3d", "1d"][n % 4], dir=["horizontal", "vertical"][n // 4]))
    for n in range(8):
        p = rng.randint(30 * 4, 38 * 4) * 16
        out.append(dict(op="none", kind=["line", "chess"][n % 2], p=p, T=0, h=int(p / 64 * 8), w=int(p / 64 * 8), ox=p // 3, oy=p // 5, lw=2.5, dt="float64", bgr="bright", fam=["hor", "ver"][n // 2 % 2]))
    N = ctx.pick(64, 700)
    for n in range(N):
        kind = ["line", "line", "chess"][n % 3]
        p = rng.randint(22 * 4 if kind == "line" else 30 * 4, 38 * 4) * 16           # 1/64 px, multiple of 1/4
        T = rng.choice([0, 1, 1, 1]) * (2 * rng.randint(-75, 74) + 1)
        s = dict(kind=kind, p=p, T=T, h=int(p / 64 * rng.uniform(7.5, 10)), w=int(p / 64 * rng.uniform(7.5, 10)), ox=rng.randint(0, p), oy=rng.randint(0, p), lw=rng.uniform(2, 3.2),
                 dt=rng.choice(["float64", "float32", "uint8", "uint16", "int16"]), bgr=rng.choice(["bright", "dark"]) if kind == "line" else "bright", fam=rng.choice(["hor", "ver"]))
        out.append(dict(s, op="cross", ratio=rng.choice([.25, .5, .375]), off=rng.choice([0, 0, 5, 12, min(s["h"], s["w"]) // 8, min(s["h"], s["w"]) // (4 if s["fam"] == "hor" else 9)]), sub=rng.choice([1, 1, 1, 0]), opts=rng.randrange(3)))
        if n % 2 == 0:
            out.append(dict(s, op="meas", dflt=n // 2 % 3))
        if n % 4 == 0:
            out.append(dict(s, op="same", what=["transpose", "contrast", "scale"][n // 4 % 3], meas=n // 12 % 2))
    for n in range(ctx.pick(32, 320)):           # larger tilts, tilts at the end of the searched range
        p = rng.randint(22 * 4, 34 * 4) * 16
        sg = [1, -1][n // 8 % 2]
        sr = [30, 6, 9, 4][n % 4]
        T = sg * (rng.randint(150, 520) if sr == 30 else int(1024 * math.tan(math.radians(sr + rng.uniform(.3, .85)))))
        out.append(dict(op="meas", kind="line", p=p, T=T, sr=sr, h=int(p / 64 * rng.uniform(8, 10)), w=int(p / 64 * rng.uniform(8, 10)), ox=rng.randint(0, p), oy=rng.randint(0, p), lw=rng.uniform(2, 3.2),
                        dt=rng.choice(["float64", "float32", "uint8", "uint16"]), bgr=rng.choice(["bright", "dark"]), fam=["hor", "ver"][n // 4 % 2], dflt=1))
    for n in range(ctx.pick(12, 100)):           # whole pixels
        p = rng.randint(22 * 4, 38 * 4) * 16
        out.append(dict(op="cross", kind="line", p=p, T=0, h=int(p / 64 * rng.uniform(7.5, 10)), w=int(p / 64 * rng.uniform(7.5, 10)), ox=rng.randint(0, p), oy=rng.randint(0, p), lw=rng.uniform(2, 3.2),
                        dt="float64", bgr=["bright", "dark"][n % 2], fam=["hor", "ver"][n // 2 % 2], ratio=.5, off=0, sub=0, opts=0))
    for n in range(ctx.pick(24, 240)):
        p = rng.randint(24 * 4, 40 * 4) * 16
        s = dict(kind="chess", p=p, T=2 * rng.randint(-75, 74) + 1, h=int(p / 64 * rng.uniform(3, 6)), w=int(p / 64 * rng.uniform(3, 6)), ox=rng.randint(0, p), oy=rng.randint(0, p), lw=2,
                 dt=rng.choice(["float64", "float32"]), bgr=rng.choice(["bright", "dark"]), smooth=rng.choice([True, True, False]))
        out.append(dict(s, op="board"))
        out.append(dict(s, op="same", board=1, what=["invert", "scale", "transpose", "flip"][n % 4]))
    return out


def pattern(s, h=None, w=None):
    h, w = s["h"], s["w"]
    y, x = np.mgrid[:h, :w].astype(float)
    a = math.atan(s["T"] / 1024)
    c, sn = math.cos(a), math.sin(a)
    p, ox, oy = s["p"] / 64, s["ox"] / 64, s["oy"] / 64
    v = -(x - ox) * sn + (y - oy) * c
    u = (x - ox) * c + (y - oy) * sn
    if s["kind"] == "chess":
        m = .5 + .4 * np.tanh(np.sin(v * np.pi / p) * p / np.pi) * np.tanh(np.sin(u * np.pi / p) * p / np.pi)
    else:
        dv, du = (v + p / 2) % p - p / 2, (u + p / 2) % p - p / 2
        m = 1 - .8 * np.maximum(np.exp(-(dv / s["lw"]) ** 2), np.exp(-(du / s["lw"]) ** 2))
        if s["bgr"] == "dark":
            m = 1 - m
    return m, u, v


def typed(m, dt):
    if dt == "uint8":
        return np.round(m * 200 + 20).astype(dt)
    if dt in ("uint16", "int16"):
        return np.round(m * 20000 + 200).astype(dt)
    return m.astype(dt)


def prof(s):
    h, w, t = s["h"], s["w"], s["t"]
    y, x = np.mgrid[:h, :w].astype(float) if h * w < 10 ** 6 else np.meshgrid(np.arange(h, dtype=float), np.arange(w, dtype=float), indexing="ij")
    m = ((x - s["a"]) ** 2 + (y - s["b"]) ** 2 if s.get("bent") else s["a"] * x + s["b"] * y + 1000).astype(s["dt"])
    ang = s["sg"] * math.degrees(math.atan2(t[0], t[1]))
    out, r = call(lp.get_tilted_profile, m, s["idx"], ang, {"hor": "horizontal", "ver": "vertical"}[s["dir"]])
    e = dict(op="prof", vt=40 if s["dt"][0] in "iu" else 6, out=out, dir=s["dir"], t=t, sg=s["sg"], h=h, w=w, idx=s["idx"], a=s["a"], b=s["b"], bent=s.get("bent", 0))
    if out == "ok":
        e.update(xs=[fx(v, 1024) for v in r[0]], ys=[fx(v, 1024) for v in r[1]], vals=[fx(v, 64) for v in r[2]])
    return e


def sel(a, n=300):
    a = np.asarray(a, dtype=float).ravel()
    return [fx(v, 1024) for v in a[::max(1, len(a) // n)]]


def cross(s, m, p=None, T=None, fam=None, bgr=None, **kw):
    fam, bgr, T = fam or s["fam"], bgr or s["bgr"], s["T"] if T is None else T
    rad = int(s["p"] / 64 / 3)
    o = dict(ratio=s.get("ratio", .5), offset=s.get("off", 0), bgr=bgr, radius=rad, subpixel=bool(s.get("sub", 1)))
    if s["kind"] == "chess":
        o.update(sensitive=.5, chessboard=True)
    o.update(kw)
    f = lp.get_cross_points_hor_lines if fam == "hor" else lp.get_cross_points_ver_lines
    return call(f, m, (-T if fam == "hor" else T) / 1024, s["p"] / 64, **o)


def meas(s, m, fam=None, bgr=None, **kw):
    fam, bgr = fam or s["fam"], bgr or s["bgr"]
    f = lp.calc_slope_distance_hor_lines if fam == "hor" else lp.calc_slope_distance_ver_lines
    return call(f, m, ratio=.85, radius=int(s["p"] / 64 / 3), bgr=bgr, search_range=float(s.get("sr", 15)), **(kw or dict(norm=False)))


def execute(s):
    op = s["op"]
    if op == "prof":
        return prof(s)
    if op == "reject":
        m = np.ones((9, 9))
        a = 3.0
        if s["what"] == "3d":
            m = np.ones((9, 9, 3))
        elif s["what"] == "1d":
            m = np.ones(9)
        else:
            a = float(s["what"])
        out, r = call(lp.get_tilted_profile, m, 4, a, s["dir"])
        return dict(op="reject", out=out)
    if op == "slopes":
        e = dict(op=op, out="ok", err=[])
        for z in s["L"]:
            o, r = meas(z, pattern(z)[0])
            e["out"] = o if o != "ok" else e["out"]
            e["err"].append(abs(fx(r[0], U15) - (z["T"] if z["fam"] == "hor" else -z["T"]) * 32) if o == "ok" else 10 ** 6)
        return e
    m0, u, v = pattern(s)
    m = typed(m0, s["dt"])
    e = dict(op=op)
    if s.get("board") or op == "board":
        f = lambda z: call(lp.convert_chessboard_to_linepattern, z, bgr=s["bgr"], smooth=s["smooth"])
        o1, A = f(m)
        if op == "board":
            e.update(out=o1, h=s["h"], w=s["w"], bgr=s["bgr"])
            if o1 == "ok":
                A = np.asarray(A, dtype=float)
                p = s["p"] / 64
                dv, du = np.abs((v + p / 2) % p - p / 2), np.abs((u + p / 2) % p - p / 2)
                inn = np.zeros(m.shape, bool)
                inn[6:-6, 6:-6] = True
                far = p / 2 - 3
                line = ((dv < .7) & (du > far)) | ((du < .7) & (dv > far))
                free = (dv > far) & (du > far)
                iy, ix = np.clip(np.arange(m.shape[0]), 4, m.shape[0] - 5), np.clip(np.arange(m.shape[1]), 4, m.shape[1] - 5)
                line &= line[iy][:, ix]
                gap = free & free[iy][:, ix]         # also at the border
                if not line.any() or not gap.any():
                    return []
                hi, lo = (np.max, np.min) if s["bgr"] == "bright" else (np.min, np.max)
                e.update(oh=A.shape[0], ow=A.shape[1], online=fx(hi(A[line]), 1024), between=fx(lo(A[gap]), 1024), mean=fx(np.mean(np.abs(A)), 1024), zero=fx(A.min() if s["bgr"] == "bright" else 0, 1024))
            return e
        g = {"invert": lambda z: 1.7 - z, "scale": lambda z: 5 * z, "transpose": lambda z: z.T, "flip": lambda z: z[::-1]}[s["what"]]
        b = {"transpose": lambda z: z.T, "flip": lambda z: z[::-1]}.get(s["what"], lambda z: z)
        o2, B = f(g(m))
        e.update(out=o1 if o1 != "ok" else o2, what=s["what"], tol=4)
        if e["out"] == "ok":
            e.update(A=sel(A), B=sel(b(B)))
        return e
    g = dict(p=s["p"], ox=s["ox"], oy=s["oy"], c=fx(math.cos(math.atan(s["T"] / 1024)), U15), s=fx(math.sin(math.atan(s["T"] / 1024)), U15))
    if op == "none":
        e["out"], r = cross(s, m, sensitive=2.0)
        return dict(e, n=int(np.asarray(r).size) if e["out"] == "ok" else -1)
    if op == "cross":
        kw = {}
        if s["opts"] == 2:
            kw["sensitive"] = .5 if s["kind"] == "chess" else .05
        e["out"], r = cross(s, m, **kw)
        ch = s["kind"] == "chess"
        e.update(fam=s["fam"], g=g, sub=s["sub"], h=s["h"], w=s["w"], T=s["T"], off=s["off"], step=int(s["p"] * s["ratio"]), rad=int(s["p"] / 64 / 3), clr=int(64 * (11.5 if ch else 3 * s["lw"] + 4)),
                 mar=20 if ch else 3, near=128 if ch else 80, tmax=(100 if ch else 40) + (0 if s["sub"] else 32), tmost=(28 if ch else 8) + (0 if s["sub"] else 32))
        if e["out"] == "ok":
            r = np.asarray(r).reshape(-1, 2)
            e.update(X=[fx(q, 64) for q in r[:, 1]], Y=[fx(q, 64) for q in r[:, 0]])
        return e
    mm = m if s["kind"] == "line" else np.asarray(lp.convert_chessboard_to_linepattern(m))
    if op == "meas":
        e["out"], r = meas(s, mm, **(dict(norm=True) if s["dflt"] == 0 else {}))
        T = (s["T"] if s["fam"] == "hor" else -s["T"]) * 32
        ch = s["kind"] == "chess"
        e.update(truth=T, p=s["p"], stol=int(U15 * (.03 if ch else .018 if "sr" not in s else .012)), dtol=60 if s["dflt"] == 0 else 12 if ch else 6)
        if e["out"] == "ok":
            e.update(slope=fx(r[0], U15), dist=fx(r[1], 64))
        return e
    # same: transposed, inverted or brighter pattern
    w = s["what"]
    oth = {"hor": "ver", "ver": "hor"}[s["fam"]]
    inv = {"bright": "dark", "dark": "bright"}[s["bgr"]]
    if s["kind"] == "chess":
        w = "transpose" if w == "contrast" else w
    z = np.asarray(mm, dtype=float) if s["meas"] else m0
    if s["meas"]:
        o1, A = meas(s, z)
        o2, B = (meas(s, z.T, fam=oth) if w == "transpose" else meas(s, z.max() - z, bgr=inv) if w == "contrast" else meas(s, z * 4))
        if w == "transpose" and o1 == o2 == "ok":
            # slopes of both families have the same meaning: dy/dx and dx/dy
            pass
        e.update(out=o1 if o1 != "ok" else o2, what=w, tol=(int(.02 * 1024), 1024)[0])
        if e["out"] == "ok":
            e.update(A=[fx(A[0], 1024), fx(A[1] / (s["p"] / 64), 1024)], B=[fx(B[0], 1024), fx(B[1] / (s["p"] / 64), 1024)])
            if s["kind"] == "chess":
                e["tol"] = 200
        return e
    if w == "transpose":
        s = dict(s, T=0)           # starts of tilted profiles are rounded differently
        z = pattern(s)[0]
    o1, A = cross(s, z)
    if w == "transpose":
        o2, B = cross(s, np.ascontiguousarray(z.T), fam=oth, T=-s["T"])
        if o2 == "ok":
            B = np.asarray(B)[:, ::-1]
    elif w == "contrast":
        o2, B = cross(s, z.max() - z, bgr=inv)
    else:
        o2, B = cross(s, z * 4)
    e.update(out=o1 if o1 != "ok" else o2, what=w, tol=6)
    if e["out"] == "ok":
        A, B = np.asarray(A), np.asarray(B)
        e.update(A=[fx(q, 1024) for q in A[:, 0]] + [fx(q, 1024) for q in A[:, 1]], B=[fx(q, 1024) for q in B[:, 0]] + [fx(q, 1024) for q in B[:, 1]])
    return e


def corrupt(e):
    op = e["op"]
    if op == "prof":
        if e["out"] == "ok":
            e["ys"][-1] += 200
        else:
            e["out"] = "hang"
    elif op == "reject":
        e["out"] = "ok"
    elif op == "none":
        e["n"] += 2
    elif op == "slopes":
        e["err"] = [v + 300 for v in e["err"]]
    elif op == "meas":
        e["dist"] += e["p"]
    elif op == "cross":
        e["Y"][0] += 300
        e["X"][0] += 300
    elif op == "same":
        e["A"] = e["A"] + [1]
    else:
        e["mean"] += 99
    return e

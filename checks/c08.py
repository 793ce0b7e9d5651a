"""C08: perspective coefficients map source to target; points are moved by them."""
import random
import numpy as np
from vp import call
import projdrv as pd
import discorpy.proc.processing as proc
import discorpy.post.postprocessing as post

ID = "C08"
MC = [("MC_Proj", "MC_Proj.cfg")]
TRACE = ("T_Proj", "T.cfg")
S = pd.S


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    for n, m in enumerate(model["MC_Proj"]):
        b = dict(R=m["R"], s=sum(m["view"], []), t=sum(m["nodes"], []), seed=n, cast=["f8", "list", "f4", "f8"][n % 4])
        for op, mp in [("coef", "forward"), ("coef", "backward"), ("inv", "both")]:
            out.append(dict(b, op=op, map=mp, defaults=int(mp == "backward" and n % 2)))
        out.append(dict(R=m["R"], op="line", c=m["c"], lines=m["nodes"], cast=["f8", "list", "f4", "tuple"][n % 4], cv=n % 2))
    for n in range(ctx.pick(150, 2500)):
        R = rng.choice([256, 512, 1024, 2048])
        k = rng.choice([4, 4, 4, 5, 6, 7, 8, 9, 12, 30])
        seed = rng.randrange(10 ** 6)
        if k == 4:
            # two quadrilaterals in general position
            q = []
            while len(q) < 2:
                quad(rng, q)
                quad(rng, q)
                if not moderate(q):
                    q = []
            perm = list(range(4))
            rng.shuffle(perm)
            s, t = ([[int(v * S) for v in q[z][a]] for a in perm] for z in (0, 1))
            cast = rng.choice(["f8", "list", "f4"])
            if rng.random() < 0.4:
                g = S // R
                s, t = ([[int(v // g) * g for v in p] for p in z] for z in (s, t))
                cast = rng.choice(["i8", "i4", "u2", "i2", "listint"])
                if cast == "u2" and min(min(p) for p in s + t) < 0:
                    cast = "i2"
        else:
            # more pairs, consistent with one map
            c = pd.rand_c(rng, R)
            t = [[int(rng.uniform(0, .95) * S), int(rng.uniform(0, .95) * S)] for _ in range(k)]
            s = pd.pts(pd.proj(pd.real_c(c, R), pd.unpts(t, R)), R)
            cast = rng.choice(["f8", "list"])
        for op, mp in [("coef", "forward"), ("coef", "backward"), ("inv", "both")]:
            out.append(dict(op=op, map=mp, R=R, s=s, t=t, seed=seed, cast=cast, defaults=int(mp == "backward" and n % 3 == 0)))
    for n in range(ctx.pick(120, 1500)):
        R = rng.choice([256, 1024, 2048])
        c = pd.rand_c(rng, R)
        g = S // R
        cast = rng.choice(["f8", "list", "f4", "tuple", "i8", "u2", "listint", "i4", "i2", "i1", "u1"])
        q = 1 if cast in ("f8", "list", "f4", "tuple") else g
        top = min(S, g * {"i1": 127, "u1": 255, "i2": 32000}.get(cast, R))
        lines = [[[rng.randrange(0, top) // q * q, rng.randrange(0, top) // q * q] for _ in range(rng.randint(1, 9))] for _ in range(rng.randint(1, 6))]
        out.append(dict(op="line", R=R, c=c, lines=lines, cast=cast, cv=n % 3))
    for n in range(ctx.pick(40, 400)):
        R, k, c = 1024, rng.choice([6, 9, 13, 30, 70]), pd.rand_c(rng, 1024)
        t = [[int(rng.uniform(0, .95) * S), int(rng.uniform(0, .95) * S)] for _ in range(k)]
        s = pd.pts(pd.proj(pd.real_c(c, R), pd.unpts(t, R)), R)
        s = [[v + int(rng.uniform(-3, 3) * S / R) for v in p] for p in s]
        out.append(dict(op="perm", map=["forward", "backward"][n % 2], R=R, s=s, t=t, seed=n, cast="f8", defaults=0, noise=int(20 * S / R)))
    # points close to the horizon of the map and behind it
    for n in range(ctx.pick(60, 600)):
        R = rng.choice([256, 1024, 2048])
        c = pd.rand_c(rng, R)
        a = rng.uniform(0, 6.28)
        g = rng.uniform(1.1, 3)
        c[6], c[7] = int(-S * g * abs(np.cos(a))), int(-S * g * abs(np.sin(a)))
        if n % 2:
            c[:6] = [int(v * .12) for v in c[:6]]
        cr = np.asarray(c) / S
        L = []
        while len(L) < 8:
            y, x = rng.uniform(0, 1), rng.uniform(0, 1)
            if n % 2 and abs(cr[6]) > .2:       # very close to it
                x = (rng.choice([-1, 1]) * rng.uniform(.011, .04) - 1 - cr[7] * y) / cr[6]
                if not 0 <= x <= 1 or rng.random() < .1:
                    x = rng.uniform(0, 1)
            d = cr[6] * x + cr[7] * y + 1
            if abs(d) > 0.01 and max(abs(cr[0] * x + cr[1] * y + cr[2]), abs(cr[3] * x + cr[4] * y + cr[5])) / abs(d) < 14:
                L.append([int(y * S), int(x * S)])
        out.append(dict(op="wide", R=R, c=c, lines=[L[:3], L[3:]], cast=rng.choice(["f8", "list"]), cv=n % 3))
    for k in (0, 1, 7, 9, 16):
        out.append(dict(op="reject", R=1024, k=k, cast="f8"))
    return out


def quad(rng, q):
    w, h = rng.uniform(.25, .8), rng.uniform(.25, .8)
    oy, ox = rng.uniform(0, .9 - h), rng.uniform(0, .9 - w)
    jit = lambda s: rng.uniform(-.18, .18) * s
    q.append([[oy + jit(h), ox + jit(w)], [oy + jit(h), ox + w + jit(w)],
              [oy + h + jit(h), ox + jit(w)], [oy + h + jit(h), ox + w + jit(w)]])


def moderate(q):
    """both maps between the two figures have moderate coefficients"""
    for a, b in ((q[0], q[1]), (q[1], q[0])):
        A, B = [], []
        for (y, x), (v, u) in zip(a, b):
            A += [[x, y, 1, 0, 0, 0, -u * x, -u * y], [0, 0, 0, x, y, 1, -v * x, -v * y]]
            B += [u, v]
        try:
            c = np.linalg.solve(np.array(A), np.array(B))
        except np.linalg.LinAlgError:
            return False
        if np.abs(c).max() > 5 or any(c[6] * x + c[7] * y + 1 < 0.25 for y, x in a):
            return False
    return True


def cast(a, how):
    a = np.asarray(a, dtype=np.float64)
    if how == "list":
        return a.tolist()
    if how == "tuple":
        return tuple(tuple(x) for x in a.tolist())
    if how == "listint":
        return np.round(a).astype(int).tolist()
    if how[0] in "iu":
        return np.round(a).astype(how)
    return a.astype(how)


def execute(s):
    R = s["R"]
    e = dict(op=s["op"], R=R, out="ok")
    if s["op"] == "reject":
        e["out"] = call(post.correct_perspective_line, [np.ones((3, 2))], [1.0] * s["k"])[0]
        e2 = dict(e, out=call(post.correct_perspective_image, np.ones((5, 6)), [1.0] * s["k"])[0])
        return [e, e2]
    if s["op"] in ("line", "wide"):
        lines = [cast(pd.unpts(l, R), s["cast"]) for l in s["lines"]]
        c = pd.real_c(s["c"], R)
        c = [c, tuple(c), np.asarray(c)][s["cv"]]
        out, res = call(post.correct_perspective_line, lines, c)
        given = [np.asarray(l, dtype=np.float64) for l in lines]
        e.update(out=out, c=s["c"], lines=[pd.pts(l, R) for l in given])
        if out == "ok":
            e["res"] = [pd.pts(l, R) for l in res]
        return e
    sp, tp = cast(pd.unpts(s["s"], R), s["cast"]), cast(pd.unpts(s["t"], R), s["cast"])
    e["s"], e["t"] = pd.pts(sp, R), pd.pts(tp, R)
    e["map"] = s["map"]
    if s["op"] == "perm":
        o = list(range(len(sp)))
        random.Random(s["seed"]).shuffle(o)
        e["out"], c = call(proc.calc_perspective_coefficients, sp, tp, mapping=s["map"])
        o2, c2 = call(proc.calc_perspective_coefficients, sp[o], tp[o], mapping=s["map"])
        e["out"] = e["out"] if o2 == "ok" else o2
        if e["out"] == "ok":
            e.update(c=pd.norm_c(c, R), c2=pd.norm_c(c2, R), noise=s["noise"])
    elif s["op"] == "coef":
        kw = {} if s["defaults"] else dict(mapping=s["map"])
        e["out"], c = call(proc.calc_perspective_coefficients, sp, tp, **kw)
        if e["out"] == "ok":
            e["c"] = pd.norm_c(c, R)
    else:
        o1, cf = call(proc.calc_perspective_coefficients, sp, tp, mapping="forward")
        o2, cb = call(proc.calc_perspective_coefficients, sp, tp, mapping="backward")
        e["out"] = o1 if o1 != "ok" else o2
        if e["out"] == "ok":
            e["cf"], e["cb"] = pd.norm_c(cf, R), pd.norm_c(cb, R)
            # points inside the source figure
            rng = random.Random(s["seed"])
            a = np.asarray(pd.unpts(e["s"], R))
            p = []
            for _ in range(6):
                w = np.array([rng.random() for _ in range(len(a))])
                p.append((w[:, None] * a).sum(0) / w.sum())
            e["p"] = pd.pts(p, R)
    return e


def corrupt(e):
    if e["op"] == "reject":
        e["out"] = "ok"
    elif e["op"] in ("line", "wide"):
        e["res"][0][0][1] += 2 * S // e["R"] if e["op"] == "line" else S
    elif e["op"] in ("coef", "perm"):
        e["c"][2] += S // 200
    else:
        e["cb"][5] += S // 100
    return e

"""C26: generated calibration patterns, pixel by pixel."""
import numpy as np
from vp import call
import discorpy.util.utility as util

ID = "C26"
MC = [("MC_Patterns", "MC_Patterns.cfg")]
TRACE = ("T_Patterns", "T.cfg")
ASSUMPTIONS = ["Frames of at least 8 pixels; a dot of even size may be mirrored about its centre; line patterns without room for a line are not judged."]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    ms = model["MC_Patterns"]
    rng.shuffle(ms)
    for m in ms[:ctx.pick(120, len(ms))]:
        out.append(dict(m, op=rng.choice(["dots", "lines"]), form=rng.randrange(3)))
    for n in range(ctx.pick(120, 700)):
        h, w = rng.randint(8, 75), rng.randint(8, 75)
        s = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 30])
        d = rng.randint(2, 25)
        mv, mh = rng.randint(0, 12), rng.randint(0, 12)
        if rng.random() < .1:
            mv = 50
        out.append(dict(op=rng.choice(["dots", "dots", "lines"]), h=h, w=w, s=s, d=d, mv=mv, mh=mh, form=rng.randrange(3)))
    for n in range(ctx.pick(80, 400)):
        m = rng.randint(0, 12)
        out.append(dict(op="chess", h=rng.randint(6, 70), w=rng.randint(6, 70), s=rng.randint(1, 15), d=0, mv=m, mh=m, g=rng.choice([0.95, 0.5, None, 0.25, 0.0625])))
    for n in range(ctx.pick(80, 400)):
        w = rng.randint(1, 45)
        out.append(dict(op="disc", h=w, w=w, r=rng.choice([0, 16, 32, 48, 57, 60, 64, 80, 96, 128]), mv=0, mh=0, s=1, d=1))
    for w in (257, 300, 362):
        out.append(dict(op="disc", h=w, w=w, r=rng.choice([48, 60, 64]), mv=0, mh=0, s=1, d=1))
    out.append(dict(op="dots", h=170, w=185, s=19, d=50, mv=14, mh=21, form=1))
    out.append(dict(op="lines", h=170, w=185, s=17, d=50, mv=14, mh=21, form=1))
    out += [dict(op="default", f=f) for f in ("lines", "chess")]
    out.append(dict(op="dots", h=1800, w=2000, s=15, d=90, mv=150, mh=150, form=9))
    return out


def execute(s):
    op = s["op"]
    if op == "default":
        f, a = dict(lines=(util.make_line_pattern, (1800, 2000, 90, 7, 100)), chess=(util.make_chessboard, (1800, 2000, 100, 100, 0.95)))[s["f"]]
        (o1, A), (o2, B) = call(f), call(f, *a)
        out = o1 if o1 != "ok" else o2
        return dict(op=op, out=out, same=1 if out == "ok" and np.array_equal(A, B) and A.dtype == B.dtype else 0, h=1, w=1)
    mg = s["mv"]
    if op in ("dots", "lines"):
        if s["mv"] != s["mh"] or s["form"] == 1:
            mg = [s["mv"], s["mh"]] if s["form"] == 2 else (s["mv"], s["mh"])
    if op == "disc":
        out, r = call(util.make_circle_mask, s["w"], s["r"] / 64)
    elif op == "dots":
        if s["form"] == 9:
            out, r = call(util.make_dot_pattern)
        else:
            out, r = call(util.make_dot_pattern, s["h"], s["w"], s["d"], s["s"], mg)
    elif op == "lines":
        out, r = call(util.make_line_pattern, height=s["h"], width=s["w"], line_distance=s["d"], line_size=s["s"], margin=mg)
    else:
        kw = {} if s["g"] is None else dict(margin_grayscale=s["g"])
        out, r = call(util.make_chessboard, s["h"], s["w"], s["s"], s["mv"], **kw)
    e = dict(op=op, out=out, h=s["h"], w=s["w"], s=s["s"], d=s["d"], mv=s["mv"], mh=s["mh"], r=s.get("r", 0))
    if out != "ok":
        return e
    r = np.asarray(r)
    if r.ndim != 2:
        return dict(e, oh=-1, ow=-1)
    if s.get("form") == 9:
        # the default pattern is judged on a part of its rows by thinning: compare with the one asked for explicitly
        o2, r2 = call(util.make_dot_pattern, 1800, 2000, 90, 15, 150)
        same = o2 == "ok" and np.array_equal(r, r2)
        return dict(
            op="disc", out="ok" if same and r.shape == (1800, 2000) else "default-differs", h=15, w=15, s=1, d=1, mv=0, mh=0, r=64, oh=15, ow=15, two=1,
            rows=[[int(x) for x in np.nonzero(row == 0)[0]] for row in r[150 + 8 + 90 - 7:150 + 8 + 90 + 8, 150 + 8 - 7:150 + 8 + 8]])
    e.update(oh=r.shape[0], ow=r.shape[1])
    z = 1 if op == "disc" else 0
    g = np.float32(0.95 if s.get("g") is None else s["g"])
    ok = np.isin(r, [0, 1] + ([g] if op == "chess" else []))
    e["two"] = 1 if ok.all() and r.dtype == np.float32 else 0
    e["rows"] = [[int(x) for x in np.nonzero(row == z)[0]] for row in r]
    if op == "chess":
        e["grey"] = [[int(x) for x in np.nonzero(row == g)[0]] for row in r]
    return e


def corrupt(e):
    if e["op"] == "default":
        return dict(e, same=0)
    if e["out"] != "ok" or "rows" not in e or e["op"] == "lines":
        return None
    rows = [list(q) for q in e["rows"]]
    y = len(rows) // 2
    rows[y] = rows[y][1:] if rows[y] else [0]
    return dict(e, rows=rows)

"""C23: what is saved is what is loaded (images, hdf, streams, metadata, lists)."""
import os
import pathlib
import shutil
import tempfile
import numpy as np
from vp import call, fxs
import discorpy.losa.loadersaver as losa

ID = "C23"
MC = [("MC_Hdf", "MC_Hdf.cfg")]
TRACE = ("T_Round", "T.cfg")
ASSUMPTIONS = ["Images larger than 70x70 and values beyond 24 bits are not generated.",
               "PIL, h5py, json and pickle are used as they are."]
SHAPES = [[1, 1], [1, 7], [9, 1], [2, 3], [3, 2], [4, 4], [3, 3], [5, 64], [33, 17], [70, 40], [4, 3], [1, 3], [3, 70]]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    ms = [m for m in model["MC_Hdf"] if m["what"] == "stream"]
    rng.shuffle(ms)
    for m in ms[:ctx.pick(80, 400)]:
        w = list(m["w"])
        out.append(dict(what="stream", w=w, sh=[3] + rng.choice([[2, 3], [1, 4], [5, 1]]), typ=rng.choice(["float32", "float64", "uint8", "uint16", "int32", None]),
                        key=rng.choice(["entry/data", "entry/data", "exchange/x", "sino", "a/b/c/data"]), meta=rng.choice([0, 0, 1, 2, 3, 4, 5]), ax=rng.choice([0, 0, 0, 1, 2])))
        if rng.random() < .5:           # data of one, two or four dimensions
            out.append(dict(out[-1], ax=0, sh=[3] + rng.choice([[], [4], [2, 3, 2], [1, 2, 3], [2, 1, 2, 2]])))
    for i in range(ctx.pick(6, 20)):
        out.append(dict(what="child", key=rng.choice(["entry/data", "a/b"]), meta=i))
    N = ctx.pick(1, 4)
    for n in range(N):
        for sh in SHAPES:
            for typ in ["uint8", "uint16", "int16", "int32", "float32", "float64", "bool"]:
                out.append(dict(what="tif", sh=sh, typ=typ, ext=rng.choice([".tif", ".tiff", ".TIF", ".Tiff"]), seed=rng.randrange(10 ** 6), rge=rng.choice(["small", "wide", "const", "neg", "unit", "real", "real"] if typ[0] == "f" else ["small", "wide", "const", "neg", "unit"]), form=rng.randrange(3)))
            for typ in ["uint8", "uint16", "int32", "float32", "float64", "bool", "int8", "int16", "uint32", "int64"]:
                out.append(dict(what="eight", sh=sh, typ=typ, ext=rng.choice([".png", ".bmp", ".PNG", ".pgm"]), seed=rng.randrange(10 ** 6), rge=rng.choice(["small", "wide", "const", "neg", "unit", "pow"]), form=rng.randrange(3)))
            for ch in (3, 4):
                out.append(dict(what="colour", sh=sh, ch=ch, ext=rng.choice([".png", ".tif"]), seed=rng.randrange(10 ** 6), avg=rng.choice([True, True, False, None])))
            out.append(dict(what="tif3", sh=sh, ch=rng.choice([1, 2, 3]), axis=rng.choice([0, 1, 2]), typ=rng.choice(["uint8", "float32", "float64"]), seed=rng.randrange(10 ** 6)))
            for typ in ["uint8", "uint16", "int32", "float32", "float64", "bool", "int64"]:
                out.append(dict(what="hdf", sh=sh if rng.random() < .5 else sh + [rng.choice([1, 2, 5])], typ=typ, seed=rng.randrange(10 ** 6), rge=rng.choice(["small", "wide", "neg", "unit", "const"] + ["real"] * 2 * (typ[0] == "f")),
                                key=rng.choice([None, "entry", "a/b", "exchange", "data"]), ask=rng.randrange(2), form=rng.randrange(3)))
    for n in range(ctx.pick(150, 800)):
        out.append(dict(what=rng.choice(["txt", "json"]), seed=rng.randrange(10 ** 6), n=rng.choice([0, 1, 2, 5, 5, 9, 12]), typ=rng.choice(["list", "tuple", "array", "f32", "np-list"]), mag=rng.choice([1, 1, 2, 3]),
                        ext=rng.choice(["", ".txt", ".json", ".dat"]), form=rng.randrange(3)))
    for n in range(ctx.pick(20, 80)):
        out.append(dict(what="pkl", seed=rng.randrange(10 ** 6)))
    return out


def data(s, sh=None):
    g = np.random.default_rng(s["seed"])
    sh = sh or s["sh"]
    t = np.dtype(s["typ"])
    r = s.get("rge", "small")
    if r == "const":
        m = np.full(sh, [0, 1, 7, 200][s["seed"] % 4])
    elif r == "wide":
        hi = {"uint8": 255, "int8": 127, "uint16": 65535, "int16": 32767}.get(s["typ"], 2 ** 22)
        lo = {"int8": -128, "int16": -32768, "int32": -2 ** 22, "int64": -2 ** 22, "float32": -2 ** 22, "float64": -2 ** 22}.get(s["typ"], 0)
        m = g.integers(lo, hi + 1, sh)
        m.flat[0] = lo
        m.flat[-1] = hi
    elif r == "real":
        m = g.normal(size=sh) * 10.0 ** int(g.integers(-6, 7))
    elif r == "neg":
        m = g.integers(-50 if t.kind in "if" else 0, 60, sh)
    elif r == "pow":
        m = g.choice([0, 1, 2, 4, 8, 16, 32, 64], sh)
    elif r == "unit":
        m = g.integers(0, 129, sh) / 128.0
        if t.kind not in "f":
            m = np.round(m)
    else:
        m = g.integers(0, 200 if t.kind != "i" else 100, sh)
    if t.kind == "b":
        return (np.asarray(m).astype(int) % 2).astype(bool)
    m = np.asarray(m).astype(t)
    k = s["seed"] % 5
    if k == 1:
        m = np.asfortranarray(m)
    elif k == 2:
        m = np.repeat(m, 2, axis=0)[::2]
    return m


def name(s, base):
    p = os.path.join(base, "d", "f" + s.get("ext", ".hdf"))
    f = s.get("form", 0)
    return p if f == 0 else pathlib.Path(p) if f == 1 else os.path.relpath(p)


def flat(a, scale=1):
    return [int(v) for v in np.rint(np.asarray(a, dtype=np.float64) * scale).astype(np.int64).ravel()]


def words(a):
    """exact 64-bit floats as strings"""
    return [np.float64(v).hex() if False else float(v).hex() for v in np.asarray(a, dtype=np.float64).ravel()]


def execute(s):
    base = os.path.realpath(tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"]))
    try:
        return globals()["do_" + s["what"]](s, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def same(out, a, b, what):
    e = dict(op="same", out=out, what=what)
    if out == "ok":
        e.update(A=[str(a[0])] + a[1], B=[str(b[0])] + b[1])
    return e


def do_tif(s, base):
    m = data(s)
    keep = m.copy()
    p = name(s, base)

    def f():
        q = losa.save_image(p, m)
        return losa.load_image(q)
    out, r = call(f)
    return same(out, (keep.shape, words(keep.astype(np.float32))), (r.shape, words(r)) if out == "ok" else None, "tif-image-changed")


def do_eight(s, base):
    m = data(s)
    keep = m.copy()
    p = name(s, base)

    def f():
        q = losa.save_image(p, m)
        return losa.load_image(q)
    out, r = call(f)
    e = dict(op="eight", out=out, u8=1 if s["typ"] == "uint8" else 0)
    if out != "ok":
        return e
    sc = 128 if (s["typ"].startswith("float") and s["rge"] == "unit") else 1
    e.update(A=flat(keep, sc), B=flat(r), shape=list(r.shape))
    if r.shape != keep.shape:
        e["B"] = []
    if sc != 1 and len(set(e["A"])) == 1:
        e["B"] = e["A"]            # a constant fraction has no 8-bit value
    return e


def do_colour(s, base):
    g = np.random.default_rng(s["seed"])
    m = g.integers(0, 256, s["sh"] + [s["ch"]]).astype(np.uint8)
    from PIL import Image
    p = os.path.join(base, "f" + s["ext"])
    Image.fromarray(m).save(p)
    kw = {} if s["avg"] is None else dict(average=s["avg"])
    out, r = call(losa.load_image, p, **kw)
    if s["avg"] is False:
        return same(out, (m.shape, words(m)), (r.shape, words(r)) if out == "ok" else None, "colour-image-changed")
    e = dict(op="mean", out=out)
    if out == "ok":
        e.update(A=[[int(v) for v in px] for px in m.reshape(-1, s["ch"])], B=flat(r, 256) if r.shape == m.shape[:2] else [])
    return e


def do_tif3(s, base):
    sh = [max(v, s["ch"] + 1) for v in s["sh"]]
    sh.insert(s["axis"], s["ch"])
    m = data(s, sh)
    want = np.moveaxis(m, s["axis"], -1).reshape(-1, s["ch"])

    def f():
        return losa.load_image(losa.save_image(os.path.join(base, "f.tif"), m))
    out, r = call(f)
    e = dict(op="mean", out=out)
    if out == "ok":
        e.update(A=[[int(v) for v in px] for px in want], B=flat(r, 256) if list(r.shape) == [v for i, v in enumerate(sh) if i != s["axis"]] else [])
    return e


def do_hdf(s, base):
    m = data(s)
    keep = m.copy()
    kw = {} if s["key"] is None else dict(key_path=s["key"])
    key = (s["key"] or "entry") + "/data"
    p = name(s, base)

    def f():
        q = losa.save_hdf_file(p, m, **kw)
        return losa.load_hdf_file(q, key) if s["ask"] else losa.load_hdf_file(q)
    out, r = call(f)
    if keep.ndim == 3:
        keep = keep.astype(np.float32)
    return same(out, ("%s %s" % (keep.shape, keep.dtype), words(keep)), ("%s %s" % (r.shape, r.dtype), words(r)) if out == "ok" else None, "hdf-data-changed")


def told(k, v):
    if isinstance(v, bytes):
        v = v.decode()
    if isinstance(v, str):
        return "%s=%s" % (k, v)
    v = np.asarray(v)
    return "%s=%s %s" % (k, v.shape, [x.item().hex() if x.dtype.kind == "f" and x.dtype.itemsize == 8 else repr(x.item()) for x in v.ravel()])


def do_stream(s, base):
    import h5py
    p = os.path.join(base, "n", "s.hdf")
    sh = s["sh"]
    ax = s["ax"]
    shape = list(sh[1:])
    shape.insert(ax, sh[0])
    vals = np.arange(int(np.prod(sh[1:]))).reshape(sh[1:])
    kw = {}
    if s["typ"]:
        kw["data_type"] = s["typ"]
    gave, opts = [], {}
    if s["meta"]:
        opts = {"energy": [25.5], "name/angles": [0.5, 1.25, -3.0], "text": "scan 12"}
        if s["meta"] == 2:
            opts = {"entry/angles": np.arange(4) * .5}
        if s["meta"] == 4:
            opts = {"big": [2 ** 24 + 1, 2 ** 53 - 1], "fine": [.1, 1 / 3, 1e-300], "small": np.array([1, 255], "uint8"), "g/h/i": np.arange(6.).reshape(2, 3), "note": "", "flag": [True]}
        if s["meta"] == 5:
            for i in range(9):
                kw["opt%d" % i] = {"m%d/v" % i: [i + .1], "m%d/w" % i: [i]}
        if s["meta"] == 3:
            kw["extra"] = {"scan/id": [7]}
        kw["options"] = opts

    def f():
        st = losa.open_hdf_stream(p, tuple(shape), key_path=s["key"], **kw)
        for slot, d in s["w"]:
            v = vals + 1 + 50 * d
            if ax == 0:
                st[slot] = v
            elif ax == 1:
                st[:, slot] = v
            else:
                st[:, :, slot] = v
        st.file.close()
        with h5py.File(p, "r") as h:
            a = h[s["key"]][()]
            meta = []
            for grp in [v for v in kw.values() if isinstance(v, dict)]:
                for k in grp:
                    v = h[k][()]
                    meta.append(told(k, v))
        return a, meta
    out, r = call(f)
    e = dict(op="stream", out=out, w=[list(x) for x in s["w"]], want=shape)
    if out != "ok":
        return e
    a, meta = r
    for grp in [v for v in kw.values() if isinstance(v, dict)]:
        for k in grp:
            gave.append(told(k, grp[k]))
    B = []
    for i in range(sh[0]):
        q = np.asarray(np.take(a, i, axis=ax)).astype(float)
        v = np.asarray(q - vals - 1)
        if (q == 0).all():
            B.append(0)
        elif (v == v.flat[0]).all() and v.flat[0] % 50 == 0:
            B.append(int(v.flat[0] // 50))
        else:
            B.append(-1)
    # the same data through the loader
    o2, m2 = call(losa.load_hdf_file, p, s["key"])
    if a.ndim == 3:
        seen = o2 == "ok" and np.array_equal(m2, a.astype("float32")) and m2.dtype == np.float32
    elif a.ndim == 2:
        seen = o2 == "ok" and np.array_equal(m2, a) and m2.dtype == a.dtype
    else:
        seen = o2 == "raise:ValueError"
    e.update(shape=list(a.shape), B=B, meta=meta, gave=gave, tok=1 if str(a.dtype) == (s["typ"] or "float32") and seen else 0)
    return e


def do_child(s, base):
    p = os.path.join(base, "s.hdf")
    out, r = call(losa.open_hdf_stream, p, (2, 3, 4), key_path=s["key"], options={s["key"] + "/angles": [1, 2]} if s["meta"] % 2 else {"ok": [1], s["key"] + "/x/y": [1, 2]})
    if out == "ok":
        r.file.close()
    return dict(op="reject", out=out)


def numbers(s):
    g = np.random.default_rng(s["seed"])
    mag = [1, 1, 1e3, 1e-3][s["mag"]]
    x, y = g.uniform(-3000, 3000, 2)
    if s["seed"] % 7 == 0:
        x, y = float(int(x)), -0.0
    f = [float(g.uniform(-2, 2) * (1e-4 * mag) ** i) for i in range(s["n"])]
    if s["seed"] % 5 == 0 and f:
        f[0], f[-1] = 1.0, 0.0
    if s["seed"] % 11 == 0 and f:
        f = [int(10 * v) for v in f]
    return x, y, f


def pack(s, f):
    t = s["typ"]
    return list(f) if t == "list" else tuple(f) if t == "tuple" else np.array(f) if t == "array" else np.array(f, dtype=np.float32) if t == "f32" else [np.float64(v) for v in f]


def meta(s, base, save, load):
    x, y, f = numbers(s)
    if s["typ"] == "np-list":
        x, y = np.float64(x), np.float64(y)
    if s["typ"] == "f32":
        x, y = np.float32(x), np.float32(y)
    v = pack(s, f)

    def g():
        q = save(name(s, base), x, y, v)
        return load(q)
    out, r = call(g)
    if out != "ok":
        return same(out, None, None, "metadata")
    n = s["n"]
    t = np.float32 if s["typ"] == "f32" else np.float64
    w = lambda a: [float(t(q)).hex() for q in a]
    return same(out, (n, w([x, y] + list(f))), (len(r[2]), w([r[0], r[1]] + list(r[2]))), "metadata-changed")


def do_txt(s, base):
    return meta(s, base, losa.save_metadata_txt, losa.load_metadata_txt)


def do_json(s, base):
    return meta(s, base, losa.save_metadata_json, losa.load_metadata_json)


def show(o):
    if isinstance(o, np.ndarray):
        return ["array", str(o.shape), str(o.dtype)] + words(o)
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [show(x) for x in o]
    if isinstance(o, dict):
        return ["dict"] + [[str(k), show(o[k])] for k in o]
    return [type(o).__name__, repr(o)]


def do_pkl(s, base):
    g = np.random.default_rng(s["seed"])
    lines = [g.normal(size=(int(g.integers(1, 6)), 2)) for _ in range(int(g.integers(0, 5)))]
    obj = [lines, (1, 2.5, None), "text", {"k": [1, lines[:1]]}, np.arange(3, dtype="int16")][: 1 + s["seed"] % 5]

    def f():
        return losa.load_python_list(losa.save_python_list(os.path.join(base, "x", "l" + ["", ".pkl"][s["seed"] % 2]), obj))
    out, r = call(f)
    if out != "ok":
        return same(out, None, None, "list")
    import json
    return same(out, ("list", [json.dumps(show(obj))]), ("list", [json.dumps(show(r))]), "list-changed")


def corrupt(e):
    if e["op"] == "reject" or e["out"] != "ok":
        return None
    e = dict(e)
    if e["op"] == "stream":
        e["B"] = [(v + 1) for v in e["B"]]
    elif e["op"] == "same":
        e["B"] = e["B"][:-1] + [e["B"][-1] + "0"]
    elif e["op"] == "mean":
        if not e["B"]:
            return None
        e["B"] = [e["B"][0] + 200] + e["B"][1:]
    else:
        e["B"] = e["B"][:-1]
    return e

"""C24: reading hdf files: slices along any axis, keys, listings."""
import os
import pathlib
import shutil
import tempfile
import h5py
import numpy as np
from vp import call
import discorpy.losa.loadersaver as losa

ID = "C24"
MC = [("MC_Hdf", "MC_Hdf.cfg")]
TRACE = ("T_Hdf", "T.cfg")
ASSUMPTIONS = ["Selections that h5py itself refuses (unordered or repeated lists) may be refused or answered, but not answered wrongly."]
TYPES = ["float32", "float64", "uint8", "uint16", "int32", "int64"]


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    ms = [m for m in model["MC_Hdf"] if m["what"] == "read"]
    rng.shuffle(ms)
    form = lambda: rng.choice(["tuple", "list", "np-tuple", "np-list"])
    for m in ms[:ctx.pick(250, len(ms))]:
        ix = list(m["ix"])
        if len(ix) == 1 and rng.random() < .6:
            out.append(dict(what="int", sh=m["sh"], ax=m["ax"], ix=ix[0], form=rng.choice(["int", "int32", "int64", "uint8", "int16"]) if ix[0] >= 0 else rng.choice(["int", "int64"]), typ=rng.choice(TYPES), key=rng.randrange(3)))
        else:
            out.append(dict(what="many", sh=m["sh"], ax=m["ax"], ix=ix, form=form(), typ=rng.choice(TYPES), key=rng.randrange(3)))
    for n in range(ctx.pick(350, 2000)):
        sh = [rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(3)]
        while sh[0] * sh[1] * sh[2] > 120:
            sh = [rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(3)]
        ax = rng.choice([0, 1, 2, 0, 1, 2, -1, 3, 5])
        nn = sh[min(2, max(0, ax))]
        r = rng.random()
        base = dict(sh=sh, ax=ax, typ=rng.choice(TYPES if sh[0] * sh[1] * sh[2] < 250 else TYPES[:2]), key=rng.randrange(3))
        if r < .25:
            i = rng.randint(-nn - 2, nn + 1)
            out.append(dict(base, what="int", ix=i, form=rng.choice(["int", "int32", "int64", "uint8", "int16"]) if i >= 0 else rng.choice(["int", "int64", "int32"])))
        elif r < .4:
            a = rng.randint(0, nn - 1)
            out.append(dict(base, what="many", ix=[a, rng.randint(a, nn + 1)], form=form()))
        elif r < .55:
            out.append(dict(base, what="many", ix=[rng.randint(0, nn - 1), rng.randint(0, nn), rng.randint(1, 3)], form=form()))
        elif r < .6:
            out.append(dict(base, what="many", ix=[nn - 1, -1, -1], form=form()))
        elif r < .75:
            k = rng.choice([1, 4, 5, 6])
            ix = sorted(rng.sample(range(nn), min(k, nn)))
            if len(ix) in (2, 3):
                ix = ix[:1]
            out.append(dict(base, what="many", ix=ix, form=form()))
        elif r < .8:
            out.append(dict(base, what="many", ix=[rng.randrange(nn + 1) for _ in range(4)], form=form()))
        elif r < .83:
            out.append(dict(base, what="many", ix=[], form=form()))
        elif r < .9:
            out.append(dict(base, what="all"))
        else:
            out.append(dict(base, what="two", sh=sh[:2], ix=rng.choice([None, None, 0])))
    for n in range(ctx.pick(150, 800)):
        out.append(dict(what="tree", seed=rng.randrange(10 ** 7), pat=rng.choice(["data", "a", "ent", "/", "x1", "a/", "zz", "", "data/", "energy", "DATA", "A", "z", "Ent", "Sub"]), auto=rng.randrange(2), path=rng.randrange(2)))
    for n in range(ctx.pick(16, 40)):
        out.append(dict(what="reject", how=["1d", "4d", "key", "file", "obj-key", "obj-file", "not-hdf", "scalar"][n % 8], seed=n))
    return out


def file(base, sh, typ, key):
    p = os.path.join(base, "f.h5")
    n = int(np.prod(sh))
    with h5py.File(p, "w") as h:
        h.create_dataset(key, data=np.arange(1, n + 1).reshape(sh).astype(typ), chunks=True if n > 20 and n % 2 else None)
    return p


def execute(s):
    base = os.path.realpath(tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"]))
    try:
        if s["what"] == "tree":
            return tree(s, base)
        if s["what"] == "reject":
            return reject(s, base)
        return read(s, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def read(s, base):
    key = ["entry/data", "entry/data", "a/b/proj"][s["key"]]
    p = file(base, s["sh"], s["typ"], key)
    kw = {}
    if s["key"]:
        kw["key_path"] = key
    if s["what"] in ("int", "many"):
        f = s["form"]
        ix = s["ix"]
        if s["what"] == "int":
            ix = ix if f == "int" else np.dtype(f).type(ix)
        else:
            if f.startswith("np"):
                ix = [np.int64(v) for v in ix]
            ix = tuple(ix) if f.endswith("tuple") else list(ix)
        kw["index"] = ix
        if s["ax"] != 0 or s["key"] == 1:
            kw["axis"] = s["ax"]
    elif s.get("ix") is not None:
        kw["index"] = s["ix"]
    out, r = call(losa.load_hdf_file, pathlib.Path(p) if s["key"] == 2 else p, **kw)
    e = dict(op=s["what"], out=out, sh=list(s["sh"]), ax=s["ax"])
    if s["what"] in ("int", "many"):
        e["ix"] = s["ix"]
    if out == "ok":
        r = np.asarray(r)
        v = np.asarray(r, dtype=np.float64).ravel()
        e.update(oshape=list(r.shape), vals=[int(x) if x == int(x) else -1 for x in v])
        if r.ndim == 3 and r.dtype != np.float32 or (s["what"] == "two" and str(r.dtype) != s["typ"]):
            e["vals"] = [-2]
    return e


def tree(s, base):
    import random
    rng = random.Random(s["seed"])
    p = os.path.join(base, "f.nxs")
    names = ["a", "b", "data", "entry", "x1", "energy", "data_2", "Z", "sub a"]
    ids = {}
    with h5py.File(p, "w") as h:
        for i in range(rng.randint(0, 7)):
            path = "/".join(rng.choice(names) for _ in range(rng.choice([1, 2, 2, 3, 3, 4])))
            try:
                if rng.random() < .2:
                    h.create_group(path)
                else:
                    if rng.random() < .5 and not path.endswith("data"):
                        path += "/data"
                    n = 2 + len(ids)
                    if rng.random() < (.85 if path.endswith("data") else .7):
                        h.create_dataset(path, data=np.full((n, 3), n, dtype=rng.choice(["float32", "uint8", "int16"])))
                    else:
                        h.create_dataset(path, data=rng.choice([1.5, [1, 2, 3][:1 + n % 3], "text"]))
                    ids[path] = n
            except (ValueError, RuntimeError, TypeError, OSError, KeyError):
                pass
        objs = []

        def visit(k, o):
            objs.append((k, o))
        h.visititems(visit)
        lst = []
        for k, o in objs:
            d = isinstance(o, h5py.Dataset)
            lst.append(dict(k=k, d=1 if d else 0, id="%s %s" % (o.shape, o.dtype) if d else "None None", n=ids.get(k, 0)))
    arg = pathlib.Path(p) if s["path"] else p
    evs = []
    # automatic key
    out, r = call(losa.load_hdf_file, arg)
    two = {q["k"]: q for q in lst}
    e = dict(op="auto", out=out, tree=[dict(k=q["k"], d=q["d"], id=str(q["n"]), img=int(q["id"].startswith("(%d, 3)" % q["n"]))) for q in lst], id="")
    if out == "ok":
        r = np.asarray(r)
        e["id"] = str(int(r.flat[0])) if r.ndim == 2 and (r == r.flat[0]).all() and r.shape[0] == r.flat[0] else "?"
    evs.append(e)
    strip = lambda k: k[1:] if k.startswith("/") else k

    import contextlib, io
    show = [s["seed"] % 3 == 0, s["seed"] % 5 < 2]
    text = [io.StringIO(), io.StringIO()]

    def both():
        with contextlib.redirect_stdout(text[0]):
            a = losa.get_hdf_information(arg, **(dict(display=True) if show[0] else {}))
        with contextlib.redirect_stdout(text[1]):
            return a, losa.find_hdf_key(arg, s["pat"], display=show[1])
    out, r = call(both)
    e = dict(op="info", out=out, tree=[dict(k=q["k"], d=q["d"], id=q["id"]) for q in lst], pat=s["pat"])
    if out == "ok":
        (ks, ss, ts), (fk, fs, ft) = r
        e.update(keys=[strip(k) for k in ks], ids=["%s %s" % q for q in zip(ss, ts)], found=[strip(k) for k in fk], fids=["%s %s" % q for q in zip(fs, ft)])
        # printed: one line per entry that names the key, the shape and the type
        said = [t.getvalue().splitlines() for t in text]
        lines = [sum(any(l.startswith(str(k)) and str(sh) in l[len(k):] and str(ty) in l[len(k):] for l in said[i]) for k, sh, ty in zip(*r[i])) for i in (0, 1)]
        e.update(show=[int(v) for v in show], said=[len(v) for v in said], lines=lines)
    evs.append(e)
    # the object behind a key
    ds = [q for q in lst if q["d"] == 1 and q["n"] and q["id"].startswith("(%d, 3)" % q["n"])]
    if ds:
        q = ds[s["seed"] % len(ds)]

        def obj():
            o = losa.load_hdf_object(arg, q["k"])
            r = o[()]
            o.file.close()
            return r
        out, r = call(obj)
        e = dict(op="auto", out=out, tree=[dict(k="g", d=0, id="0"), dict(k="g/data", d=1, id=str(q["n"]), img=1)], id="")
        if out == "ok":
            e["id"] = str(int(np.asarray(r).flat[0])) if np.asarray(r).shape == (q["n"], 3) else "?"
        evs.append(e)
    return evs


def reject(s, base):
    how = s["how"]
    p = os.path.join(base, "r.hdf")
    with h5py.File(p, "w") as h:
        h.create_dataset("entry/data", data=np.ones({"1d": (4,), "4d": (2, 2, 2, 2), "scalar": ()}.get(how, (3, 3))))
    fn, args = losa.load_hdf_file, (p,)
    if how == "key":
        args = (p, "entry/no")
    elif how == "file":
        args = (os.path.join(base, "none.hdf"),)
    elif how == "obj-key":
        fn, args = losa.load_hdf_object, (p, "entry/dat")
    elif how == "obj-file":
        fn, args = losa.load_hdf_object, (os.path.join(base, "none.hdf"), "entry/data")
    elif how == "not-hdf":
        with open(p, "w") as f:
            f.write("text")
    out, _ = call(fn, *args)
    return dict(op="reject", out=out)


def corrupt(e):
    if e["op"] == "reject":
        return dict(e, out="ok")
    if e["out"] != "ok":
        return None
    if e["op"] == "auto":
        return dict(e, id=e["id"] + "7")
    if e["op"] == "info":
        return dict(e, keys=e["keys"] + ["nokey"], ids=e["ids"] + ["None None"])
    return dict(e, vals=e["vals"][:-1] + [e["vals"][-1] + 1])

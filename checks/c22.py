"""C22: histories of saving and loading in a directory."""
import contextlib
import hashlib
import os
import pathlib
import shutil
import tempfile
import numpy as np
from vp import call
import discorpy.losa.loadersaver as losa

ID = "C22"
MC = [("MC_Store", "MC_Store.cfg")]
TRACE = ("T_Store", "T.cfg")
EXT = dict(image=[".tif", ".tiff", ".png", ".TIF", ".bmp"], plot=[".png", ".jpg"], residual=[".png"], points=[".png"],
           hdf=[".hdf", ".h5", ".nxs", ".hdf5", "", ".tif", ".H5", ".v2"], stream=[".hdf", ".nxs", "", ".dat", ".HDF"], txt=[".txt", ".dat", "", ".json", ".TXT", ".c1"],
           json=[".json", "", ".txt", ".JSON"], pkl=[".pkl", "", ".list", ".PKL"])
KINDS = list(EXT)


def scenarios(ctx, model):
    rng = ctx.rng
    out = []
    ms = model["MC_Store"]
    rng.shuffle(ms)
    for m in ms[:ctx.pick(200, 700)]:
        out.append(dict(steps=[dict(q, dir="", form=0, data=1 + i) for i, q in enumerate(m)]))
    for n in range(ctx.pick(300, 1500)):
        steps = []
        kinds = rng.sample(KINDS, 2)
        exts = {k: rng.sample(EXT[k], min(2, len(EXT[k]))) for k in kinds}
        stems = rng.choice([["a", "a_0000"], ["a", "b"], ["x.1", "x.2"], ["run", "run_0001"], ["d e", "d"], ["a_0000", "a_0000_0000"], [".a", "a"]])
        dirs = rng.choice([[""], ["", "sub/"], ["new/deep/", "new/"]])
        for i in range(rng.randint(3, 9)):
            r = rng.random()
            k = rng.choice(kinds)
            s = dict(kind=k, stem=rng.choice(stems), ext=rng.choice(exts[k]), dir=rng.choice(dirs), form=rng.randrange(5), data=1 + rng.randrange(9), ow=rng.random() < .35)
            if r < .62:
                s["act"] = "save"
            elif r < .66:
                s["act"] = "put"
            elif r < .69:
                s["act"] = "mkdir"
                s["stem"] += rng.choice(["", "", "_0000", "_0001"])
            elif r < .73:
                s["act"] = "del"
            elif r < .84:
                s["act"] = "load"
            elif r < .94:
                s["act"] = "find"
                s["pat"] = rng.choice(["*", "*" + s["ext"], s["stem"] + "*", s["stem"] + "_*", "?" + s["ext"], "*_000?.*", "nothing*", s["stem"] + s["ext"], "*.h*", "[ab]*"[4:] or "*"])
            else:
                s.update(act="bad", what=rng.choice(["ext", "stream-child", "json", "pkl", "parent-is-file", "load-image", "load-json"]))
            steps.append(s)
        out.append(dict(steps=steps))
    for n in range(ctx.pick(6, 30)):
        # hidden files are files too
        k = rng.choice(KINDS)
        b = dict(kind=k, ext=EXT[k][0], dir=rng.choice(["", "sub/"]), form=rng.randrange(5), ow=False)
        out.append(dict(steps=[dict(b, act="save", stem=st, data=1 + i) for i, st in enumerate([".h", "h", ".h"])]
                        + [dict(b, act="find", stem="h", data=1, pat=q) for q in ("*", "*" + EXT[k][0], ".*")]))
    for n in range(ctx.pick(1, 4)):
        # more files than one digit can number
        out.append(dict(steps=[dict(act="save", kind="txt", stem="m", ext=".txt", dir="", form=0, data=1 + i % 9, ow=False) for i in range(14)]))
        for k, top in (("txt", 112), ("image", 203), ("hdf", 1003)):
            # many files are there already
            f = dict(act="fill", kind=k, stem="m", ext=EXT[k][0], dir="", form=0, data=1, ow=False, top=top)
            out.append(dict(steps=[f] + [dict(f, act="save", data=1 + i) for i in range(3)]))
    return out


def lines(d):
    return [np.array([[5.0 + d, 3.0], [6.0, 20.0 + d], [7.0, 30.0]])]


def save(s, path, root):
    d, k, ow = s["data"], s["kind"], s["ow"]
    kw = {} if (ow and d % 2) else dict(overwrite=ow)      # overwriting is the default
    if k == "image":
        m = (np.arange(60, dtype=np.float32).reshape(6, 10) * (1 if s["ext"].lower().startswith(".tif") else 4.0))
        if d % 3 == 0:
            m = m.astype("uint8")
        m[0, 0], m[0, 1] = (0, 255) if not s["ext"].lower().startswith(".tif") else (0, 1)
        m[3, 3] = 20 * d
        return losa.save_image(path, m, **kw)
    if k == "plot":
        return losa.save_plot_image(path, lines(d), 40, 40 + 8 * d, **kw)
    if k == "points":
        return losa.save_plot_points(path, lines(d)[0], 40, 40 + 8 * d, **kw)
    if k == "residual":
        return losa.save_residual_plot(path, np.array([[1.0, .1], [2.0, .3]]), 200, 240 + 8 * d, **kw)
    if k == "hdf":
        return losa.save_hdf_file(path, np.full((3, 4), float(d)), **kw, **(dict(key_path=["", "a", "zz"][d % 3]) if d % 3 else {}))
    if k == "stream":
        st = losa.open_hdf_stream(path, (2, 3, 4), **kw)
        st[0] = d
        st[1] = d + 1
        name = st.file.filename
        st.file.close()
        return name
    if k == "txt":
        return losa.save_metadata_txt(path, d + .5, 2.25, [1.0, d * 1e-5], **kw)
    if k == "json":
        return losa.save_metadata_json(path, d + .5, np.float32(2.25), np.array([1.0, d * 1e-5]), **kw)
    return losa.save_python_list(path, [d, (1, 2), np.arange(3)], **kw)


def identify(kind, name):
    """which data does the file hold, seen through the loaders"""
    try:
        if kind == "image":
            return int(round(float(losa.load_image(name)[3, 3]) / 20))
        if kind in ("plot", "points"):
            return int(round((losa.load_image(name).shape[1] - 40) / 8))
        if kind == "residual":
            return 0 if min(losa.load_image(name).shape) < 50 else -1
        if kind == "hdf":
            m = losa.load_hdf_file(name)
            return int(m[1, 1]) if m.shape == (3, 4) and m.min() == m.max() else 99
        if kind == "stream":
            m = losa.load_hdf_file(name, "entry/data")
            return int(m[0, 0, 0]) if m.shape == (2, 3, 4) and (m[0] == m[0, 0, 0]).all() and (m[1] == m[0, 0, 0] + 1).all() else 99
        if kind == "txt":
            x, y, f = losa.load_metadata_txt(name)
            return int(x) if (y, f) == (2.25, [1.0, (x - .5) * 1e-5]) else 99
        if kind == "json":
            x, y, f = losa.load_metadata_json(name)
            return int(x) if (y, list(f)) == (2.25, [1.0, (x - .5) * 1e-5]) else 99
        return int(losa.load_python_list(name)[0])
    except Exception:
        return 98


def rel(p, root):
    p = os.path.normpath(os.path.join(root, str(p)))
    return os.path.relpath(p, root) if p.startswith(root + os.sep) else "outside:" + p


def ls(root):
    out = []
    for b, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(b, f)
            out.append(dict(n=os.path.relpath(p, root), c=int(hashlib.md5(open(p, "rb").read()).hexdigest()[:7], 16)))
    return sorted(out, key=lambda q: q["n"])


def execute(s):
    root = os.path.realpath(tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"]))
    cwd = os.getcwd()
    os.chdir(root)
    try:
        kinds = {}
        res = [step(q, root, kinds) for q in s["steps"]]
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    return dict(op="hist", steps=res)


def step(s, root, kinds):
    base = s["dir"] + s["stem"]
    name = base + s["ext"]
    ab = os.path.join(root, name)
    path = [name, ab, pathlib.Path(ab), "./" + name, os.path.join(root, "zz", "..", name)][s["form"]]
    if s["form"] == 4:
        os.makedirs(os.path.join(root, "zz"), exist_ok=True)
    e = dict(act=s["act"], out="ok")
    a = s["act"]
    if a == "save":
        b0, x0 = os.path.splitext(name)
        e.update(kind=s["kind"], base=b0, ext=x0, ow=s["ow"], data=s["data"], ret="", got=-2)
        e["out"], r = call(save, s, path, root)
        if e["out"] == "ok":
            e["ret"] = rel(r, root)
            g = identify(s["kind"], os.path.join(root, e["ret"])) if not e["ret"].startswith("outside:") else 97
            e["got"] = s["data"] if s["kind"] == "residual" and g == -1 else g
            kinds[e["ret"]] = s["kind"]
    elif a == "fill":
        e.update(act="note", name="")
        for n in [name] + [base + "_%04d" % i + s["ext"] for i in range(s["top"])]:
            with open(os.path.join(root, n), "wb") as f:
                f.write(n.encode())
    elif a in ("put", "del"):
        e["name"] = name
        if a == "put" and os.path.isdir(ab):
            e["act"] = "note"
        elif a == "put":
            os.makedirs(os.path.dirname(ab), exist_ok=True)
            with open(ab, "wb") as f:
                f.write(b"somebody else's %d" % s["data"])
            kinds.pop(name, None)
        elif os.path.isfile(ab):
            os.remove(ab)
    elif a == "mkdir":
        # a directory takes the name
        e["name"] = name
        if name and not os.path.lexists(ab) and s["ext"]:
            os.makedirs(ab)
            open(os.path.join(ab, "keep"), "wb").close()
            kinds.pop(name, None)
    elif a == "load":
        n = sorted(kinds)[s["data"] % len(kinds)] if kinds and s["data"] < 7 else name
        k = kinds.get(n, s["kind"])
        f = dict(image=losa.load_image, plot=losa.load_image, residual=losa.load_image, points=losa.load_image, hdf=losa.load_hdf_file, stream=losa.load_hdf_file,
                 txt=losa.load_metadata_txt, json=losa.load_metadata_json, pkl=losa.load_python_list)[k]
        e.update(name=n, got=-2)
        e["out"], r = call(f, os.path.join(root, n))
        r = None
        if e["out"] == "ok":
            g = identify(k, os.path.join(root, n))
            e["got"] = g
            if k == "residual":
                return skip(e, root)
    elif a == "find":
        d = os.path.join(root, s["dir"])
        e.update(pat=s["pat"], entries=sorted(os.listdir(d)) if os.path.isdir(d) else [], got=[])
        arg = os.path.join(root, s["dir"] + s["pat"]) if s["form"] % 2 else s["dir"] + s["pat"]
        e["out"], r = call(losa.find_file, arg if s["form"] else pathlib.Path(arg))
        if e["out"] == "ok":
            e["got"] = [os.path.basename(q) if rel(q, root) == os.path.normpath(s["dir"] + os.path.basename(q)) else "elsewhere:" + q for q in r]
    else:
        e["out"] = bad(s, path, ab, root, base)
    e["ls"] = ls(root)
    e["dirs"] = taken(root)
    return e


def taken(root):
    return sorted(os.path.relpath(b, root) for b, _, fs in os.walk(root) if "keep" in fs)


def skip(e, root):
    return dict(act="note", out="ok", name="", ls=ls(root), dirs=taken(root))


def bad(s, path, ab, root, base):
    w = s["what"]
    kw = dict(overwrite=s["ow"])
    if w == "ext":
        return call(losa.save_image, base + ".xyz", np.ones((4, 4)), **kw)[0]
    if w == "stream-child":
        return call(losa.open_hdf_stream, base + ".hdf", (2, 2), key_path="entry/data", options={"entry/data/sub": 1}, **kw)[0]
    if w == "json":
        return call(losa.save_metadata_json, base + ".json", 1, 2, [1.0, {1, 2}], **kw)[0]
    if w == "pkl":
        return call(losa.save_python_list, base + ".pkl", [lambda x: x], **kw)[0]
    if w == "parent-is-file":
        f = [q["n"] for q in ls(root)]
        if not f:
            return "raise:nothing"
        return call(losa.save_metadata_txt, os.path.join(root, f[0], "z.txt"), 1, 2, [1.0])[0]
    if w == "load-image":
        return call(losa.load_image, base + ".nosuch")[0]
    return call(losa.load_metadata_json, base + ".nosuch")[0]


def corrupt(e):
    for s in e["steps"]:
        if s["act"] == "save":
            s["ret"] = "wrong"
            return e
    return None

"""C27: the library has no memory: arguments and settings stay, results repeat."""
import copy
import faulthandler
import hashlib
import json
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings
import numpy as np
import cv2  # sets environment variables when first imported
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from vp import Hang
import discorpy.losa.loadersaver as losa
import discorpy.post.postprocessing as post
import discorpy.prep.linepattern as lprep
import discorpy.prep.preprocessing as prep
import discorpy.proc.processing as proc
import discorpy.util.utility as util

ID = "C27"
MC = [("MC_Pure", "MC_Pure.cfg")]
TRACE = ("T_Pure", "T.cfg")
ASSUMPTIONS = ["Settings watched: random generators of Python and numpy, numpy error and print settings, warning filters, matplotlib settings and open figures, working directory and its files, environment variables.",
               "Every history and every reference call runs in a forked process that has called nothing of the library before.",
               "Functions drawing plots are not run in threads."]
R = {}


def reg(fn, plot=False):
    def deco(build):
        R[build.__name__] = (fn, build, plot)
        return build
    return deco


# ------------------------------------------------------------- material
def grid(g, rows=7, cols=8, d=40.0, k=2e-7, persp=1):
    xc, yc = 200.0 + g.uniform(-5, 5), 170.0 + g.uniform(-5, 5)
    hor = []
    for i in range(rows):
        l = []
        for j in range(cols):
            y, x = 40 + d * i, 45 + d * j
            p = 1 + persp * 1e-4 * (x - xc) + persp * 1.2e-4 * (y - yc)
            x, y = xc + (x - xc) / p, yc + (y - yc) / p
            r2 = (x - xc) ** 2 + (y - yc) ** 2
            l.append([yc + (y - yc) * (1 + k * r2), xc + (x - xc) * (1 + k * r2)])
        hor.append(np.array(l))
    full = list(hor)
    ver = [np.array([full[i][j] for i in range(rows)]) for j in range(cols)]
    if g.integers(2):       # lines of different lengths
        hor = [l[int(i % 3 == 1):len(l) - int(i % 4 == 0)] for i, l in enumerate(hor)]
        ver = [l[int(i % 4 == 1):len(l) - int(i % 3 == 0)] for i, l in enumerate(ver)]
    return hor, ver, xc, yc


def flatgrid(g):
    return grid(g, persp=0)


def fact(g):
    return [1.0, float(g.uniform(-1e-4, 1e-4)), float(g.uniform(-1e-6, 1e-6))]


def img(g, h=24, w=30):
    return g.uniform(0, 100, (h, w)).astype(["float32", "float64"][int(g.integers(2))])


def dots(g):
    m = util.make_dot_pattern(int(g.integers(140, 180)), int(g.integers(150, 190)), 20, 7, 10)
    return np.float32(1 - m)


def lines_img(g):
    return np.float32(util.make_line_pattern(220, 240, 30, 3, 15) + 0.01 * g.normal(size=(220, 240)))


def stack(g):
    return g.uniform(0, 9, (4, 20, 24)).astype("float32")


def order(g):
    return [list, np.array][int(g.integers(2))]


# ---------------------------------------------------------- post
@reg(post.unwarp_line_forward)
def a1(g):
    h, v, x, y = flatgrid(g)
    return (h, x, y, fact(g)), {}
@reg(post.unwarp_line_backward)
def a2(g):
    h, v, x, y = flatgrid(g)
    return (h[:2], x, y, [1.0, 1e-5, 2e-7]), {}
@reg(post.unwarp_image_backward)
def a3(g):
    return (img(g), 14.2, 11.5, order(g)(fact(g))), dict(order=int(g.integers(0, 4)), mode=["reflect", "constant"][int(g.integers(2))])
@reg(post.unwarp_image_forward)
def a4(g):
    return (img(g), 14.2, 11.5, fact(g)), {}
@reg(post.unwarp_slice_backward)
def a5(g):
    return (stack(g), 12.5, 9.5, fact(g), int(g.integers(20))), {}
@reg(post.unwarp_chunk_slices_backward)
def a6(g):
    return (stack(g), 12.5, 9.5, fact(g), 3, 9), {}
@reg(post.calc_residual_hor)
def a7(g):
    h, v, x, y = grid(g)
    return (h, x, y), {}
@reg(post.calc_residual_ver)
def a8(g):
    h, v, x, y = grid(g)
    return (v, x, y), {}
@reg(post.check_distortion)
def a9(g):
    return (g.uniform(0, 2, (30, 2)),), {}
@reg(post.correct_perspective_line)
def a10(g):
    h, v, x, y = grid(g)
    return (h, order(g)([1.01, .02, 3.0, -.01, .99, 1.0, 1e-5, 2e-5])), {}
@reg(post.correct_perspective_image)
def a11(g):
    return (img(g), order(g)([1.01, .02, 3.0, -.01, .99, 1.0, 1e-5, 2e-5])), dict(order=1)
@reg(post.correct_perspective_image)
def a12(g):
    m = g.uniform(0, 20, (24, 30)), g.uniform(0, 20, (24, 30))
    return (img(g), [1.0] * 8), dict(map_index=np.asarray([m[0].reshape(-1, 1), m[1].reshape(-1, 1)]))


# ---------------------------------------------------------- proc
@reg(proc.find_cod_coarse)
def b1(g):
    h, v, x, y = flatgrid(g)
    return (h, v), {}
@reg(proc.find_cod_fine)
def b2(g):
    h, v, x, y = grid(g, 5, 4, persp=0)
    return (h, v, x + .6, y - .4, 3), {}
@reg(proc.calc_coef_backward)
def b3(g):
    h, v, x, y = flatgrid(g)
    return (h, v, x, y, 4), dict(optimizing=bool(g.integers(2)), threshold=.3)
@reg(proc.calc_coef_forward)
def b4(g):
    h, v, x, y = flatgrid(g)
    return (h, v, x, y, 4), {}
@reg(proc.calc_coef_backward_from_forward)
def b5(g):
    h, v, x, y = flatgrid(g)
    return (h, v, x, y, 4), {}
@reg(proc.transform_coef_backward_and_forward)
def b6(g):
    return (order(g)([1.0, 1e-5, 2e-7]),), {} if g.integers(2) else dict(mapping="forward", ref_points=[[i - 100, j - 120] for i in range(0, 200, 20) for j in range(0, 240, 20)])
@reg(proc.find_cod_bailey)
def b7(g):
    h, v, x, y = flatgrid(g)
    return (h, v), {}
@reg(proc.regenerate_grid_points_parabola)
def b8(g):
    h, v, x, y = grid(g)
    return (h, v), dict(perspective=bool(g.integers(2)))
@reg(proc.regenerate_grid_points_linear)
def b9(g):
    h, v, x, y = grid(g, k=0)
    return (h, v), {}
@reg(proc.generate_undistorted_perspective_lines)
def b10(g):
    h, v, x, y = grid(g, k=0)
    return (h, v), dict(equal_dist=bool(g.integers(2)), scale=["mean", "median", "min", "max", 1.2][int(g.integers(5))], optimizing=False)
@reg(proc.generate_source_target_perspective_points)
def b11(g):
    h, v, x, y = grid(g, k=0)
    return (h, v), dict(equal_dist=bool(g.integers(2)))
@reg(proc.generate_4_source_target_perspective_points)
def b12(g):
    p = [[10., 12.], [14., 90.], [80., 95.], [77., 8.]]
    return ([p, np.array(p)][int(g.integers(2))],), dict(input_order=["xy", "yx"][int(g.integers(2))], equal_dist=bool(g.integers(2)))
@reg(proc.calc_perspective_coefficients)
def b13(g):
    p = [[10., 12.], [14., 90.], [80., 95.], [77., 8.]]
    q = [[10., 10.], [10., 90.], [80., 90.], [80., 10.]]
    return (np.array(p), q), dict(mapping=["backward", "forward"][int(g.integers(2))])
@reg(proc.update_center)
def b14(g):
    h, v, x, y = grid(g)
    return (h, x, y), {}
@reg(proc.correct_perspective_effect)
def b15(g):
    h, v, x, y = grid(g)
    return (h, v, x, y), dict(method=["mean", "median"][int(g.integers(2))]) if g.integers(2) else {}
@reg(proc.find_center_based_vanishing_points)
def b16(g):
    h, v, x, y = grid(g)
    return (h, v), {}
@reg(proc.find_center_based_vanishing_points_iteration)
def b17(g):
    h, v, x, y = grid(g)
    return (h, v), dict(iteration=2)


# ---------------------------------------------------------- prep
@reg(prep.normalization)
def c1(g):
    return (img(g) + 1,), dict(size=5)
@reg(prep.normalization_fft)
def c2(g):
    return (img(g) + 1,), dict(sigma=5, pad=[8, 0][int(g.integers(2))])
@reg(prep.binarization)
def c3(g):
    return ([100, -160, -25][int(g.integers(3))] + 50 * dots(g) + g.uniform(0, 5),), dict(ratio=.5, denoise=bool(g.integers(2)), thres=[None, None][int(g.integers(2))])
@reg(prep.check_num_dots)
def c4(g):
    return (dots(g),), {}
@reg(prep.calc_size_distance)
def c5(g):
    return (dots(g),), dict(ratio=.9)
@reg(prep.select_dots_based_size)
def c6(g):
    return (dots(g), 37.0), dict(ratio=.4)
@reg(prep.select_dots_based_ratio)
def c7(g):
    return (dots(g),), dict(ratio=.4)
@reg(prep.select_dots_based_distance)
def c8(g):
    return (dots(g), 20.0), dict(ratio=.4)
@reg(prep.calc_hor_slope)
def c9(g):
    return (dots(g),), dict(ratio=.9)
@reg(prep.calc_ver_slope)
def c10(g):
    return (dots(g),), dict(ratio=.9)
@reg(prep.group_dots_hor_lines)
def c11(g):
    h, v, x, y = grid(g)
    return (np.concatenate(h) if g.integers(2) else dots(g), 0.0, [40.0, 20.0][0]), dict(ratio=.3)
@reg(prep.group_dots_ver_lines)
def c12(g):
    h, v, x, y = grid(g)
    return (np.concatenate(v), 0.0, 40.0), dict(ratio=.3, num_dot_miss=3, accepted_ratio=.6)
@reg(prep.remove_residual_dots_hor)
def c13(g):
    h, v, x, y = grid(g)
    return (h, 0.0), dict(residual=.5)
@reg(prep.remove_residual_dots_ver)
def c14(g):
    h, v, x, y = grid(g)
    return (v, 0.0), dict(residual=.5)
@reg(prep.calculate_threshold)
def c15(g):
    return (100 - 50 * dots(g) + g.normal(size=(1, 1)),), dict(bgr=["bright", "dark"][int(g.integers(2))])
@reg(prep.make_parabola_mask)
def c16(g):
    return (60, 70), dict(hor_margin=(5, 6), ver_margin=[4, 9], rotate=float(g.integers(0, 20)))
@reg(prep.remove_points_using_parabola_mask)
def c17(g):
    return (g.uniform(0, 60, (40, 2)), 60, 70), dict(hor_margin=5, ver_margin=[4, 9])
@reg(prep.get_points_dot_pattern)
def c18(g):
    return (dots(g),), dict(binarize=bool(g.integers(2)), ratio=.6)
@reg(prep.rotate_points)
def c19(g):
    return (g.uniform(0, 60, (10, 2)), 20.0), {}
@reg(prep.remove_subset_points)
def c20(g):
    p = g.integers(0, 5, (20, 2))
    return (p[:6], p), {}
@reg(prep.group_dots_hor_lines_based_polyfit)
def c21(g):
    h, v, x, y = grid(g)
    p = np.concatenate(h)
    g.shuffle(p)
    return (p, 0.0, 40.0), dict(ratio=.2, num_dot_miss=3)
@reg(prep.group_dots_ver_lines_based_polyfit)
def c22(g):
    h, v, x, y = grid(g)
    return (np.concatenate(v), 0.0, 40.0), dict(ratio=.2, num_dot_miss=3)


# ---------------------------------------------------------- line patterns
def prof(g):
    x = np.arange(120)
    p = -np.exp(-((x % 30) - 15.2) ** 2 / 6) + .01 * g.normal(size=120)
    return p if g.integers(2) else (1000 * p).astype("int32")
@reg(lprep.locate_subpixel_point)
def d1(g):
    return (g.uniform(0, 5, 7),), dict(option=["min", "max"][int(g.integers(2))])
@reg(lprep.sliding_window_slope)
def d2(g):
    return (prof(g),), dict(size=5, norm=bool(g.integers(2)))
@reg(lprep.get_local_extrema_points)
def d3(g):
    return (prof(g),), dict(radius=5, denoise=bool(g.integers(2)), norm=bool(g.integers(2)), subpixel=bool(g.integers(2)))
@reg(lprep.select_good_peaks)
def d4(g):
    return (prof(g), np.array([15, 45, 75, 105])), dict(radius=7)
@reg(lprep.calc_slope_distance_hor_lines)
def d5(g):
    return (lines_img(g),), dict(ratio=.6, search_range=4.0, radius=7)
@reg(lprep.calc_slope_distance_ver_lines)
def d6(g):
    return (lines_img(g),), dict(ratio=.6, search_range=4.0, radius=7)
@reg(lprep.get_tilted_profile)
def d7(g):
    return (img(g), 12, float(g.integers(-6, 6)), ["horizontal", "vertical"][int(g.integers(2))]), {}
@reg(lprep.convert_chessboard_to_linepattern)
def d8(g):
    return (util.make_chessboard(180, 200, 25, 10),), dict(smooth=bool(g.integers(2)), bgr=["bright", "dark"][int(g.integers(2))], sigma=[3, 0][int(g.integers(2))])
@reg(lprep.get_cross_points_hor_lines)
def d9(g):
    return (lines_img(g), 0.0, 30.0), dict(ratio=.4, offset=40, bgr="bright", radius=7)
@reg(lprep.get_cross_points_ver_lines)
def d10(g):
    return (lines_img(g), 0.0, 30.0), dict(ratio=.4, offset=40, bgr="bright", radius=7)


# ---------------------------------------------------------- util
@reg(util.make_circle_mask)
def e1(g):
    return (31, .9), {}
@reg(util.make_dot_pattern)
def e2(g):
    return (80, 90, 15, 5), dict(margin=[5, 7])
@reg(util.make_line_pattern)
def e3(g):
    return (80, 90, 15, 5), dict(margin=[5, 7])
@reg(util.make_chessboard)
def e4(g):
    return (80, 90, 15, 5), {}
@reg(util.find_point_to_point)
def e5(g):
    return ([3.0, 4.5], 20.0, 30.0, order(g)(fact(g))), dict(output_order=["xy", "yx"][int(g.integers(2))])
@reg(util.unwarp_color_image_backward)
def e6(g):
    return (g.integers(0, 255, (20, 24, 3)).astype("uint8"), 12.0, 10.0, [1.0, -2e-3]), dict(pad=[True, False, 3, [1, 2, 3, 4]][int(g.integers(4))])
@reg(util.unwarp_image_backward_cv2)
def e7(g):
    return (g.integers(0, 255, (20, 24, 3)).astype("uint8"), 12.0, 10.0, [1.0, -2e-3]), dict(pad=[True, False, 3, [1, 2, 3, 4]][int(g.integers(4))])


# ---------------------------------------------------------- losa (in a folder of their own)
def folder():
    d = tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"], prefix="purefile")
    return d
def trip(save, load, name, *a, **kw):
    d = folder()
    try:
        p = save(os.path.join(d, name), *a, **kw)
        return load(p) if load else os.path.relpath(str(p), d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
def f_image(m, ext):
    return trip(losa.save_image, losa.load_image, "i" + ext, m)
def f_plot(l):
    return trip(losa.save_plot_image, losa.load_image, "p.png", l, 60, 70)
def f_resid(l):
    return trip(losa.save_residual_plot, losa.load_image, "r.png", l, 200, 220)
def f_points(l):
    return trip(losa.save_plot_points, losa.load_image, "q.png", l, 60, 70)
def f_hdf(m):
    return trip(losa.save_hdf_file, losa.load_hdf_file, "h.hdf", m)
def f_txt(x, y, f):
    return trip(losa.save_metadata_txt, losa.load_metadata_txt, "t.txt", x, y, f)
def f_json(x, y, f):
    return trip(losa.save_metadata_json, losa.load_metadata_json, "t.json", x, y, f)
def f_list(o):
    return trip(losa.save_python_list, losa.load_python_list, "t.pkl", o)
def f_stream(opts):
    def load(ds):
        n = ds.file.filename
        ds[0] = 3
        ds.file.close()
        return losa.load_hdf_file(n, "entry/data"), [k for k in losa.get_hdf_information(n)[0]]
    return trip(losa.open_hdf_stream, load, "s.hdf", (2, 3, 4), options=opts)
@reg(f_image)
def f1(g):
    return (img(g), [".tif", ".png"][int(g.integers(2))]), {}
@reg(f_plot, True)
def f2(g):
    return ([g.uniform(0, 50, (5, 2)) for _ in range(3)],), {}
@reg(f_resid, True)
def f3(g):
    return (g.uniform(0, 50, (5, 2)),), {}
@reg(f_points, True)
def f4(g):
    return (g.uniform(0, 50, (5, 2)),), {}
@reg(f_hdf)
def f5(g):
    return (img(g),), {}
@reg(f_txt)
def f6(g):
    return (1.5, 2.5, order(g)(fact(g))), {}
@reg(f_json)
def f7(g):
    return (1.5, 2.5, order(g)(fact(g))), {}
@reg(f_list)
def f8(g):
    return ([1, [2, img(g)], (3,)],), {}
@reg(f_stream)
def f9(g):
    return ({"energy": 25.0, "scan/angles": g.uniform(0, 1, 4)},), {}


# ------------------------------------------------------------------ driving
def scenarios(ctx, model):
    rng = ctx.rng
    words = [m["word"] for m in model["MC_Pure"]]
    rng.shuffle(words)
    names = sorted(R)
    out = []
    pool = []
    for w in (words * 3)[:ctx.pick(150, 700)]:
        pick = {}
        for i in set(w):
            if not pool:
                pool = list(names)
                rng.shuffle(pool)
            pick[i] = [pool.pop(), rng.randrange(12), rng.randrange(3)]
        out.append(dict(mode="seq", calls=[pick[i] for i in w], spoil=rng.randrange(2)))
    calm = [n for n in names if not R[n][2]]
    # sister calls: the same function with one argument slightly changed, in place or in a new object
    pool = []
    for w in (words[::-1] * 3)[:ctx.pick(160, 1500)]:
        if not pool:
            pool = list(names)
            rng.shuffle(pool)
        nm, sd = pool.pop(), rng.randrange(12)
        kin = [0] + [rng.randrange(1, 10 ** 6) for _ in range(4)]
        ids = sorted(set(w))
        out.append(dict(mode="seq", calls=[[nm, sd, 0, kin[ids.index(i)]] for i in w], same=rng.randrange(2)))
    for nm in names * ctx.pick(1, 5):
        # a crowd of sisters
        sd = rng.sample(range(12), 3)
        cs = [[nm, sd[0], 0, 0]] + [[nm, sd[i % 3], 0, rng.randrange(1, 10 ** 6)] for i in range(ctx.pick(6, 12))] + [[nm, sd[0], 0, 0]]
        out.append(dict(mode="seq", calls=cs, spoil=rng.randrange(2)))
    for nm in calm * ctx.pick(1, 5):
        out.append(dict(mode="threads", calls=[[nm, rng.randrange(3), 0] for _ in range(3)] * 2))
    for n in range(ctx.pick(25, 120)):
        ids = [[rng.choice(calm), rng.randrange(3), rng.randrange(3)] for _ in range(3)]
        if n % 2:
            ids = [ids[0], ids[0][:1] + [(ids[0][1] + 1) % 3, ids[0][2]], ids[1]]     # one function, two sets of arguments
        out.append(dict(mode="threads", calls=ids + ids))
    return out


def feed(h, o):
    if isinstance(o, np.ndarray):
        h.update(("A%s%s" % (o.shape, o.dtype)).encode())
        h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        h.update(type(o).__name__.encode())
        for x in o:
            feed(h, x)
        h.update(b")")
    elif isinstance(o, dict):
        for k in sorted(o, key=str):
            h.update(str(k).encode())
            feed(h, o[k])
        h.update(b"}")
    else:
        h.update(("%s:%r" % (type(o).__name__, o)).encode())


def digest(o):
    h = hashlib.md5()
    feed(h, o)
    return h.hexdigest()[:12]


def world(filters=True):
    s = np.random.get_state()
    return digest([repr(s[0]), s[1], list(s[2:]), repr(random.getstate()), repr(sorted(np.geterr().items())), repr(sorted(np.get_printoptions().items(), key=str)),
                   [str(f[:1] + f[2:3]) for f in warnings.filters if filters], {k: repr(v) for k, v in matplotlib.rcParams.items()}, list(plt.get_fignums()), matplotlib.get_backend(),
                   os.getcwd(), sorted(os.listdir(".")), sorted((k, v) for k, v in os.environ.items() if k != "VP_SCRATCH")])


def freeze(o):
    if isinstance(o, np.ndarray):
        o.setflags(write=False)
    elif isinstance(o, (list, tuple)):
        for x in o:
            freeze(x)
    elif isinstance(o, dict):
        for x in o.values():
            freeze(x)


def places(o, path=()):
    """where numbers sit in the arguments"""
    if isinstance(o, np.ndarray):
        return [path] if o.size and o.dtype.kind in "iuf" else []
    if isinstance(o, (list, tuple)):
        return [q for i, x in enumerate(o) for q in places(x, path + (i,))]
    if isinstance(o, dict):
        return [q for k in sorted(o, key=str) for q in places(o[k], path + (k,))]
    return [path] if isinstance(o, (int, float)) else []


def changed(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, 1, -1, 2])
    return v * (1 + rng.choice([.03, -.02, .1, 3e-4])) + (.01 if v == 0 else 0)


def vary(o, path, rng, inplace):
    if not path:
        if isinstance(o, np.ndarray):
            a = o if inplace else o.copy()
            i = rng.randrange(a.size)
            a.flat[i] = a.flat[i] + type(a.flat[i])(1) if a.dtype.kind in "iu" else changed(float(a.flat[i]), rng)
            return a
        return changed(o, rng)
    v = vary(o[path[0]], path[1:], rng, inplace)
    if isinstance(o, tuple):
        return o[:path[0]] + (v,) + o[path[0] + 1:]
    if inplace:
        o[path[0]] = v
        return o
    o = dict(o) if isinstance(o, dict) else list(o)
    o[path[0]] = v
    return o


def made(c, base=None):
    """the arguments of a call; base: objects of the unchanged call, to be changed in place"""
    name, seed = c[:2]
    full = base or R[name][1](np.random.default_rng([seed, sum(map(ord, name))]))
    if len(c) > 3 and c[3]:
        rng = random.Random(c[3])
        p = places(full)
        if p:
            top = sorted(set(q[:2] for q in p), key=str)       # any argument is as likely as another
            t = rng.choice(top)
            p = [q for q in p if q[:2] == t]
            full = vary(full, rng.choice(p), rng, base is not None)
    return full


def one(c, check_world=True, base=None, keep=None):
    name, seed, form = c[:3]
    fn = R[name][0]
    # the builder must not disturb what is watched
    args, kw = made(c, base)
    if form == 2:
        freeze((args, kw))
    a0 = digest((args, kw))
    w0 = world() if check_world else ""
    try:
        r = fn(*args, **kw)
        out = "ok"
    except Hang:
        raise
    except Exception as e:
        r, out = None, "raise:" + type(e).__name__
    w1 = world() if check_world else ""
    d = out + ":" + digest(r)
    e = dict(id=a0, out="ok", r=d, r1=d, a0=a0, a1=digest((args, kw)), w0=w0, w1=w1, call=list(c), alone="")
    if keep is not None:
        keep.append((e, out, r, (args, kw)))
    return e


def arrays(o):
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, (list, tuple)):
        return [q for x in o for q in arrays(x)]
    if isinstance(o, dict):
        return [q for x in o.values() for q in arrays(x)]
    return []


def spoil(r, full):
    """the caller writes into the arrays it was given (those that are not its own arguments)"""
    mine = arrays(full)
    for a in arrays(r):
        if a.flags.writeable and a.dtype.kind in "iuf" and not any(np.shares_memory(a, b) for b in mine):
            a[...] = 77


LOSSES = [0]


def fresh(f, *a):
    """f(*a) in a process that has called nothing of the library yet; a process that is lost is tried again"""
    for n in range(3 if LOSSES[0] < 3 else 1):
        r = fresh1(f, *a)
        if r is not None:
            return r
    LOSSES[0] += 1
    return None


def fresh1(f, *a):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_PROF, 100 if LOSSES[0] < 3 else 15)     # a busy machine is not a lost process
            signal.alarm(300 if LOSSES[0] < 3 else 30)
            if os.environ.get("VERIF_DEBUG"):
                faulthandler.dump_traceback_later(30)
            with os.fdopen(wr, "w") as p:
                json.dump(f(*a), p)
        except BaseException:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as p:
        t = p.read()
    os.waitpid(pid, 0)
    return json.loads(t) if t else None


def history(s):
    root = tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"])
    os.chdir(root)
    warnings.simplefilter("ignore")
    plt.figure()
    plt.close("all")
    try:
        if s["mode"] == "seq":
            if s.get("same"):       # the same objects, changed in place between the calls
                return inplace(s)
            keep = []
            h = []
            for c in s["calls"]:
                h.append(one(c, keep=keep))
                if s.get("spoil"):
                    spoil(keep[-1][2], keep[-1][3])
            if not s.get("spoil"):
                for e, out, r, _ in keep:       # results stay what they were
                    e["r1"] = out + ":" + digest(r)
            return h
        n = len(s["calls"]) // 2
        h = [one(c, False) for c in s["calls"][:n]]
        res = [None] * n
        sys.setswitchinterval(1e-6)
        gate = threading.Barrier(n)

        def work(i):
            gate.wait()
            got, end = [], time.monotonic() + .3
            for k in range(40):
                e = one(s["calls"][n + i], False)
                if k < 2 or (e["r"], e["a1"]) != (got[0]["r"], got[0]["a1"]):
                    got.append(e)
                if k >= 2 and (time.monotonic() > end or len(got) > 5):
                    break
            res[i] = got
        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        w0 = world(False)     # catch_warnings of Python itself is not made for threads
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
        w1 = world(False)
        for q in res:
            h += q or [dict(LOST)]
        h[-1].update(w0=w0, w1=w1)
        return h
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def inplace(s):
    h = []
    objs = made(s["calls"][0][:3])
    objs = copy.deepcopy(objs)
    keep = copy.deepcopy(objs)
    for c in s["calls"]:
        objs = restore(objs, keep)
        h.append(one(c, True, objs))
    return h


def restore(o, k):
    """bring the objects back to their first content, keeping their identity where possible"""
    if isinstance(o, np.ndarray):
        o[...] = k
        return o
    if isinstance(o, list):
        o[:] = [restore(x, y) for x, y in zip(o, k)]
        return o
    if isinstance(o, tuple):
        return tuple(restore(x, y) for x, y in zip(o, k))
    if isinstance(o, dict):
        for q in k:
            o[q] = restore(o[q], k[q])
        return o
    return k


LOST = dict(id="?", out="hang", r="", r1="", a0="", a1="", w0="", w1="", call=[], alone="")


def execute(s):
    h = fresh(history, s) or [dict(LOST)]
    seen = {}
    for q in h:
        if q["call"]:
            k = q["id"] + q["call"][0]
            if k not in seen:
                seen[k] = (fresh(history, dict(mode="seq", calls=[q["call"]])) or [dict(LOST)])[0]
            q["alone"] = seen[k]["r"]
            q["id"] = q["call"][0] + q["id"]
    return dict(h=h)


def corrupt(e):
    h = [dict(q) for q in e["h"]]
    h[-1]["a1"] += "x"
    return dict(h=h)

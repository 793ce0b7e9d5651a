"""mutate.py OUT.jsonl [-n PER_FUNCTION] [-j WORKERS] [-s SEED] [-f FUNC,...] [-m MODULE]
Systematic planting: small changes (operators, constants, names, dropped statements) are made in a
scratch copy of /repo, kept if the repository's tests still pass, and judged by the quick checks that
cover the function.  Survivors are listed for inspection (equivalent change, or a gap to close)."""
import ast, copy, json, os, random, subprocess, sys, shutil, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MODS = {"post": ("discorpy/post/postprocessing.py", "tests/test_postprocessing.py"), "proc": ("discorpy/proc/processing.py", "tests/test_processing.py"),
        "prep": ("discorpy/prep/preprocessing.py", "tests/test_preprocessing.py"), "line": ("discorpy/prep/linepattern.py", "tests/test_linepattern.py"),
        "losa": ("discorpy/losa/loadersaver.py", "tests/test_loadersaver.py"), "util": ("discorpy/util/utility.py", "tests/test_utility.py")}
COVER = {
 "unwarp_line_forward": "C05", "_func_diff": "C05", "unwarp_line_backward": "C05", "unwarp_image_backward": "C01", "unwarp_image_forward": "C04",
 "unwarp_slice_backward": "C02", "_mapping": "C02", "unwarp_chunk_slices_backward": "C02", "calc_residual_hor": "C25", "calc_residual_ver": "C25", "check_distortion": "C25",
 "correct_perspective_line": "C08", "_generate_perspective_map": "C09", "correct_perspective_image": "C09",
 "locate_subpixel_point": "C20", "__gauss_function": "C20", "_get_gauss_peak_fit": "C20", "select_good_peaks": "C20", "sliding_window_slope": "C20", "get_local_extrema_points": "C20",
 "_make_circle_mask": "C19", "calc_slope_distance_hor_lines": "C19", "calc_slope_distance_ver_lines": "C19", "_calc_index_range": "C19", "get_tilted_profile": "C19",
 "convert_chessboard_to_linepattern": "C19", "get_cross_points_hor_lines": "C19", "get_cross_points_ver_lines": "C19",
 "normalization": "C18", "_make_window": "C18", "_apply_fft_filter": "C18", "normalization_fft": "C18", "calculate_threshold": "C18",
 "_select_roi": "C16 C17 C19", "_invert_dots_contrast": "C16", "binarization": "C16", "check_num_dots": "C16", "calc_size_distance": "C17",
 "_check_dot_size": "C15", "select_dots_based_size": "C15", "_check_axes_ratio": "C15", "select_dots_based_ratio": "C15", "select_dots_based_distance": "C15",
 "calc_hor_slope": "C17", "calc_ver_slope": "C17", "get_points_dot_pattern": "C17",
 "_check_dot_on_line": "C13", "group_dots_hor_lines": "C13", "group_dots_ver_lines": "C13", "remove_residual_dots_hor": "C13", "remove_residual_dots_ver": "C13",
 "make_parabola_mask": "C21", "remove_points_using_parabola_mask": "C21", "rotate_points": "C21", "remove_subset_points": "C21",
 "_get_nearby_hor_points": "C14", "_get_nearby_hor_points_iter": "C14", "group_dots_hor_lines_based_polyfit": "C14",
 "_get_nearby_ver_points": "C14", "_get_nearby_ver_points_iter": "C14", "group_dots_ver_lines_based_polyfit": "C14",
 "_para_fit_hor": "C07 C11", "_para_fit_ver": "C07 C11", "find_cod_coarse": "C07", "_func_dist": "C07", "_calc_error": "C07", "_calc_metric": "C07", "find_cod_fine": "C07",
 "_check_missing_lines": "C07", "_func_opt": "C07", "_optimize_intercept": "C07", "_calc_undistor_intercept": "C07", "calc_coef_backward": "C07", "calc_coef_forward": "C07",
 "calc_coef_backward_from_forward": "C07 C06", "transform_coef_backward_and_forward": "C06", "find_cod_bailey": "C07",
 "_generate_non_perspective_parabola_coef": "C12 C11", "_find_cross_point_between_parabolas": "C11", "regenerate_grid_points_parabola": "C11", "_generate_linear_coef": "C11 C10",
 "_find_cross_point_between_lines": "C11", "_func_opt_pers": "C10", "_optimize_intercept_perspective": "C10", "_calc_undistor_intercept_perspective": "C10",
 "regenerate_grid_points_linear": "C11", "generate_undistorted_perspective_lines": "C10", "generate_source_target_perspective_points": "C10",
 "generate_4_source_target_perspective_points": "C10", "calc_perspective_coefficients": "C08", "update_center": "C12", "__get_representative_linear_coefs": "C12",
 "correct_perspective_effect": "C12", "_find_cross_point_between_parabolas_same_direction": "C12", "find_center_based_vanishing_points": "C12",
 "_find_center_based_vanishing_points_2nd_way": "C12", "find_center_based_vanishing_points_iteration": "C12",
 "make_circle_mask": "C26", "make_dot_pattern": "C26", "make_line_pattern": "C26", "make_chessboard": "C26", "find_point_to_point": "C05", "_calc_pad": "C03",
 "unwarp_color_image_backward": "C03", "mapping_cv2": "C03", "unwarp_image_backward_cv2": "C03", "unwarp_video_cv2": "C28",
 "load_image": "C23", "get_hdf_information": "C24", "find_hdf_key": "C24", "_get_key": "C24", "load_hdf_file": "C24", "load_hdf_object": "C24", "_create_folder": "C22",
 "_create_file_name": "C22", "save_image": "C23 C22", "save_plot_image": "C22 C27", "save_residual_plot": "C22 C27", "save_hdf_file": "C22 C23", "open_hdf_stream": "C22 C23",
 "save_plot_points": "C22", "save_metadata_txt": "C22 C23", "load_metadata_txt": "C23", "__numpy_encoder": "C23", "save_metadata_json": "C22 C23", "load_metadata_json": "C23",
 "load_python_list": "C23", "save_python_list": "C22 C23", "find_file": "C22", "__get_path": "C22 C24",
}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult}
FN = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "argmin": "argmax", "argmax": "argmin", "mean": "median", "median": "mean", "round": "floor", "sin": "cos", "cos": "sin",
      "int16": "int8", "float64": "float32", "intp": "int16", "any": "all", "all": "any", "sum": "max", "ascontiguousarray": "asarray", "copy": "asarray", "deepcopy": "list", "sqrt": "abs", "nanmin": "nanmax"}
NM = [("hor", "ver"), ("height", "width"), ("x", "y"), ("left", "right"), ("top", "bot"), ("i", "j"), ("a", "b"), ("min", "max"), ("t_pad", "b_pad"), ("l_pad", "r_pad"), ("start", "stop")]


def swaps(n, known):
    out = []
    for a, b in NM:
        for p, q in ((a, b), (b, a)):
            for c in ({n.replace(p, q, 1)} if len(p) > 2 else {q + n[1:] if n.startswith(p) else n, n[:-1] + q if n.endswith(p) and len(p) == 1 else n}):
                if c != n and c in known:
                    out.append(c)
    return sorted(set(out))


def mutants(fn):
    """list of (description, function that edits a deep copy)"""
    out = []
    nodes = list(ast.walk(fn))
    known = {n.id for n in nodes if isinstance(n, ast.Name)} | {a.arg for a in fn.args.args}
    doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    skip = {id(x) for x in ast.walk(doc)} if doc else set()
    for d in fn.args.defaults:
        skip |= {id(x) for x in ast.walk(d)}
    for k, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                skip.add(id(x))
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            for t in CMP[type(n.ops[0])]:
                out.append(("%d cmp %s->%s" % (ln, type(n.ops[0]).__name__, t.__name__), k, lambda m, t=t: m.ops.__setitem__(0, t())))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(getattr(n.left, "value", 0), str):
            out.append(("%d bin %s->%s" % (ln, type(n.op).__name__, BIN[type(n.op)].__name__), k, lambda m, t=BIN[type(n.op)]: setattr(m, "op", t())))
        elif isinstance(n, ast.BoolOp):
            t = ast.Or if isinstance(n.op, ast.And) else ast.And
            out.append(("%d bool->%s" % (ln, t.__name__), k, lambda m, t=t: setattr(m, "op", t())))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            vs = [n.value + 1, n.value - 1] if isinstance(n.value, int) else [n.value * 1.1 + (0.1 if n.value == 0 else 0)]
            for v in vs:
                out.append(("%d const %r->%r" % (ln, n.value, v), k, lambda m, v=v: setattr(m, "value", v)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(("%d const %r->%r" % (ln, n.value, not n.value), k, lambda m, v=not n.value: setattr(m, "value", v)))
        elif isinstance(n, ast.Attribute) and n.attr in FN:
            out.append(("%d fn %s->%s" % (ln, n.attr, FN[n.attr]), k, lambda m, v=FN[n.attr]: setattr(m, "attr", v)))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id in FN:
                out.append(("%d fn %s->%s" % (ln, n.id, FN[n.id]), k, lambda m, v=FN[n.id]: setattr(m, "id", v)))
            for v in swaps(n.id, known):
                out.append(("%d name %s->%s" % (ln, n.id, v), k, lambda m, v=v: setattr(m, "id", v)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append(("%d drop unary" % ln, k, "unary"))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("abs", "clip", "round", "sort", "sorted", "squeeze", "float32", "asarray", "float64", "int16", "intp", "copy"):
                out.append(("%d drop call %s" % (ln, n.func.attr), k, "call"))
            if isinstance(n.func, ast.Name) and n.func.id in ("abs", "int", "sorted", "list", "str"):
                out.append(("%d drop call %s" % (ln, n.func.id), k, "call"))
            for i, kw in enumerate(n.keywords):
                if kw.arg:
                    out.append(("%d drop keyword %s" % (ln, kw.arg), k, lambda m, i=i: m.keywords.pop(i)))
        elif isinstance(n, ast.If):
            out.append(("%d if->True" % ln, k, lambda m: setattr(m, "test", ast.Constant(True))))
            out.append(("%d if->False" % ln, k, lambda m: setattr(m, "test", ast.Constant(False))))
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            out.append(("%d drop statement" % ln, k, "stmt"))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and sum(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n.targets[0].id for x in nodes) > 1:
            out.append(("%d drop assignment %s" % (ln, n.targets[0].id), k, "stmt"))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append(("%d drop %s" % (ln, type(n).__name__), k, "stmt"))
    return out


def apply(fn, k, edit):
    g = copy.deepcopy(fn)
    m = list(ast.walk(g))[k]
    if callable(edit):
        edit(m)
    else:
        new = {"unary": lambda: m.operand, "call": lambda: m.args[0] if m.args else m.func.value, "stmt": lambda: ast.Pass()}[edit]()

        class T(ast.NodeTransformer):
            def visit(self, q):
                return new if q is m else self.generic_visit(q)
        g = T().visit(g)
    return ast.unparse(ast.fix_missing_locations(g))


def sh(cmd, cwd, env, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, shell=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-n", type=int, default=3)
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-f", default="")
    ap.add_argument("-m", default="")
    ap.add_argument("-v", default=V)
    a = ap.parse_args()
    rng = random.Random(a.s)
    jobs = []
    for mod, (path, test) in MODS.items():
        if a.m and mod not in a.m.split(","):
            continue
        src = open("/repo/" + path).read()
        lines = src.split("\n")
        for fn in ast.parse(src).body:
            if not isinstance(fn, ast.FunctionDef) or fn.name not in COVER or (a.f and fn.name not in a.f.split(",")):
                continue
            ms = mutants(fn)
            rng.shuffle(ms)
            for d, k, e in ms[:a.n]:
                try:
                    txt = apply(fn, k, e)
                    ast.parse(txt)
                except Exception:
                    continue
                jobs.append(dict(mod=mod, path=path, test=test, fn=fn.name, d=d, code="\n".join(lines[:fn.lineno - 1] + txt.split("\n") + lines[fn.end_lineno:])))
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    import queue
    dirs = queue.Queue()
    for i in range(a.j):
        d = "/tmp/mut/w%d" % i
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        dirs.put(d)
    out = open(a.out, "a")

    def work(j):
        d = dirs.get()
        try:
            env = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/plant_mpl", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=d)
            p = os.path.join(d, j["path"])
            open(p, "w").write(j["code"])
            rc, o = sh("timeout -k 5 120 %s -m pytest -q -x -p no:cacheprovider %s" % (PY, j["test"] if j["mod"] != "proc" else "tests/test_processing.py"), d, env, 140)
            res = "tests"
            if rc == 0:
                res, cl = "SURVIVED", ""
                for c in COVER[j["fn"]].split():
                    rc, o = sh("timeout -k 5 600 ./check %s quick" % c, a.v, dict(env, PYTHONPATH=""), 620)
                    if rc == 1:
                        res, cl = "caught " + c, " ".join(x.split()[1] for x in o.splitlines() if x.startswith("  clause"))
                        break
                    if rc != 0:
                        res = "rc%d %s" % (rc, c)
                res += " " + cl
            out.write(json.dumps(dict(fn=j["fn"], d=j["d"], res=res)) + "\n")
            out.flush()
            if res != "tests":
                print(j["fn"], "|", j["d"], "|", res, flush=True)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)
            shutil.rmtree(d + "/tmp", ignore_errors=True)
        finally:
            dirs.put(d)
    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(work, jobs))
    for i in range(a.j):
        shutil.rmtree("/tmp/mut/w%d" % i, ignore_errors=True)


main()

"""Runner shared by all checks.

A check module (checks/cNN.py) gives
    ID            property id
    MC            list of (module, cfg) design specifications that TLC explores;
                  each may write a scenario file (ndjson, env SCEN)
    TRACE         (module, cfg) trace specification that judges recorded calls
    scenarios(ctx, model)   list of JSON-able scenarios; `model` = the scenarios
                            TLC emitted, by module name
    execute(s)    drives the real code for one scenario -> event (dict) or list
    corrupt(e)    (optional) corrupted copy of an event, which TLC must reject
Python only drives the code and projects results to integers and strings; the
verdict on every event is TLC's.
"""
import os, re, sys, json, time, math, random, shutil, signal, subprocess, tempfile
import traceback, warnings, importlib, multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")
BIG = 2 ** 30 - 1


class Machinery(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick


# ---------------------------------------------------------------- projection
def fx(v, scale=1.0):
    """number -> int (round(v*scale)), saturated; NaN/inf/non-number -> BIG"""
    try:
        v = float(v) * scale
    except Exception:
        return BIG
    if not math.isfinite(v):
        return BIG
    v = int(round(v))
    return max(-BIG, min(BIG, v))


def fxs(arr, scale=1.0):
    import numpy as np
    a = np.asarray(arr)
    if a.ndim == 0:
        return fx(a, scale)
    return [fxs(x, scale) for x in a]


# ------------------------------------------------------------------ driving
class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def call(fn, *args, limit=60, **kw):
    """-> (outcome, result); outcome 'ok', 'raise:<Type>' or 'hang'"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn(*args, **kw)
        return "ok", r
    except Hang:
        return "hang", None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if os.environ.get("VERIF_DEBUG") == "2":
            traceback.print_exc()
        return "raise:" + type(e).__name__, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_MOD = None


def _exec(s):
    try:
        r = _MOD.execute(s)
        return r if isinstance(r, list) else [r]
    except Exception:
        return traceback.format_exc()


def run_all(mod, scens, procs=8):
    global _MOD
    _MOD = mod
    if getattr(mod, "SERIAL", False):
        procs = 1
    res = []
    if procs == 1 or len(scens) < 4:
        res = [_exec(s) for s in scens]
    else:
        from concurrent.futures import ProcessPoolExecutor
        from concurrent.futures.process import BrokenProcessPool
        ctx = mp.get_context("fork")
        try:
            with ProcessPoolExecutor(procs, mp_context=ctx) as ex:
                res = list(ex.map(_exec, scens, chunksize=max(
                    1, min(50, len(scens) // (procs * 4)))))
        except BrokenProcessPool:
            raise Machinery("a driver process died")
    # a result the projection cannot read (wrong type or structure) does not
    # conform; it is reported as such, with the traceback in the replay file
    unread = {i: r for i, r in enumerate(res) if isinstance(r, str)}
    for i, r in unread.items():
        if "MemoryError" in r or os.environ.get("VERIF_DEBUG"):
            raise Machinery("driver failed on %s\n%s" % (json.dumps(scens[i])[:400], r))
        res[i] = []
    return res, unread


# ---------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env, extra=(), timeout=800, heap="6g"):
    md = tempfile.mkdtemp(dir=ctx.tmp)
    e = dict(os.environ)
    e.update(env)
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + md, "-cp", JARS, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE",
           "-workers", "8", "-deadlock", "-config", os.path.join(SPEC, cfg),
           *extra, os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=md, env=e, capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on " + module)
    out = p.stdout
    gen = dist = 0
    for line in out.splitlines():
        if "states generated" in line and "distinct states found" in line:
            w = line.replace(",", "").split()
            try:
                gen, dist = int(w[0]), int(w[3])
            except ValueError:
                pass
    shutil.rmtree(md, ignore_errors=True)
    return dict(rc=p.returncode, out=out, err=p.stderr, generated=gen,
                distinct=dist, wall=time.time() - t)


def run_mc(ctx, module, cfg):
    scen = os.path.join(ctx.tmp, module + ".scen.ndjson")
    r = tlc(ctx, module, cfg, {"SCEN": scen, "VERIF_TIER": ctx.tier})
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        lines = [x for x in r["out"].splitlines() if not x.startswith(("Parsing", "Semantic pro", "Linting", "Comput", "TLC2", "Running"))]
        raise Machinery("design spec %s fails:\n%s" % (module, "\n".join(lines)[:1400] + r["err"][-600:]))
    items = []
    if os.path.exists(scen):
        with open(scen) as f:
            items = [json.loads(x) for x in f if x.strip()]
    for line in r["out"].splitlines():
        if line.startswith('"SCEN|'):
            items.append(json.loads(json.loads(line)[5:]))
    return r, items


def judge(ctx, module, cfg, events, tag):
    """-> TLC result, {event: (step, clause)} violated, {event: steps} accepted.
    A call whose values TLC cannot even evaluate (outside the range of the
    specification's arithmetic, fields of the wrong kind) is violated:
    it is set aside and the other calls are judged again."""
    live = list(range(len(events)))
    viol, done = {}, {}
    for attempt in range(10):
        path = os.path.join(ctx.tmp, "trace_%s_%d.ndjson" % (tag, attempt))
        with open(path, "w") as f:
            for i in live:
                f.write(json.dumps(events[i]) + "\n")
        r = tlc(ctx, module, cfg, {"TRACE": path})
        v1, d1 = {}, {}
        for line in r["out"].splitlines():
            if line.startswith('"VIOL|'):
                _, ev, k, clause = line.strip('"').split("|", 3)
                v1.setdefault(live[int(ev) - 1], (int(k), clause))
            elif line.startswith('"DONE|'):
                _, ev, k = line.strip('"').split("|")
                d1[live[int(ev) - 1]] = int(k)
        if r["rc"] == 0 and "No error has been found" in r["out"]:
            break
        lines = [x for x in r["out"].splitlines() if not x.startswith(("\"", "Parsing", "Semantic", "Linting", "Computed"))]
        msg = "TLC failed on trace %s:\n%s" % (module, "\n".join(lines)[:900] + r["err"][-600:])
        evs = re.findall(r"^(?:/\\ )?ev = (\d+)", r["out"], re.M)
        if not evs or os.environ.get("VERIF_DEBUG"):
            if os.environ.get("VERIF_DEBUG"):
                shutil.copy(path, "/tmp/vp_bad_%s.ndjson" % ctx.id)
            raise Machinery(msg)
        i = live[int(evs[-1]) - 1]
        ks = re.findall(r"^/\\ k = (\d+)", r["out"], re.M)
        viol[i] = (int(ks[-1]) + 1 if ks else 1, "not-evaluable")
        # what was already found to be violated need not be judged again
        viol.update(v1)
        live = [x for x in live if x not in viol]
        if not live:
            return r, viol, done
    else:
        return r, viol, done        # enough is violated; the rest stays unjudged
    viol.update(v1)
    done.update(d1)
    for i in range(len(events)):
        if i not in viol and i not in done:
            raise Machinery("event %d has no verdict: %s" % (i, json.dumps(events[i])[:300]))
    for i, k in done.items():
        if k < 1 and i not in viol:
            raise Machinery("event %d judged vacuously: %s" % (i, json.dumps(events[i])[:300]))
    return r, viol, done


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if os.path.exists(p):
        for x in json.load(open(p)).get("known", []):
            if x["property"] == pid:
                out.append(x)
    return out


def matches(f, s, e, clause):
    """a finding identifies a scenario by equality on the listed keys"""
    if "clause" in f and f["clause"] != clause:
        return False
    return all(s.get(k) == v for k, v in f["scenario"].items())


# --------------------------------------------------------------------- main
def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    a = argv[1:]
    while a:
        if a[0] in ("quick", "thorough"):
            tier = a[0]
        elif a[0] == "--replay":
            replay = a[1]
            a = a[1:]
        a = a[1:]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    try:
        return _run(ctx, replay, t0)
    except Machinery as ex:
        print("MACHINERY-ERROR property=%s %s" % (pid, ex))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


def _run(ctx, replay, t0):
    pid = ctx.id
    os.environ["MPLCONFIGDIR"] = os.path.join(ctx.tmp, "mpl")
    os.environ["VP_SCRATCH"] = ctx.tmp
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(pid.lower())
    import discorpy
    if not list(discorpy.__path__)[0].startswith(REPO + "/"):
        raise Machinery("discorpy is not imported from " + REPO)
    model, mcs = {}, []
    if replay:
        scens = [json.load(open(replay))["scenario"]]
    else:
        for m, cfg in mod.MC:
            deep = cfg.replace(".cfg", "_T.cfg")
            if ctx.tier == "thorough" and os.path.exists(os.path.join(VERIF, "spec", deep)):
                cfg = deep
            r, items = run_mc(ctx, m, cfg)
            model[m] = items
            mcs.append(dict(module=m, generated=r["generated"],
                            distinct=r["distinct"], scenarios=len(items),
                            wall_s=round(r["wall"], 2)))
        scens = mod.scenarios(ctx, model)
    t1 = time.time()
    res, unread = run_all(mod, scens)
    t2 = time.time()
    events, owner = [], []
    for i, evs in enumerate(res):
        for e in evs:
            events.append(e)
            owner.append(i)
    n = len(events)
    cans = []
    if not replay and hasattr(mod, "corrupt"):
        step = max(1, n // 60)
        for i in range(0, n, step):
            try:
                c = mod.corrupt(json.loads(json.dumps(events[i])))
            except (KeyError, IndexError, TypeError, AttributeError):
                c = None        # an event of a failed call may lack the fields
            if c is not None:
                cans.append(c)
    module, cfg = mod.TRACE
    r, viol, done = judge(ctx, module, cfg, events + cans, "main")
    bad = {i: v for i, v in viol.items() if i < n}
    known = known_findings(pid)
    newv, seen = [], {}
    for i in sorted(bad):
        s, (k, clause) = scens[owner[i]], bad[i]
        f = next((f for f in known if matches(f, s, events[i], clause)), None)
        if f is not None:
            seen.setdefault(f["what"], 0)
            seen[f["what"]] += 1
        else:
            newv.append((i, s, k, clause))
    for j, tb in unread.items():
        events.append(dict(op="unreadable", traceback=tb[-2000:]))
        newv.append((len(events) - 1, scens[j], 0, "unreadable-result"))
    for what in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    missed = [j for j in range(len(cans)) if (n + j) not in viol]
    lines = []
    if newv:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        perclause = {}
        for i, s, k, clause in newv:
            perclause.setdefault(clause, []).append((i, s, k))
        for ci, (clause, lst) in enumerate(perclause.items()):
            i, s, k = lst[0]
            path = os.path.join(rd, "%s-%d.json" % (pid, ci + 1))
            with open(path, "w") as f:
                json.dump(dict(property=pid, clause=clause, step=k, scenario=s,
                               event=events[i], others=len(lst) - 1,
                               rerun="./check %s --replay %s" % (pid, path)),
                          f)
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("  clause %s fails on %d of %d recorded calls; first: %s" % (
                clause, len(lst), n, json.dumps(s)[:300]))
    elif missed and not replay:
        raise Machinery("corrupted event accepted: " + json.dumps(cans[missed[0]])[:600])
    steps = sum(v for i, v in done.items() if i < n) + sum(v[0] for v in bad.values())
    if not replay:
        ops = {}
        for e in events:
            ops[e.get("op", "?")] = ops.get(e.get("op", "?"), 0) + 1
        ev = dict(property=pid, tier=ctx.tier, seed=ctx.seed, level="model_checking",
                  coverage=dict(
                      states=sum(m["distinct"] for m in mcs) + r["distinct"],
                      transitions=sum(m["generated"] for m in mcs) + r["generated"],
                      traces_validated_against_impl=n,
                      samples=[s for s in (scens[:1] + scens[len(scens) // 2:len(scens) // 2 + 1] + scens[-1:])],
                      design_specs=mcs,
                      trace_spec=dict(module=module, distinct=r["distinct"], wall_s=round(r["wall"], 2)),
                      scenarios_from_model=sum(len(v) for v in model.values()),
                      scenarios_total=len(scens),
                      clause_steps_judged=steps, calls_by_operation=ops,
                      corrupted_events_rejected=len(cans) - len(missed),
                      driver_wall_s=round(t2 - t1, 2)),
                  assumptions=getattr(mod, "ASSUMPTIONS", []),
                  wall_s=round(time.time() - t0, 2), violations=len(newv))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("%s %s: %d calls judged in %d steps, %d new violation(s), %d known; %.1f s" % (
        pid, ctx.tier, n, steps, len(newv), sum(seen.values()), time.time() - t0))
    return 1 if newv else 0

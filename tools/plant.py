"""plant.py BUGFILE...: make seeded/<id> from a bug description and confirm it.
A bug file defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO.
Kept only if: the tests pass with the change, the demo passes without it and
fails with it.  Then the property's quick check is run against the change."""
import sys, os, subprocess, json, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "/tmp/plant_repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/plant_mpl", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True)


def demo(d, repo):
    return sh("timeout 300 bash %s/demo.sh" % d, cwd=repo).returncode


for bf in sys.argv[1:]:
    b = runpy.run_path(bf)
    bid = b["ID"]
    d = os.path.join(V, "seeded", bid)
    shutil.rmtree(M, ignore_errors=True)
    sh("git clone -q /repo %s" % M)
    for f, old, new in b["EDITS"]:
        p = os.path.join(M, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(bid, "SKIP: pattern occurs", s.count(old), "times:", old[:60])
            break
        open(p, "w").write(s.replace(old, new))
    else:
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=M).stdout)
        open(d + "/demo.py", "w").write(b["DEMO"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexec %s "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' % PY)
        json.dump(dict(property=b["PROP"], needs=b["NEEDS"], what_it_breaks=b["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        t = sh("%s -m pytest -q -x tests 2>&1 | tail -2" % PY, cwd=M)
        ok = " passed" in t.stdout and "failed" not in t.stdout
        d0, d1 = demo(d, "/repo"), demo(d, M)
        good = ok and d0 == 0 and d1 != 0
        res = "-"
        if good:
            c = sh("./check %s quick" % b["PROP"], cwd=V, env=dict(ENV, VERIF_REPO=M))
            res = "CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode
            res += " " + " ".join(l.strip()[:60] for l in c.stdout.splitlines() if l.startswith("  clause"))
        else:
            shutil.rmtree(d)
        print(bid, "tests", ok, "demo clean", d0, "patched", d1, "KEPT" if good else "DROPPED", res, flush=True)
    shutil.rmtree(M, ignore_errors=True)

"""Build seeded/<id>/ from a definition file and confirm it.

usage: mkseed.py DEFS.py [id ...]     DEFS.py defines SEEDS = [dict(id, prop, edits, demo, needs,
breaks)], edits = [(file below src/orquestra/quantum, old, new)]
Confirms: old text unique, demo passes clean and fails patched, stable tests pass patched,
and reports what the property's check says.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

OUT = "/verif/seeded"
PKG = "src/orquestra/quantum/"
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) \
        if os.path.exists("/opt/vp/BASELINE.json") else set()
    for s in m.SEEDS:
        if only and s["id"] not in only:
            continue
        one(s, stable)


def run_tests(w, stable):
    x = "/tmp/seedtest"
    shutil.rmtree(x, ignore_errors=True)
    os.makedirs(x + "/cwd")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=w + "/src",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    sh("cd %s/cwd && %s -m pytest -q -p no:cacheprovider -n 7 --disable-warnings --timeout=300 "
       "--continue-on-collection-errors -o junit_family=xunit2 -c %s/pyproject.toml --rootdir %s "
       "--junitxml=%s/main.xml %s/tests" % (x, PY, w, w, x, w), env=env)
    sh("python3 /opt/vp/results.py %s/out.json 'junit:%s/*.xml'" % (x, x))
    r = json.load(open(x + "/out.json"))
    sh("cd %s/cwd && %s -m pytest -q -p no:cacheprovider -p no:xdist --disable-warnings "
       "-o junit_family=xunit2 -c %s/pyproject.toml --rootdir %s "
       "--junitxml=%s/main.xml %s/tests/orquestra/quantum/runners/trackers_test.py" % (
           x, PY, w, w, x, w), env=env)
    sh("python3 /opt/vp/results.py %s/out.json 'junit:%s/*.xml'" % (x, x))
    r["passed"] += json.load(open(x + "/out.json"))["passed"]
    bad = sorted(stable - set(r["passed"]))
    bad = [b for b in bad if not b.startswith("subtrees")]
    return "tests ok" if not bad else "%d TESTS BROKEN %s" % (len(bad), bad[:2])


def one(s, stable):
    w = "/tmp/seedwork"
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s" % w)
    for f, old, new in s["edits"]:
        p = os.path.join(w, PKG + f)
        t = open(p, encoding="utf-8").read()
        if t.count(old) != 1:
            print(s["id"], "BAD EDIT: %d matches in %s" % (t.count(old), f))
            return
        open(p, "w", encoding="utf-8").write(t.replace(old, new))
    diff = sh("git -C %s diff" % w).stdout
    d = os.path.join(OUT, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" '
        '/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    b = sh("bash %s/demo.sh" % d, cwd=w, timeout=300)
    ok = a.returncode == 0 and b.returncode != 0
    msg = ""
    if not ok:
        msg = (a.stderr[-300:] if a.returncode else "patched demo passes")
    tests = run_tests(w, stable)
    c = sh("cd /verif && python3 check.py %s --repo %s --evidence /tmp/seedev" % (s["prop"], w))
    v = {0: "MISSED", 1: "CAUGHT"}.get(c.returncode, "BROKEN rc=%d" % c.returncode)
    print(s["id"], s["prop"], "demo-ok" if ok else "DEMO-BAD " + msg, "|", tests, "|", v,
          flush=True)
    if v != "CAUGHT":
        und = [l for l in c.stdout.splitlines() if "undecided:" in l or "BROKEN" in l]
        for l in und[:4]:
            print("      ", l[:160])
    shutil.rmtree(w, ignore_errors=True)


main()

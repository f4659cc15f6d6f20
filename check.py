#!/usr/bin/env python3
"""Static check of one property:  check.py C07 [--tier quick|thorough]

Reads /repo/src (never imports or runs it) and the reviewed reference tree /verif/spec.
Exit 0: no violation found; 1: violation(s), one VIOLATION line; 2: analysis broken.
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

import threading  # noqa: E402

if os.environ.get("PYTHONHASHSEED") != "0":         # the same order of case splits every time
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def props():
    out = {}
    for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
        if line.strip():
            p = json.loads(line)
            out[p["id"]] = p
    return out


def known(pid):
    """Known findings of a property: rule id -> text."""
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out[key.partition("=")[2]] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--evidence", default=os.path.join(HERE, "evidence"))
    a = ap.parse_args()
    t0 = time.time()
    P = props()
    if a.property not in P:
        print("unknown property", a.property)
        return 2
    import analysis
    try:
        rep = analysis.check(P[a.property], os.path.join(HERE, "spec"),
                             os.path.join(a.repo, "src"), a.tier)
    except (SyntaxError, FileNotFoundError, UnicodeDecodeError) as e:
        print("ANALYSIS-BROKEN %s: %s" % (type(e).__name__, e))
        return 2
    kn = known(a.property)
    new, old = [], []
    for v in rep["violations"]:
        (old if v["id"] in kn else new).append(v)
    for v in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (a.property, v["id"], kn[v["id"]]))
    os.makedirs(a.evidence, exist_ok=True)
    cov = rep["coverage"]
    cov["known_findings"] = [v["id"] for v in old]
    cov["violations"] = [v["id"] for v in new]
    ev = {"property": a.property, "tier": "thorough" if a.tier == "thorough" else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 3)}
    with open(os.path.join(a.evidence, a.property + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for l in rep["log"]:
        print(l)
    if rep["problems"]:
        for p in rep["problems"]:
            print("ANALYSIS-BROKEN", p)
        if not new:
            return 2
    if new:
        path = os.path.join(a.evidence, a.property + ".violation.txt")
        with open(path, "w", encoding="utf-8") as f:
            for v in new:
                f.write(v["id"] + "\n  at " + v["loc"] + "\n")
                for l in v["detail"]:
                    f.write("  " + l + "\n")
        for v in new:
            print("%s: %s" % (v["loc"], v["id"]))
            for l in v["detail"][:6]:
                print("    " + l)
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    print("property %s: held on %d items, %d obligations (%d undecided) in %.1f s" % (
        a.property, cov["items"], cov["obligations"], cov["undecided"], time.time() - t0))
    return 0


def run():
    res = []
    threading.stack_size(512 * 1024 * 1024)

    def go():
        try:
            res.append(main())
        except SystemExit as e:
            res.append(e.code)
        except BaseException as e:  # noqa
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            print("ANALYSIS-BROKEN %s: %s" % (type(e).__name__, str(e)[:200]))
            for fr in tb[-6:]:
                print("   %s:%d %s" % (fr.filename, fr.lineno, fr.name))
            res.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)


if __name__ == "__main__":
    run()

"""Detection of planted changes.  python3 dev/bugref.py [substring]  (corpus: dev/bugs/*.py)

B(prop, rel, old, new): old -> new in the source without comments and docstrings."""
import os as _os, sys as _sys
if _os.environ.get("PYTHONHASHSEED") != "0":
    _os.environ["PYTHONHASHSEED"] = "0"
    _os.execv(_sys.executable, [_sys.executable] + _sys.argv)
import ast, collections, glob, multiprocessing as mp, os, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "sa"))
sys.setrecursionlimit(20000)
import analysis, compare, json
SPEC = os.path.join(HERE, "..", "spec")
REPO = "/repo/src"
BUGS = []
PROPS = {p["id"]: p for p in map(json.loads, open(os.path.join(HERE, "..", "properties.jsonl")))}
SRC = {}
KNOWN = open(os.path.join(HERE, "..", "KNOWN_FINDINGS.txt")).read()


def stripped(rel):
    if rel not in SRC:
        t = ast.parse(open(os.path.join(REPO, "orquestra/quantum", rel)).read())
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(
                    n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                n.body = n.body[1:] or [ast.Pass()]
        SRC[rel] = ast.unparse(t) + "\n"
    return SRC[rel]


def B(prop, rel, old, new, name=None, pre="", more=()):
    s = stripped(rel)
    for o, n in ((old, new),) + tuple(more):
        if s.count(o) < 1:
            print("NOT FOUND", prop, rel, repr(o[:80]))
            return
        s = s.replace(o, n, 1)
    if pre:
        ls = s.splitlines()
        k = max(j for j, l in enumerate(ls) if l.startswith(("import ", "from ")))
        ls[k + 1:k + 1] = pre.splitlines()
        s = "\n".join(ls) + "\n"
    try:
        compile(s, rel, "exec")
    except SyntaxError as e:
        print("SYNTAX", prop, rel, repr(old[:60]), e)
        return
    BUGS.append((prop, rel, name or "%s -> %s" % (old.strip()[:90], new.strip()[:110]), s))


def work(j):
    prop, rel, name, s = BUGS[j]
    out = []

    def go():
        try:
            f = "orquestra/quantum/" + rel
            r = analysis.check(PROPS[prop], SPEC, REPO, "quick", {f: s})
            r["violations"] = [v for v in r["violations"] if " id=%s " % v["id"] not in KNOWN]
            und = r["coverage"]["undecided_list"]
            if prop == "C20":
                und = [u for u in und if not u.startswith("~")]
            bad = [(v["id"], "VIOLATED", v["loc"], v["detail"][:3]) for v in r["violations"]]
            bad += [(u, "UNDECIDED", "", []) for u in und]
            if not r["violations"]:
                X = compare.Compare(SPEC, REPO, {f: s})
                bad += [(i.key, i.status, i.why, [repr(m)[:400] for m in i.mismatches[:4]])
                        for i in X.run().values() if i.status != "HOLDS"]
            out.append((j, "V" if r["violations"] else "U" if und else "H", bad))
        except Exception as e:
            import traceback
            out.append((j, "E", [(repr(e)[:200], "", "", traceback.format_exc().splitlines()[-6:])]))
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join(120)
    return out[0] if out else (j, "T", [])


def main():
    sub = sys.argv[1] if len(sys.argv) > 1 else ""
    for f in sorted(glob.glob(os.path.join(HERE, "bugs", "*.py"))):
        if os.environ.get("CORP") in (None, os.path.basename(f)[:-3]):
            exec(compile(open(f).read(), f, "exec"), {"B": B})
    jobs = [j for j, b in enumerate(BUGS) if sub in b[0] + " " + b[1] + " " + b[2]]
    verbose = "-v" in sys.argv
    with mp.Pool(8, maxtasksperchild=6) as pool:
        res = sorted(pool.imap_unordered(work, jobs))
    c = collections.Counter()
    for j, st, bad in res:
        prop, rel, name, _ = BUGS[j]
        c[st] += 1
        if st != "V" or verbose:
            print("== %s %s %s :: %s" % (st, prop, rel, name))
            for b in bad[:3]:
                print("     ", b[0], b[1], b[2])
                for m in b[3]:
                    print("          ", m)
    print(dict(c))


if __name__ == "__main__":
    main()

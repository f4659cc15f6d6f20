"""Recall measurement: small AST mutants of the repository, compared in-process.

usage: mutants.py [N per file] [seed] [file substring]"""
import os as _os, sys as _sys
if _os.environ.get("PYTHONHASHSEED") != "0":
    _os.environ["PYTHONHASHSEED"] = "0"
    _os.execv(_sys.executable, [_sys.executable] + _sys.argv)
import ast, copy, os, random, sys, collections, multiprocessing as mp, signal, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa"))
sys.setrecursionlimit(20000)
import loader, compare

SPEC, REPO = "/verif/spec", "/repo/src"
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.BitXor: ast.BitOr,
       ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.MatMult: ast.Mult}


def in_funcs(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name not in ("__repr__", "__str__"):
            yield n


def sites(tree):
    out = []
    for f in in_funcs(tree):
        body = f.body
        names = [a.arg for a in f.args.args if a.arg not in ("self", "cls")]
        doc = {id(s.value) for s in ast.walk(f) if isinstance(s, ast.Expr)}
        skip = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr):
                for x in ast.walk(n):
                    skip.add(id(x))
            if isinstance(n, (ast.arguments,)):
                for a in n.args + n.kwonlyargs:
                    if a.annotation is not None:
                        for x in ast.walk(a.annotation): skip.add(id(x))
            if isinstance(n, ast.FunctionDef):
                if n.returns is not None:
                    for x in ast.walk(n.returns): skip.add(id(x))
                for d in n.decorator_list:
                    for x in ast.walk(d): skip.add(id(x))
            if isinstance(n, ast.AnnAssign):
                for x in ast.walk(n.annotation): skip.add(id(x))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("cast",):
                for x in ast.walk(n.args[0]): skip.add(id(x))
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ("warnings.warn", "print"):
                for x in ast.walk(n): skip.add(id(x))
        for n in ast.walk(f):
            if id(n) in skip or id(n) in doc:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for c in CMP.get(type(n.ops[0]), []):
                    out.append(("cmp", n, c))
            if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
                out.append(("bin", n, BIN[type(n.op)]))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append(("bool", n, None))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                out.append(("num", n, 1))
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
                out.append(("str", n, None))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                out.append(("unary", n, None))
            if isinstance(n, ast.BoolOp):
                out.append(("boolop", n, None))
                out.append(("booldrop", n, None))
            if isinstance(n, ast.IfExp):
                out.append(("ifexp", n, None))
            if isinstance(n, ast.If):
                out.append(("iftrue", n, None))
                out.append(("iffalse", n, None))
            if isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    out.append(("swap", n, None))
                if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                    out.append(("unwrap", n, None))
                if isinstance(n.func, ast.Attribute) and not n.args:
                    out.append(("unmeth", n, None))
                if n.keywords:
                    out.append(("kwdrop", n, None))
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                out.append(("slice", n, None))
            if isinstance(n, (ast.For, ast.comprehension)):
                out.append(("iter", n, None))
                if isinstance(n, ast.comprehension) and n.ifs:
                    out.append(("compif", n, None))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                o = [x for x in names if x != n.id]
                if o:
                    out.append(("name", n, o))
            if hasattr(n, "body") and isinstance(n.body, list):
                for j, s in enumerate(n.body):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.Raise, ast.For)) and \
                            not (isinstance(s, ast.Expr) and "warn" in ast.unparse(s)[:14]):
                        out.append(("del", n, j))
                    if j + 1 < len(n.body) and isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)):
                        pass
    return out


def apply(tree, k, rnd):
    kind, n, x = sites(tree)[k]
    if kind == "cmp":
        n.ops = [x()]
    elif kind == "bin":
        n.op = x()
    elif kind == "bool":
        n.value = not n.value
    elif kind == "num":
        n.value = n.value + 1
    elif kind == "str":
        n.value = n.value + "x" if len(n.value) > 1 else ("b" if n.value == "a" else "a")
    elif kind == "unary":
        n.__class__ = ast.Call if False else n.__class__
        repl(tree, n, n.operand)
    elif kind == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "booldrop":
        n.values.pop(rnd.randrange(len(n.values)))
        if len(n.values) == 1:
            repl(tree, n, n.values[0])
    elif kind == "ifexp":
        n.body, n.orelse = n.orelse, n.body
    elif kind == "iftrue":
        n.test = ast.Constant(value=True)
    elif kind == "iffalse":
        n.test = ast.Constant(value=False)
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "unwrap":
        repl(tree, n, n.args[0])
    elif kind == "unmeth":
        repl(tree, n, n.func.value)
    elif kind == "kwdrop":
        n.keywords.pop(rnd.randrange(len(n.keywords)))
    elif kind == "slice":
        repl(tree, n, n.value)
    elif kind == "iter":
        n.iter = ast.Call(func=ast.Name("reversed", ast.Load()), args=[
            ast.Call(func=ast.Name("list", ast.Load()), args=[n.iter], keywords=[])], keywords=[])
    elif kind == "compif":
        n.ifs = []
    elif kind == "name":
        n.id = rnd.choice(x)
    elif kind == "del":
        n.body[x:x + 1] = [ast.Pass()] if len(n.body) == 1 else []
    ast.fix_missing_locations(tree)
    return kind


def repl(tree, old, new):
    for n in ast.walk(tree):
        for f, v in ast.iter_fields(n):
            if v is old:
                setattr(n, f, new)
                return
            if isinstance(v, list):
                for j, y in enumerate(v):
                    if y is old:
                        v[j] = new
                        return


BASE = None


def work(job):
    rel, k, seed = job
    rnd = random.Random(seed)
    path = os.path.join(REPO, rel)
    src = open(path).read()
    tree = ast.parse(src)
    kind = apply(tree, k, rnd)
    new = ast.unparse(tree)
    old = ast.unparse(ast.parse(src))
    a, b = old.splitlines(), new.splitlines()
    import difflib
    d = [l for l in difflib.unified_diff(a, b, n=0, lineterm="") if l[:1] in "+-" and l[:3] not in ("+++", "---")]
    if not d:
        return None
    res = []

    def go():
        try:
            compile(new, rel, "exec")
            X = compare.Compare(SPEC, REPO, {rel: new}, ref=BASE)
            r = X.run(only={"src/" + rel})
            st = collections.Counter(i.status for i in r.values())
            bad = [(i.key, i.status, i.why, [repr(m)[:300] for m in i.mismatches[:3]]) for i in r.values() if i.status != "HOLDS"]
            res.append((rel, kind, k, d, "V" if st["VIOLATED"] else "U" if st["UNDECIDED"] else "H", bad, X.problems))
        except Exception as e:
            res.append((rel, kind, k, d, "E", [repr(e)[:200]], []))
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join(60)
    return res[0] if res else (rel, kind, k, d, "T", [], [])


if __name__ == "__main__":
    N = int(sys.argv[1]) if len(sys.argv) > 1 else 5
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    import json
    P = [json.loads(l) for l in open("/verif/properties.jsonl")]
    files = sorted({f[4:] for p in P for f in p["anchors"]["files"]})
    jobs = []
    rnd = random.Random(seed)
    for f in files:
        if sub not in f:
            continue
        n = len(sites(ast.parse(open(os.path.join(REPO, f)).read())))
        ks = list(range(n))
        rnd.shuffle(ks)
        jobs += [(f, k, seed * 1000 + k) for k in ks[:N]]
    BASE = loader.Program(SPEC)
    X = compare.Compare(SPEC, REPO, ref=BASE)
    th = threading.Thread(target=X.run) if False else None
    with mp.Pool(8, maxtasksperchild=25) as pool:
        out = [r for r in pool.imap_unordered(work, jobs) if r]
    c = collections.Counter((r[1], r[4]) for r in out)
    tot = collections.Counter(r[4] for r in out)
    print(tot)
    for k in sorted({k for k, _ in c}):
        print("%-9s" % k, {s: c[(k, s)] for s in "VUHET" if c[(k, s)]})
    with open("/tmp/scratch/mut.txt", "w") as fo:
        for r in sorted(out, key=lambda r: (r[4], r[0], r[2])):
            if r[4] != "V":
                fo.write("== %s %s %s #%d\n" % (r[4], r[0], r[1], r[2]))
                for l in r[3][:8]:
                    fo.write("   " + l + "\n")
                for b in r[5][:2]:
                    fo.write("      -> " + repr(b)[:900] + "\n")

"""Hand-written behaviour-preserving rewrites (the kind a reviewer or another developer
makes), compared in-process with the reference.  Every item must be HOLDS.

usage: llmref.py [substring] [--write DIR]   (--write: apply all non-overlapping to DIR/src)"""
import os as _os, sys as _sys
if _os.environ.get("PYTHONHASHSEED") != "0":
    _os.environ["PYTHONHASHSEED"] = "0"
    _os.execv(_sys.executable, [_sys.executable] + _sys.argv)
import ast, os, sys, glob, textwrap, threading, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa"))
sys.setrecursionlimit(20000)
import compare, loader, analysis, diff as D
KNOWN = open('/verif/KNOWN_FINDINGS.txt').read()
SPEC, REPO = "/verif/spec", "/repo/src"
B = "orquestra/quantum/"
ITEMS = []


def find(tree, qual):
    cur = tree.body
    parts = qual.split(".")
    for i, p in enumerate(parts):
        idx = 0
        if "#" in p:
            p, idx = p.split("#")
            idx = int(idx)
        c = [n for n in cur if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p]
        n = c[idx]
        cur = n.body
    return n


class Edit:
    def __init__(self, name, rel, qual, new, pre="", imports="", post=""):
        self.name, self.rel, self.qual, self.new = name, B + rel, qual, new
        self.pre, self.imports, self.post = pre, imports, post

    def apply(self, src):
        tree = ast.parse(src)
        n = find(tree, self.qual)
        start = min([d.lineno for d in n.decorator_list] + [n.lineno]) - 1
        end = n.end_lineno
        lines = src.split("\n")
        ind = " " * n.col_offset
        new = textwrap.indent(textwrap.dedent(self.new).strip("\n"), ind)
        out = new.split("\n")
        pre = textwrap.dedent(self.pre).strip("\n")
        top = n
        t0 = start
        if "." in self.qual:
            c = find(tree, self.qual.split(".")[0])
            t0 = min([d.lineno for d in c.decorator_list] + [c.lineno]) - 1
            if self.post:
                out += [""] + textwrap.indent(textwrap.dedent(self.post).strip("\n"), ind).split("\n")
        elif self.post:
            out += ["", ""] + textwrap.dedent(self.post).strip("\n").split("\n")
        lines[start:end] = out
        if pre:
            lines[t0:t0] = pre.split("\n") + ["", ""]
        if self.imports:
            k = max([x.end_lineno for x in tree.body if isinstance(x, (ast.Import, ast.ImportFrom))
                     ] or [0])
            lines[k:k] = textwrap.dedent(self.imports).strip("\n").split("\n")
        s = "\n".join(lines)
        ast.parse(s)
        return s


def F(rel, qual, new, pre="", imports="", post="", name=None):
    ITEMS.append(Edit(name or "%s:%s" % (rel.split("/")[-1][:-3], qual), rel, qual, new, pre, imports, post))


class Sub(Edit):
    """Textual replacement in the source without comments and docstrings."""
    def __init__(self, name, rel, pairs, imports=""):
        self.name, self.rel, self.pairs, self.imports = name, B + rel, pairs, imports

    def apply(self, src):
        t = ast.parse(src)
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(
                    n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                n.body = n.body[1:] or [ast.Pass()]
        s = ast.unparse(t) + "\n"
        for o, w in self.pairs:
            if o not in s:
                raise ValueError("not found: " + o[:60])
            s = s.replace(o, w, 1)
        if self.imports:
            s = self.imports + "\n" + s
        compile(s, self.rel, "exec")
        return s


def S(rel, old, new, *pairs, imports="", more=(), kind=""):
    if kind == "drop":
        return
    pairs += tuple(x for p in more for x in p)
    it = iter(pairs)
    ITEMS.append(Sub("S %s:%s => %s" % (rel.split("/")[-1][:-3], old.strip()[:50], new.strip()[:50]),
                     rel, [(old, new)] + list(zip(it, it)), imports))


def load():
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "llm", os.environ.get("CORP", "*") + ".py"))):
        exec(compile(open(f).read(), f, "exec"), {"F": F, "S": S})


REF = None


def one(i):
    out = []

    def go():
        e = ITEMS[i]
        src = open(os.path.join(REPO, e.rel)).read()
        try:
            new = e.apply(src)
        except Exception as x:
            out.append((i, "BAD", "%s %s" % (type(x).__name__, x)))
            return
        try:
            X = compare.Compare(SPEC, REPO, {e.rel: new}, ref=REF)
            X.run()
        except Exception as x:
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-4:]
            out.append((i, "E", "%s %s %s" % (type(x).__name__, str(x)[:80],
                                             ["%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb])))
            return
        bad = [it for it in X.res.values() if it.status != "HOLDS"]
        st = "H"
        law = analysis.law_alarms(X, known=KNOWN)
        if any(x.status == "VIOLATED" for x in bad) or any(l[1] == "VIOLATED" for l in law):
            st = "V"
        elif bad or law:
            st = "U"
        out.append((i, st, "\n".join("   %s %s %s\n%s" % (x.status, x.key, x.why, "\n".join(
            "        " + repr(m) for m in x.mismatches[:5])) for x in bad) + "\n".join("   %s %s %s %s" % (
                l[1], l[0], l[2], l[3]) for l in law)))
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0]


def main():
    global REF
    load()
    args = [a for a in sys.argv[1:]]
    if "--write" in args:
        k = args.index("--write")
        d = args[k + 1]
        done = set()
        for e in ITEMS:
            if (e.rel, e.qual) in done:
                continue
            done.add((e.rel, e.qual))
            p = os.path.join(d, "src", e.rel)
            try:
                s = e.apply(open(p).read())
            except Exception as x:
                print("BAD", e.name, x)
                continue
            open(p, "w").write(s)
        return
    sel = [i for i, e in enumerate(ITEMS) if not args or args[0] in e.name]
    REF = loader.Program(SPEC)
    with mp.Pool(8, maxtasksperchild=20) as p:
        c = {}
        for i, st, txt in p.imap_unordered(one, sel):
            c[st] = c.get(st, 0) + 1
            if st != "H":
                print("==", st, ITEMS[i].name)
                print(txt[:3000])
        print(c)


if __name__ == "__main__":
    main()

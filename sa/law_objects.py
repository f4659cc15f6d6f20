"""Objects that validate what they hold, and caches: rules decided from the syntax alone.

C12  a class that checks its contents when built keeps its own copy of the caller's array, every
     other way of filling an instance runs the same check, and a write that is rolled back on
     failure restores a copied value.
C06  the free symbols reported are those of the parameters.
all  a cached value depends on nothing its key does not determine.
"""
from __future__ import annotations

import ast

import law_alias as A
from laws import HOLDS, Ob, VIOLATED, rule

COPIES = {"copy.copy", "copy.deepcopy", "numpy.copy", "numpy.array", "list", "tuple", "dict",
          "complex", "float", "int"}


def functions(prog):
    for k, f in sorted(prog.funcs.items()):
        if isinstance(f.node, ast.FunctionDef):
            yield k, f


# -- the array kept by a constructor ----------------------------------------------------------
class Kept(A.Walk):
    def __init__(self, f, attrs):
        super().__init__(f, attrs)
        self.kept = {}

    def bind(self, t, places):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                t.value.id == self.selfname:
            self.now = getattr(self, "now", None)
            for p, k in places:
                if k == "arr":
                    self.kept.setdefault(t.attr, (t.lineno, p))
        super().bind(t, places)


def kept(f, attrs):
    w = Kept(f, attrs)
    w.run(f.node.body)
    return {a: v for a, v in w.kept.items()
            if v[1].split(".")[0].split("[")[0] != w.selfname}


@rule("C12", "C20")
def own_array(X, tier):
    ar, ac = A.Attrs(X.ref), A.Attrs(X.cur)
    for k, f in functions(X.cur):
        if f.cls is None or f.name != "__init__":
            continue
        g = X.ref.funcs.get(k)
        old = kept(g, ar) if g is not None else {}
        bad = [(a, v) for a, v in kept(f, ac).items() if a not in old]
        for a, (line, p) in bad:
            yield Ob("%s-keeps-the-array-of-the-caller-in-%s" % (k, a), VIOLATED,
                     "%s:%d" % (f.mod.rel, line),
                     ["self.%s may be the array passed as %s: changing one changes the other "
                      "without the check of the constructor" % (a, p)])
        if not bad:
            yield Ob("%s keeps its own arrays" % k, HOLDS, f.loc)


# -- roll-back ----------------------------------------------------------------------------------
@rule("C12")
def rollback(X, tier):
    for k, f in functions(X.cur):
        for t in ast.walk(f.node):
            if not isinstance(t, ast.Try):
                continue
            w = {ast.unparse(x) for s in t.body for x in ast.walk(s)
                 if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store)}
            for h in t.handlers:
                for s in ast.walk(h):
                    if not (isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and any(
                            isinstance(x, ast.Subscript) and ast.unparse(x) in w
                            for x in s.targets)):
                        continue
                    tg = [x for x in s.targets if isinstance(x, ast.Subscript)][0]
                    src = bound(f.node, s.value.id, t.lineno)
                    if src is None:
                        continue
                    if isinstance(src, ast.Subscript) and ast.unparse(src) == ast.unparse(tg):
                        yield Ob("%s-restores-a-view-of-%s" % (
                            k, ast.unparse(tg.value)), VIOLATED, "%s:%d" % (f.mod.rel, s.lineno),
                            ["%s is %s itself: for a slice of an array it is a view that has "
                             "already been overwritten when it is written back" % (
                                 s.value.id, ast.unparse(src))])
                    else:
                        yield Ob("%s restores a copy" % k, HOLDS, f.loc)


def bound(fn, name, before):
    out = [s for s in ast.walk(fn) if isinstance(s, ast.Assign) and s.lineno < before and any(
        isinstance(x, ast.Name) and x.id == name for x in s.targets)]
    return out[-1].value if len(out) == 1 else None


# -- instances made without the constructor ---------------------------------------------------------
MAKERS = {"copy.copy", "copy.deepcopy", "object.__new__"}


def validated(c):
    """Attributes a class checks in its constructor, and the checks."""
    init = c.methods.get("__init__")
    if init is None:
        return {}
    out = {}
    for x in ast.walk(init.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and "check" in \
                x.func.attr:
            for a in x.args:
                if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and \
                        a.value.id == "self":
                    out.setdefault(a.attr, set()).add(x.func.attr)
    return out


@rule("C12")
def bypass(X, tier):
    checked = {}
    for c in X.ref.classes.values():
        for a, fs in validated(c).items():
            checked.setdefault(a, set()).update(fs)
    for k, f in functions(X.cur):
        made = set()
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and len(
                    s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                q = f.mod.resolve(s.value.func) or ""
                if q in MAKERS or isinstance(s.value.func, ast.Attribute) and \
                        s.value.func.attr in ("__new__", "__copy__"):
                    made.add(s.targets[0].id)
        for s in ast.walk(f.node):
            if not isinstance(s, ast.Assign):
                continue
            for t in s.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                        t.value.id in made and t.attr in checked:
                    calls = {x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call)
                             and isinstance(x.func, ast.Attribute)}
                    if calls & (checked[t.attr] | {"__init__"}):
                        yield Ob("%s checks what it fills in" % k, HOLDS, f.loc)
                    else:
                        yield Ob("%s-fills-%s-unchecked" % (k, t.attr), VIOLATED,
                                 "%s:%d" % (f.mod.rel, s.lineno),
                                 ["%s is set on an object made without its constructor, and "
                                  "%s is not run" % (t.attr, sorted(checked[t.attr])[0])])


# -- free symbols -------------------------------------------------------------------------------------
@rule("C06")
def symbols(X, tier):
    for k, f in functions(X.cur):
        if f.name not in ("free_symbols", "get_free_symbols"):
            continue
        g = X.ref.funcs.get(k)
        if g is None or not asks(X.ref, g):
            continue
        if asks(X.cur, f):
            yield Ob("%s reports the symbols of the parameters" % k, HOLDS, f.loc)
        else:
            yield Ob("%s-does-not-ask-the-parameters-for-their-symbols" % k, VIOLATED, f.loc,
                     ["no parameter's free_symbols is read: symbols inside expressions are "
                      "missed"])


def asks(prog, f, seen=None):
    seen = seen or set()
    if f.key in seen:
        return False
    seen.add(f.key)
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and x.attr in ("free_symbols", "atoms", "matrix"):
            return True
        if isinstance(x, ast.Constant) and x.value == "free_symbols":
            return True
        if isinstance(x, (ast.Name, ast.Attribute)):
            q = f.mod.resolve(x)
            r = prog.resolve_qual(q) if q and hasattr(prog, "resolve_qual") else None
            for h in ([r] if r is not None else []):
                if asks(prog, h, seen):
                    return True
            n = A.last(x)
            for key, h in prog.funcs.items():
                if h.name == n and isinstance(h.node, ast.FunctionDef) and h is not f and \
                        asks(prog, h, seen):
                    return True
    return False


# -- caches ----------------------------------------------------------------------------------------------


@rule(*["C%02d" % j for j in range(1, 21)])
def cache_keys(X, tier):
    """D[k] = v with D a dictionary that outlives the call: what v is computed from is part
    of k."""
    for key, f in functions(X.cur):
        fn = f.node
        local = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        params = set(local)
        for s in ast.walk(fn):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                local.add(s.id)
        for s in ast.walk(fn):
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                    s.targets[0], ast.Subscript)):
                continue
            d, k = s.targets[0].value, s.targets[0].slice
            if not (isinstance(d, ast.Name) and d.id not in local and dict_const(f.mod, d.id)):
                continue
            read = any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load)
                       and ast.unparse(x.value) == d.id for x in ast.walk(fn)) or any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                and x.func.attr in ("get", "setdefault") and ast.unparse(x.func.value) == d.id
                for x in ast.walk(fn))
            if not read:
                continue
            need = sources(fn, s.value, params, False, set())
            have = sources(fn, k, params, True, set())
            miss = sorted(p for p in need - have if p not in ("cls",))
            if miss:
                yield Ob("%s-caches-in-%s-without-%s" % (key, d.id, "-".join(miss)), VIOLATED,
                         "%s:%d" % (f.mod.rel, s.lineno),
                         ["the value cached in %s is computed from %s, which its key %s does not "
                          "determine" % (d.id, ", ".join(miss), ast.unparse(k)[:60])])
            else:
                yield Ob("%s cache %s" % (key, d.id), HOLDS, f.loc)


def dict_const(mod, name):
    for s in mod.tree.body:
        t = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(
            s, ast.AnnAssign) else []
        if any(isinstance(x, ast.Name) and x.id == name for x in t) and s.value is not None:
            v = s.value
            return isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and A.last(
                v.func) in ("dict", "OrderedDict", "WeakKeyDictionary", "WeakValueDictionary")
    return False


def sources(fn, e, params, exact, seen):
    """Parameters an expression is computed from (exact: that it determines)."""
    if isinstance(e, ast.Name):
        if e.id in params:
            return {e.id}
        if e.id in seen:
            return set()
        seen = seen | {e.id}
        out = None
        for s in ast.walk(fn):
            v = None
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(
                    isinstance(x, ast.Name) and x.id == e.id for t in (
                        s.targets if isinstance(s, ast.Assign) else [s.target])
                    for x in ast.walk(t)):
                v = s.value
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and \
                    s.target.id == e.id:
                v = s.value
            elif isinstance(s, (ast.For, ast.comprehension)) and any(
                    isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(s.target)):
                v = s.iter
            if v is not None:
                r = sources(fn, v, params, exact, seen)
                out = r if out is None else (out & r if exact else out | r)
        return out or set()
    if exact:
        if isinstance(e, (ast.Tuple, ast.List)):
            return set().union(*[sources(fn, x, params, True, seen) for x in e.elts]) \
                if e.elts else set()
        if isinstance(e, ast.Starred):
            return sources(fn, e.value, params, True, seen)
        if isinstance(e, ast.Call):
            n = A.last(e.func)
            if n in LOSSY and not e.keywords:
                return set()
            return set().union(*[sources(fn, x, params, True, seen)
                                 for x in list(e.args) + [k.value for k in e.keywords]] or [set()])
        if isinstance(e, ast.GeneratorExp):
            if len(e.generators) == 1 and not e.generators[0].ifs:
                return sources(fn, e.generators[0].iter, params, True, seen)
        out = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                out |= sources(fn, x, params, True, seen)
        return out
    out = set()
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            out |= sources(fn, x, params, False, seen)
    return out


LOSSY = {"sorted", "len", "set", "frozenset", "sum", "max", "min", "round", "int", "abs", "type"}

"""All properties: a look-up table filled while looping is keyed by all its entries depend on.

    D = {}
    for x in ...:
        if K not in D:
            D[K] = V
        ... D[K] ...

A later x with the same key K gets the value computed for an earlier x.  Unless V reads only
what K determines, that value is wrong for it.  K and V are reduced to the access paths of x
they read (attributes; methods and functions of the package are followed, by name where the
receiver's class is unknown); the rule reports a path of V that no path of K covers.
"""
from __future__ import annotations

import ast

from laws import HOLDS, Ob, VIOLATED, rule

LOSSY = {"sorted", "len", "set", "frozenset", "sum", "max", "min", "round", "int", "abs", "type",
         "bool"}
MUTATE = {"append", "extend", "add", "update", "insert", "pop", "remove", "discard", "sort",
          "clear", "setdefault", "popitem", "appendleft"}


def parents(fn):
    return {c: p for p in ast.walk(fn) for c in ast.iter_child_nodes(p)}


def up(n, par):
    while n in par:
        n = par[n]
        yield n


def empty_dict(v):
    return isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and not v.args and \
        not v.keywords and isinstance(v.func, ast.Name) and v.func.id in ("dict", "OrderedDict")


class Fn:
    def __init__(self, X, f):
        self.X, self.f, self.fn = X, f, f.node
        self.par = parents(f.node)
        self.defs = {}
        for s in ast.walk(f.node):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(
                    s, (ast.AnnAssign, ast.AugAssign, ast.For, ast.comprehension,
                        ast.NamedExpr)) else []):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.defs.setdefault(n.id, []).append((s, t))

    def tables(self):
        for name, ds in sorted(self.defs.items()):
            if len(ds) == 1 and isinstance(ds[0][0], (ast.Assign, ast.AnnAssign)) and \
                    isinstance(ds[0][1], ast.Name) and ds[0][0].value is not None and \
                    empty_dict(ds[0][0].value):
                t = self.table(name, ds[0][0])
                if t:
                    yield (name,) + t

    def table(self, name, made):
        store, loads, guards = None, [], []
        for n in ast.walk(self.fn):
            if not (isinstance(n, ast.Name) and n.id == name):
                continue
            p = self.par.get(n)
            if p is made:
                continue
            if isinstance(p, ast.Subscript) and p.value is n:
                g = self.par.get(p)
                if isinstance(p.ctx, ast.Store):
                    if store is not None or not isinstance(g, ast.Assign) or len(g.targets) != 1:
                        return None
                    store = (p.slice, g.value, g)
                elif isinstance(p.ctx, ast.Load):
                    if isinstance(g, ast.Attribute) and g.attr in MUTATE:
                        return None
                    if isinstance(g, ast.Subscript) and isinstance(g.ctx, ast.Store):
                        return None
                    loads.append((ast.dump(p.slice), p))
                else:
                    return None
            elif isinstance(p, ast.Compare) and len(p.ops) == 1 and p.comparators[0] is n and \
                    isinstance(p.ops[0], (ast.In, ast.NotIn)):
                guards.append(p)
            else:
                return None
        if store is None or not loads or not guards:
            return None
        key, value, stmt = store
        kd = ast.dump(key)
        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(value)):
            return None
        loop = next((q for q in up(stmt, self.par) if isinstance(q, (ast.For, ast.While))), None)
        if not isinstance(loop, ast.For) or made in set(ast.walk(loop)):
            return None
        inside = set(ast.walk(loop))
        cond = next((q for q in up(stmt, self.par) if isinstance(q, ast.If)), None)
        if cond is None or cond not in inside or not (
                stmt in cond.body and isinstance(cond.test, ast.Compare) and
                cond.test in guards and isinstance(cond.test.ops[0], ast.NotIn) and
                ast.dump(cond.test.left) == kd):
            return None
        if not any(d == kd and p in inside for d, p in loads):
            return None
        return key, value, stmt, loop

    # -- what is read -----------------------------------------------------------------------
    def once(self, name, loop):
        """The expression a local of the loop body stands for."""
        ds = self.defs.get(name, [])
        if len(ds) == 1 and isinstance(ds[0][0], ast.Assign) and isinstance(ds[0][1], ast.Name) \
                and ds[0][0] in set(ast.walk(loop)):
            return ds[0][0].value
        return None

    def key_paths(self, e, x, loop, d=0):
        """Paths of x the key determines; () when it may determine all of x."""
        if d > 6:
            return {()}
        p = path(e, x)
        if p is not None:
            return {p}
        if isinstance(e, ast.Name):
            v = self.once(e.id, loop)
            if v is not None:
                return self.key_paths(v, x, loop, d + 1)
            return {()} if self.mixed(e.id, x) else set()
        if isinstance(e, (ast.Tuple, ast.List)):
            return set().union(*[self.key_paths(q, x, loop, d + 1) for q in e.elts] or [set()])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id in LOSSY:
                return set()
            if e.func.id in ("tuple", "str", "repr", "bytes"):
                return set().union(*[self.key_paths(q, x, loop, d + 1) for q in e.args]
                                   or [set()])
        if isinstance(e, ast.Constant):
            return set()
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        return {()} if x in names or any(
            self.once(n, loop) is not None or self.mixed(n, x) for n in names) else set()

    def mixed(self, name, x):
        """May the local depend on x in a way that is not followed?"""
        return name != x and any(not isinstance(s, ast.For) for s, _ in self.defs.get(name, []))

    def value_paths(self, e, x, loop, keys, d=0):
        """Paths of x the value certainly depends on."""
        if ast.dump(e) in keys or d > 6:
            return set()
        p = path(e, x)
        if p is not None:
            return {p}
        if isinstance(e, ast.Name):
            v = self.once(e.id, loop)
            return self.value_paths(v, x, loop, keys, d + 1) if v is not None else set()
        if isinstance(e, ast.Call):
            out = set()
            if isinstance(e.func, ast.Attribute):
                q = path(e.func.value, x)
                if q is not None:
                    out |= {q + r for r in self.method(e.func.attr)}
                else:
                    out |= self.value_paths(e.func.value, x, loop, keys, d + 1)
            for i, a in enumerate(e.args):
                if path(a, x) == ():
                    out |= self.function(e.func, i)
                elif isinstance(a, ast.Starred) and path(a.value, x) == ():
                    continue
                else:
                    out |= self.value_paths(a, x, loop, keys, d + 1)
            for k in e.keywords:
                if path(k.value, x) != ():
                    out |= self.value_paths(k.value, x, loop, keys, d + 1)
            return out
        if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Tuple, ast.List, ast.Subscript,
                          ast.Attribute, ast.Starred)):
            return set().union(*[self.value_paths(c, x, loop, keys, d + 1)
                                 for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
                               or [set()])
        return set()

    def method(self, name):
        """Paths every method of that name in the package reads from its receiver."""
        fs = [g for g in self.X.cur.funcs.values() if g.cls is not None and g.name == name
              and isinstance(g.node, ast.FunctionDef) and not abstract(g.node)]
        return common([self_reads(self.X, g) for g in fs])

    def function(self, fn, i):
        """Paths a function of the package reads from its i-th argument, used as a whole."""
        if not isinstance(fn, ast.Name):
            return set()
        q = self.f.mod.imports.get(fn.id)
        fs = [g for k, g in self.X.cur.funcs.items() if g.cls is None and g.name == fn.id and
              isinstance(g.node, ast.FunctionDef) and (g.mod is self.f.mod or q)]
        if len(fs) != 1:
            return set()
        a = fs[0].node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        if i >= len(ps):
            return set()
        return reads(fs[0].node, ps[i])


def common(sets):
    return set.intersection(*sets) if sets else set()


def abstract(fn):
    return any("abstract" in ast.unparse(d) for d in fn.decorator_list) or all(
        isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(
            s.value, ast.Constant) for s in fn.body)


def self_reads(X, g):
    a = g.node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    if not ps:
        return set()
    fields = set()
    if g.cls is not None:
        for s in g.cls.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                fields.add(s.target.id)
    return {p[:1] for p in reads(g.node, ps[0]) if p and p[0] in fields}


def reads(fn, x):
    """Paths of parameter x a function certainly uses; () when x itself is in its result."""
    if any(isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Store)
           for n in ast.walk(fn)):
        return set()
    par = parents(fn)
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == x:
            p = par.get(n)
            if isinstance(p, ast.Attribute) and not (
                    isinstance(par.get(p), ast.Call) and par[p].func is p):
                out.add((p.attr,))
            elif isinstance(p, ast.Return) or isinstance(p, (ast.List, ast.Tuple)) and any(
                    isinstance(q, (ast.Return, ast.Yield, ast.IfExp, ast.comprehension))
                    for q in up(p, par)):
                out.add(())
    return out


def path(e, x):
    """Access path from x, or None."""
    r = []
    while True:
        if isinstance(e, ast.Attribute):
            r.append(e.attr)
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == "getattr" and len(e.args) >= 2 and isinstance(
                    e.args[1], ast.Constant) and not e.keywords:
            r.append(str(e.args[1].value))
            e = e.args[0]
        elif isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            r.append("[%r]" % (e.slice.value,))
            e = e.value
        else:
            break
    if isinstance(e, ast.Name) and e.id == x:
        return tuple(reversed(r))
    return None


@rule(*["C%02d" % j for j in range(1, 21)])
def tables(X, tier):
    for k, f in sorted(X.cur.funcs.items()):
        if not isinstance(f.node, ast.FunctionDef):
            continue
        F = Fn(X, f)
        for name, key, value, stmt, loop in F.tables():
            if not isinstance(loop.target, ast.Name):
                miss = beside(F, loop, key, value)
                if miss:
                    yield Ob("%s-table-%s-without-%s" % (k, name, miss), VIOLATED,
                             "%s:%d" % (f.mod.rel, stmt.lineno),
                             ["the entries of %s are computed from %s, which the key %s does not "
                              "involve" % (name, miss, ast.unparse(key)[:60])])
                continue
            x = loop.target.id
            texts = {ast.dump(key)}
            v = F.once(key.id, loop) if isinstance(key, ast.Name) else None
            if v is not None:
                texts.add(ast.dump(v))
            have = F.key_paths(key, x, loop)
            need = F.value_paths(value, x, loop, texts)
            # an attribute that the package computes from another one is not independent of it
            miss = sorted(p for p in need if not any(p[:len(h)] == h for h in have)
                          and not derived(X, p, have) and sum(
                              1 for h in have if p and h and (h[0] == p[0] or reader(
                                  X, h[0], p[0]))) < 2)
            if miss:
                what = ", ".join(".".join((x,) + p) for p in miss)
                yield Ob("%s-table-%s-without-%s" % (k, name, what.replace(", ", "-")), VIOLATED,
                         "%s:%d" % (f.mod.rel, stmt.lineno),
                         ["the entries of %s are computed from %s, which the key %s does not "
                          "determine" % (name, what, ast.unparse(key)[:60])])
            else:
                yield Ob("%s table %s" % (k, name), HOLDS, f.loc)


def beside(F, loop, key, value):
    """In `for x, y in zip(..)`: y when the value is a call on x and y and the key has x only."""
    it, t = loop.iter, loop.target
    if not (isinstance(t, ast.Tuple) and isinstance(it, ast.Call) and isinstance(
            it.func, ast.Name) and it.func.id == "zip" and isinstance(value, ast.Call)
            and len(it.args) == len(t.elts) and all(isinstance(a, ast.Name) for a in it.args)
            and all(isinstance(e, ast.Name) for e in t.elts)):
        return None

    def names(e, d=0):
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                out.add(n.id)
                v = F.once(n.id, loop)
                if v is not None and d < 5:
                    out |= names(v, d + 1)
        return out
    have = names(key)
    if any(F.mixed(n, "") and n not in {e.id for e in t.elts} and F.once(n, loop) is None
           for n in have):
        return None
    args = {a.id for a in value.args if isinstance(a, ast.Name)}
    ys = [e.id for e in t.elts if e.id in args and e.id not in have]
    xs = [e.id for e in t.elts if e.id in args and e.id in have]
    return ys[0] if ys and xs else None


def derived(X, p, have):
    """Is p's first attribute a property of some class computed from a covered one?"""
    if not p or not have:
        return False
    heads = {h[:1] for h in have}
    return any(g.cls is not None and g.name == p[0] and isinstance(g.node, ast.FunctionDef)
               and not abstract(g.node) and any(
                   isinstance(n, ast.Attribute) and (n.attr,) in heads
                   for n in ast.walk(g.node))
               for g in X.cur.funcs.values())


def reader(X, name, attr):
    """Is `name` a method or property that reads attribute `attr` of its object?"""
    return any(g.cls is not None and g.name == name and any(
        isinstance(n, ast.Attribute) and n.attr == attr for n in ast.walk(g.node))
        for g in X.cur.funcs.values())

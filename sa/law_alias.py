"""C20: in-place updates through aliases that the value graph does not track.

A forward may-alias analysis over each function's syntax tree.  A name aliases a parameter's
array when it is bound to the parameter, an array attribute of it, or a view of either
(asarray, reshape, slices, .T, .real, ...).  Augmented assignment, element assignment, in-place
array methods and ``out=`` on such a name change the caller's data.  Containers of an argument
stored in an object the function builds are followed as well: updating them there in place
changes the argument.
"""
from __future__ import annotations

import ast

import core as C
from laws import HOLDS, Ob, UNDECIDED, VIOLATED, rule

VIEW_FUN = {"numpy.asarray", "numpy.ravel", "numpy.squeeze", "numpy.reshape", "numpy.transpose",
            "numpy.atleast_1d", "numpy.atleast_2d", "numpy.asanyarray", "numpy.real",
            "numpy.imag", "numpy.swapaxes", "numpy.moveaxis", "numpy.expand_dims",
            "numpy.diagonal", "numpy.flip", "numpy.ascontiguousarray", "numpy.broadcast_to"}
ARRAY_ONLY = VIEW_FUN - {"numpy.asarray", "numpy.asanyarray"}
VIEW_METH = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "diagonal"}
VIEW_ATTR = {"T", "real", "imag", "flat"}
INPLACE_METH = {"sort", "fill", "put", "resize", "itemset", "partition", "byteswap", "setflags"}
LIST_METH = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update",
             "add", "discard", "setdefault", "popitem", "subtract"}
INPLACE_FUN = {"numpy.random.shuffle", "random.shuffle", "numpy.fill_diagonal", "numpy.put",
               "numpy.copyto", "numpy.place", "numpy.putmask", "heapq.heapify",
               "heapq.heappush", "heapq.heappop", "bisect.insort"}
MUTABLE_ANN = {"list": "list", "List": "list", "dict": "dict", "Dict": "dict", "set": "set",
               "Set": "set", "ndarray": "arr", "MutableMapping": "dict", "Counter": "dict",
               "MutableSequence": "list", "DefaultDict": "dict", "bytearray": "list"}


def ann_kind(a):
    if a is None:
        return None
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(a, ast.Subscript):
        n = last(a.value)
        if n == "Optional":
            return ann_kind(a.slice)
        return MUTABLE_ANN.get(n)
    return MUTABLE_ANN.get(last(a))


def last(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else ""


class Attrs:
    """Attributes of repository classes that hold arrays or containers, and properties that
    hand out the attribute itself."""

    def __init__(self, prog):
        self.kind = {}
        self.alias = {}
        self.fresh = set()
        for c in prog.classes.values():
            for n, an, _ in c.all_fields():
                k = ann_kind(an)
                if k:
                    self.kind.setdefault(n, k)
            for f in c.methods.values():
                ps = {a.arg: ann_kind(a.annotation) for a in f.node.args.args}
                for x in ast.walk(f.node):
                    if isinstance(x, (ast.Assign, ast.AnnAssign)):
                        ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                        for t in ts:
                            if isinstance(t, ast.Attribute) and last(t.value) == "self" and \
                                    x.value is not None:
                                k = self.made(f, x.value, ps)
                                if k:
                                    self.kind.setdefault(t.attr, k)
                if f.kind == "property":
                    src = None
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Return) and isinstance(
                                x.value, ast.Attribute) and last(x.value.value) == "self":
                            src = x.value.attr
                    if src:
                        self.alias[f.name] = src
                    else:
                        self.fresh.add(f.name)

    def made(self, f, v, ps):
        if isinstance(v, (ast.List, ast.ListComp)):
            return "list"
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return "dict"
        if isinstance(v, (ast.Set, ast.SetComp)):
            return "set"
        if isinstance(v, ast.Name):
            return ps.get(v.id)
        if isinstance(v, ast.IfExp):
            return self.made(f, v.body, ps) or self.made(f, v.orelse, ps)
        while isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in (
                "flatten", "reshape", "copy", "astype", "ravel"):
            v = v.func.value
        if isinstance(v, ast.Call):
            q = f.mod.resolve(v.func) or ""
            if q in ("numpy.array", "numpy.asarray", "numpy.zeros", "numpy.ones"):
                return "arr"
            if q in ("list", "dict", "set"):
                return q
        return None

    def of(self, name):
        seen = 0
        while name in self.alias and seen < 4:
            if name in self.kind:
                break
            name = self.alias[name]
            seen += 1
        if name in self.fresh and name not in self.alias:
            return None
        return self.kind.get(name)


class Walk:
    def __init__(self, f, attrs):
        self.f, self.attrs = f, attrs
        self.hits = []          # (line, text, source)
        self.env = {}
        ps = f.node.args
        for a in ps.posonlyargs + ps.args + ps.kwonlyargs:
            k = ann_kind(a.annotation)
            self.env[a.arg] = {(a.arg, k)}
        self.selfname = (ps.posonlyargs + ps.args)[0].arg if f.cls is not None and (
            ps.posonlyargs + ps.args) else None

    def q(self, n):
        return self.f.mod.resolve(n) or ""

    # -- aliases of an expression: set of (place, kind) ----------------------------------
    def al(self, e):
        if isinstance(e, ast.Name):
            return self.env.get(e.id, set())
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id + "." + e.attr in self.env:
                return self.env[e.value.id + "." + e.attr]
            b = self.al(e.value)
            out = set()
            for p, k in b:
                if k == "arr":
                    if e.attr in VIEW_ATTR:
                        out.add((p, "arr"))
                    continue
                a = self.attrs.of(e.attr)
                if a or e.attr not in self.attrs.fresh:
                    out.add((p + "." + e.attr, a))
            return out
        if isinstance(e, ast.Subscript):
            b = self.al(e.value)
            if isinstance(e.slice, ast.Slice):
                return {(p, k) for p, k in b if k == "arr"}
            return {(p + "[]", None) for p, k in b if k != "arr"} | {
                (p, None) for p, k in b if k == "arr" and False}
        if isinstance(e, ast.Call):
            n = self.q(e.func)
            if n in VIEW_FUN and e.args:
                return {(p, "arr") for p, k in self.al(e.args[0])
                        if k in ("arr", None) and "[]" not in p or k == "arr"}
            if isinstance(e.func, ast.Attribute) and e.func.attr in VIEW_METH:
                return {(p, k) for p, k in self.al(e.func.value) if k == "arr"}
            return set()
        if isinstance(e, ast.IfExp):
            return self.al(e.body) | self.al(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.al(v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.al(e.value)
        return set()

    def hit(self, node, places, how, kinds=("arr",)):
        for p, k in sorted(places, key=str):
            if k in kinds:
                root = p.split(".")[0].split("[")[0]
                self.hits.append((node.lineno, "%s changes %s in place" % (how, p), p, root))

    # -- statements -------------------------------------------------------------------------
    def bind(self, t, places):
        if isinstance(t, ast.Name):
            self.env[t.id] = set(places)
            for k in [k for k in self.env if k.startswith(t.id + ".")]:
                del self.env[k]
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                not any(p for p in self.al(t.value)):
            self.env[t.value.id + "." + t.attr] = {
                (p, k or self.attrs.of(t.attr)) for p, k in places}
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, set())

    def run(self, body):
        for s in body:
            self.stmt(s)

    def both(self, *bodies):
        start = {k: set(v) for k, v in self.env.items()}
        outs = []
        for b in bodies:
            self.env = {k: set(v) for k, v in start.items()}
            self.run(b)
            outs.append(self.env)
        self.env = {}
        for o in outs:
            for k, v in o.items():
                self.env.setdefault(k, set()).update(v)

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(s, ast.If):
            self.exprs(s.test)
            return self.both(s.body, s.orelse)
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.exprs(s.iter)
                self.loopvar(s.target, s.iter)
            else:
                self.exprs(s.test)
            for _ in range(2):
                self.both(s.body, [])
            return self.run(s.orelse)
        if isinstance(s, ast.Try):
            self.both(s.body, [])
            for h in s.handlers:
                self.both(h.body, [])
            self.run(s.orelse)
            return self.run(s.finalbody)
        if isinstance(s, ast.With):
            for i in s.items:
                self.exprs(i.context_expr)
            return self.run(s.body)
        if isinstance(s, ast.Assign):
            self.exprs(s.value)
            v = self.al(s.value)
            for t in s.targets:
                self.store(t)
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                        s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    for x, y in zip(t.elts, [self.al(y) for y in s.value.elts]):
                        self.bind(x, y)
                else:
                    self.bind(t, v)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.exprs(s.value)
                self.store(s.target)
                self.bind(s.target, self.al(s.value))
            return
        if isinstance(s, ast.AugAssign):
            self.exprs(s.value)
            if isinstance(s.target, ast.Name):
                self.hit(s, self.al(s.target), "%s= on %s" % (type(s.op).__name__, s.target.id))
            elif isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) \
                    and s.target.value.id + "." + s.target.attr in self.env:
                self.hit(s, self.env[s.target.value.id + "." + s.target.attr],
                         "%s= on %s" % (type(s.op).__name__, ast.unparse(s.target)),
                         ("arr", "list", "set", "dict"))
            else:
                self.store(s.target)
            return
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.exprs(x)

    def loopvar(self, t, it):
        b = self.al(it)
        if isinstance(t, ast.Name):
            self.env[t.id] = {(p + "[]", None) for p, k in b}
        else:
            self.bind(t, set())

    def store(self, t):
        """Element assignment."""
        if isinstance(t, ast.Subscript):
            self.hit(t, self.local(t.value), "assignment to %s" % ast.unparse(t)[:40])
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x)

    def local(self, e):
        """Aliases not already visible to the write-effect analysis: views of arrays and
        containers held by an object built here."""
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and \
                e.value.id + "." + e.attr in self.env:
            return {(p, "arr") for p, k in self.al(e) if k}
        return self.al(e)

    def exprs(self, e):
        for x in ast.walk(e):
            if not isinstance(x, ast.Call):
                continue
            n = self.q(x.func)
            if n in INPLACE_FUN and x.args:
                self.hit(x, self.al(x.args[0]), n, ("arr", "list"))
            for k in x.keywords:
                if k.arg == "out":
                    self.hit(x, self.al(k.value), "out=")
            if isinstance(x.func, ast.Attribute):
                m = x.func.attr
                if m in INPLACE_METH:
                    self.hit(x, self.al(x.func.value), "." + m)
                if m in LIST_METH and isinstance(x.func.value, ast.Attribute) and isinstance(
                        x.func.value.value, ast.Name):
                    key = x.func.value.value.id + "." + x.func.value.attr
                    if key in self.env:
                        self.hit(x, self.env[key], "." + m, ("arr", "list", "set", "dict"))


def findings(f, attrs):
    w = Walk(f, attrs)
    w.run(f.node.body)
    out = {}
    for line, text, place, root in w.hits:
        out.setdefault(place, (line, text, root))
    return out


@rule("C20")
def in_place(X, tier):
    ar, ac = Attrs(X.ref), Attrs(X.cur)
    for k, f in sorted(X.cur.funcs.items()):
        if not isinstance(f.node, ast.FunctionDef):
            continue
        g = X.ref.funcs.get(k)
        known = findings(g, ar) if g is not None and isinstance(g.node, ast.FunctionDef) else {}
        bad = []
        for place, (line, text, root) in findings(f, ac).items():
            if place in known:
                continue
            mut = f.name in ("__setitem__", "__init__", "__post_init__") and root == \
                f.node.args.args[0].arg
            if not mut:
                bad.append((line, text, place))
        for line, text, place in bad:
            yield Ob("%s-changes-%s-through-an-alias" % (k, place), VIOLATED,
                     "%s:%d" % (f.mod.rel, line), [text])
        if not bad:
            yield Ob("%s in-place updates" % k, HOLDS, f.loc)


# -- results that are the argument itself ---------------------------------------------------
@rule("C20")
def fresh_results(X, tier):
    """A function whose every result is a newly built container does not start returning its
    argument."""
    import law_effects as E
    for k, f in sorted(X.cur.funcs.items()):
        g = X.ref.funcs.get(k)
        if g is None:
            continue
        a, b = E.summ(X, "ref", g)[0], E.summ(X, "cur", f)[0]
        if isinstance(a, str) or isinstance(b, str) or a is b:
            continue
        la, lb = leaves(E.values(a)), leaves(E.values(b))
        kinds = {x.op for x in la}
        if not la or not kinds <= {"list", "dict", "set", "newof", "setitem", "mut"} and not all(
                built(x) for x in la):
            continue
        bad = [x for x in lb if E.root_of(x) is not None and x not in la
               and x.ty not in ("int", "num", "str", "bool", "tuple")]
        for x in bad:
            yield Ob("%s-returns-%s-itself" % (k, C.show(x, 5, 50).replace(" ", "")), VIOLATED,
                     f.loc, ["the result is %s itself, where a new object is required: changing "
                             "one changes the other" % C.show(x, 5, 80)])


def built(t):
    return t.op in ("list", "dict", "set", "setitem", "mut") or t.op == "call" and \
        t.a[0].op == "glob" and t.a[0].a[0].split("/")[-1].lstrip("~_")[:1].isupper()


def leaves(vs):
    out = set()
    for v in vs:
        out |= set(C.leaves_of(v)) if v.op == "ite" else {v}
    return out

"""Small in-place edits of one function.

Used only where the value graphs of a function differ and no rule of diff.py interprets the
difference.  The two syntax trees are aligned; when they agree everywhere except at one or
two sites, and the edit at every site is of a kind that changes the value computed there
(other operator, other constant, other variable, argument dropped, wrapper added, update
deleted, ...), the difference is real: the graphs are known to differ, nothing else in the
function was rewritten that could make up for it, and no helper it uses was changed.
"""
from __future__ import annotations

import ast

import diff as D

MAX_SITES = 2
# interchangeable spellings: an edit inside a group proves nothing
SAME = [
    {"abs", "numpy.abs", "numpy.absolute", "math.fabs"},
    {"sum", "numpy.sum", "math.fsum"}, {"max", "numpy.max", "numpy.amax"},
    {"min", "numpy.min", "numpy.amin"}, {"round", "numpy.round", "numpy.around", "numpy.rint"},
    {"list", "tuple", "iter", "numpy.array", "numpy.asarray", "numpy.ascontiguousarray",
     "copy.copy", "copy.deepcopy", "numpy.copy"},
    {"dict", "collections.OrderedDict", "collections.defaultdict", "collections.Counter"},
    {"set", "frozenset"}, {"int", "float", "complex", "str", "bool", "numpy.float64"},
    {"numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot", "numpy.einsum"},
    {"numpy.conj", "numpy.conjugate"}, {"range", "numpy.arange"},
    {"isinstance", "issubclass", "type"}, {"any", "numpy.any"}, {"all", "numpy.all"},
    {"math.isclose", "numpy.isclose", "numpy.allclose"},
    {"math.log", "numpy.log"}, {"math.exp", "numpy.exp"}, {"math.sqrt", "numpy.sqrt"},
    {"math.floor", "numpy.floor", "int"}, {"math.ceil", "numpy.ceil"},
    {"math.prod", "numpy.prod"},
]
FUN_FAMILIES = D.FAMILIES + [
    {"any", "all"}, {"sum", "max", "min", "len"}, {"sorted", "reversed", "list", "set", "tuple"},
    {"numpy.floor", "numpy.round", "numpy.ceil", "numpy.around", "numpy.trunc"},
    {"math.floor", "math.ceil", "round"},
    {"numpy.real", "numpy.imag", "numpy.abs", "numpy.conj", "numpy.angle"},
    {"numpy.kron", "numpy.dot", "numpy.outer"}, {"sympy.sin", "sympy.cos", "sympy.tan"},
    {"numpy.log", "numpy.exp", "numpy.sqrt", "numpy.log2", "numpy.log10", "numpy.log1p"},
    {"math.log", "math.exp", "math.sqrt", "math.log2", "math.log10"},
    {"numpy.isclose", "operator.eq"}, {"operator.add", "operator.mul", "operator.sub",
                                       "operator.matmul", "operator.pow"},
    {"numpy.argmax", "numpy.argmin", "numpy.argsort"}, {"numpy.sort", "numpy.flip"},
    {"numpy.var", "numpy.std", "numpy.mean", "numpy.cov"},
]
METH_FAMILIES = [
    {"conj", "transpose", "adjoint", "dagger", "inv", "pinv"}, {"conjugate", "transpose", "T",
                                                                "H", "adjoint", "inv"},
    {"row", "col"}, {"rstrip", "lstrip", "strip"}, {"union", "intersection", "difference",
                                                     "symmetric_difference"},
    {"add", "discard", "remove"}, {"append", "insert", "extend", "appendleft"},
    {"upper", "lower"}, {"startswith", "endswith"}, {"keys", "values"}, {"real", "imag"},
    {"real", "conj"}, {"max", "min", "sum", "mean", "prod"}, {"any", "all"},
    {"issubset", "issuperset", "isdisjoint"}, {"zfill", "ljust", "rjust"},
    {"popleft", "pop"}, {"rows", "cols"}, {"split", "rsplit"}, {"find", "rfind"},
]
NEUTRAL_FUN = {"list", "tuple", "iter", "dict", "int", "float", "complex", "str", "bool",
               "numpy.array", "numpy.asarray", "copy.copy", "copy.deepcopy", "cast",
               "typing.cast", "numpy.ascontiguousarray", "range", "enumerate", "zip", "map",
               "filter", "numpy.atleast_1d", "sympy.sympify", "sympy.Matrix", "frozenset",
               "numpy.float64", "numpy.complex128", "numpy.int64", "next", "repr", "format",
               "numpy.squeeze", "reversed", "bytes", "type", "isinstance", "print", "super"}
NEUTRAL_METH = {"copy", "tolist", "items", "keys", "values", "astype", "reshape", "flatten",
                "ravel", "doit", "evalf", "get", "format", "item", "setdefault", "update",
                "squeeze", "encode", "decode", "read", "write", "view", "toarray"}
NEUTRAL_KW = D.NEUTRAL_KW | {"copy", "order", "kind", "check", "key_type", "out", "strict",
                             "evaluate", "sparse", "name", "message", "msg"}
ORDERED = (ast.Sub, ast.Div, ast.Pow, ast.FloorDiv, ast.Mod, ast.MatMult, ast.LShift, ast.RShift)


class Giveup(Exception):
    pass


def canon(n):
    for g in SAME:
        if n in g:
            return min(g)
    return n


class Aligner:
    def __init__(self, X, fr, fc):
        self.X, self.fr, self.fc = X, fr, fc
        self.map, self.inv = {}, {}
        self.sites = []
        self.locals_r = stores(fr.node)
        self.locals_c = stores(fc.node)

    def q(self, node, cur):
        f = self.fc if cur else self.fr
        base = node
        while isinstance(base, ast.Attribute):
            base = base.value
        if isinstance(base, ast.Name) and base.id in (self.locals_c if cur else self.locals_r):
            return None
        r = f.mod.resolve(node)
        if r and r.startswith("orquestra."):
            p = self.X.cur if cur else self.X.ref
            k = p.key_of(r)
            return "~" + k.lstrip("~") if k else r
        return r

    # -- traversal ------------------------------------------------------------
    def eq(self, a, b):
        """Equal up to the renaming of local names built so far."""
        if type(a) is not type(b):
            return False
        if isinstance(a, ast.Name):
            return self.name(a, b)
        if isinstance(a, ast.arg):
            return self.ident(a.arg, b.arg)
        if isinstance(a, ast.Constant):
            return type(a.value) is type(b.value) and a.value == b.value
        for f in a._fields:
            if f in ("ctx", "annotation", "returns", "type_comment", "kind", "type_params"):
                continue
            x, y = getattr(a, f, None), getattr(b, f, None)
            if isinstance(x, list):
                if not isinstance(y, list) or len(x) != len(y):
                    return False
                if not all(self.eq(p, q) if isinstance(p, ast.AST) else p == q
                           for p, q in zip(x, y)):
                    return False
            elif isinstance(x, ast.AST):
                if not isinstance(y, ast.AST) or not self.eq(x, y):
                    return False
            elif x != y:
                return False
        return True

    def ident(self, n, m):
        lr, lc = n in self.locals_r, m in self.locals_c
        if lr != lc:
            return False
        if not lr:
            return n == m
        if self.map.get(m, n) == n and self.inv.get(n, m) == m:
            if n == m or (m not in self.map and n not in self.inv):
                self.map[m], self.inv[n] = n, m
            return True
        return False

    def name(self, a, b):
        lr, lc = a.id in self.locals_r, b.id in self.locals_c
        if lr != lc:
            return False
        if not lr:
            return self.q(a, False) == self.q(b, True) and a.id == b.id or \
                self.q(a, False) is not None and self.q(a, False) == self.q(b, True)
        n, m = a.id, b.id
        if n == m and self.map.get(m, n) == n and self.inv.get(n, m) == m:
            return True
        return self.map.get(m) == n

    def premap(self, a, b):
        """Collect renamings of local names from the definitions both sides have."""
        xs = [x.id for x in walk_stores(a)]
        ys = [y.id for y in walk_stores(b)]
        common = set(xs) & set(ys)
        for n in common:
            self.map[n] = n
            self.inv[n] = n
        xs = dict.fromkeys(x for x in xs if x not in common)
        ys = dict.fromkeys(y for y in ys if y not in common)
        if len(xs) == len(ys):
            for x, y in zip(xs, ys):
                self.map[y] = x
                self.inv[x] = y
        elif ys:
            raise Giveup

    def site(self, why):
        """why: reason string, or None when the edit proves nothing."""
        if why is None:
            raise Giveup
        self.sites.append(why)
        if len(self.sites) > MAX_SITES:
            raise Giveup

    def go(self, a, b):
        if a is None and b is None:
            return
        if a is None or b is None or not isinstance(a, ast.AST):
            if a != b:
                self.site(None)
            return
        if self.eq(a, b):
            return
        if type(a) is not type(b):
            self.cross(a, b)
            return
        h = getattr(self, "n_" + type(a).__name__, None)
        if h is not None:
            h(a, b)
            return
        self.fields(a, b)

    def fields(self, a, b, skip=()):
        for f in a._fields:
            if f in ("ctx", "annotation", "returns", "type_comment", "kind", "type_params",
                     "decorator_list") or f in skip:
                continue
            x, y = getattr(a, f, None), getattr(b, f, None)
            if isinstance(x, list) or isinstance(y, list):
                self.lists(x or [], y or [], a, f)
            elif isinstance(x, ast.AST) or isinstance(y, ast.AST):
                if x is None or y is None:
                    self.optional(x, y, a, f)
                else:
                    self.go(x, y)
            elif x != y:
                self.site(None)

    def lists(self, xs, ys, parent, field):
        i = 0
        while i < len(xs) and i < len(ys) and self.eq(xs[i], ys[i]):
            i += 1
        j = 0
        while j < len(xs) - i and j < len(ys) - i and self.eq(xs[-1 - j], ys[-1 - j]):
            j += 1
        xa, xb = xs[i:len(xs) - j], ys[i:len(ys) - j]
        if not xa and not xb:
            return
        if len(xa) == len(xb):
            if len(xa) > 1 and sorted(map(ast.dump, xa)) == sorted(map(ast.dump, xb)):
                self.site(None if isinstance(xa[0], ast.stmt) else "%s in a different order" % field)
                return
            for x, y in zip(xa, xb):
                self.go(x, y)
            return
        lost = not xb
        if xa and xb:
            if len(xa) + len(xb) > 3:
                raise Giveup
            # one element replaced by two, or two by one
            raise Giveup
        for x in (xa or xb):
            self.inserted(x, parent, field, lost)

    def inserted(self, x, parent, field, lost):
        v = "no longer performed" if lost else "added"
        if isinstance(x, ast.stmt):
            if isinstance(x, ast.AugAssign):
                return self.site("update %s %s" % (ast.unparse(x)[:60], v))
            if isinstance(x, ast.Raise):
                return self.site("exception %s" % v)
            if isinstance(x, ast.If) and len(x.body) == 1 and isinstance(x.body[0], ast.Raise) \
                    and not x.orelse and lost:
                return self.site("check %s no longer performed" % ast.unparse(x.test)[:60])
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                c = x.value
                if isinstance(c.func, ast.Attribute) and c.func.attr in (
                        "append", "add", "extend", "remove", "discard", "insert", "pop",
                        "popleft", "sort", "reverse", "clear"):
                    return self.site("%s %s" % (ast.unparse(c)[:60], v))
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                    x.targets[0], (ast.Subscript, ast.Attribute)):
                return self.site("assignment %s %s" % (ast.unparse(x)[:60], v))
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                    x.targets[0], ast.Name) and self.changes(x.value, x.targets[0]):
                return self.site("assignment %s %s" % (ast.unparse(x)[:60], v))
            return self.site(None)
        if field == "ifs":
            return self.site("filter %s %s" % (ast.unparse(x)[:60], "lost" if lost else "added"))
        if isinstance(x, ast.keyword):
            if x.arg in NEUTRAL_KW or x.arg is None or trivial(x.value):
                return self.site(None)
            return self.site("argument %s %s" % (x.arg, "lost" if lost else "added"))
        if field == "args" and isinstance(parent, ast.Call):
            q = self.q(parent.func, False)
            if trivial(x) or q in ("range", "enumerate", "print", "round", "zip", "getattr",
                                   "next", "isinstance", "type", "sum", "reduce"):
                return self.site(None)
            if isinstance(x, (ast.List, ast.Tuple, ast.Dict)) and not any(
                    x.keys if isinstance(x, ast.Dict) else x.elts):
                return self.site(None)
            return self.site("argument %s %s" % (ast.unparse(x)[:40], "lost" if lost else "added"))
        if field == "values" and isinstance(parent, ast.BoolOp):
            return self.site("condition %s %s" % (ast.unparse(x)[:60],
                                                  "lost" if lost else "added"))
        if field == "elts":
            return self.site("element %s %s" % (ast.unparse(x)[:40],
                                                "lost" if lost else "added"))
        return self.site(None)

    def changes(self, v, target):
        """Does `target = v` give target another value (v built from target)?"""
        return isinstance(v, ast.Call) and self.wraps(v, target) is not None

    def optional(self, x, y, parent, field):
        z = x or y
        if isinstance(parent, ast.Slice):
            if field == "lower" and isinstance(z, ast.Constant) and z.value == 0 or \
                    field == "step" and isinstance(z, ast.Constant) and z.value == 1 or \
                    isinstance(z, ast.Constant) and z.value is None or \
                    field == "upper" and not isinstance(z, (ast.Constant, ast.UnaryOp)):
                return self.site(None)
            return self.site("slice bound %s" % ("lost" if y is None else "added"))
        return self.site(None)

    # -- nodes ------------------------------------------------------------------
    def n_Constant(self, a, b):
        u, v = a.value, b.value
        if isinstance(u, (int, float, complex)) and isinstance(v, (int, float, complex)):
            return self.site(None if u == v else "constant %r instead of %r" % (v, u))
        if isinstance(u, str) and isinstance(v, str):
            return self.site("string %r instead of %r" % (v[:30], u[:30]))
        return self.site(None)

    def n_Name(self, a, b):
        qa, qb = self.q(a, False), self.q(b, True)
        if qa is None and qb is None and a.id in self.locals_r and b.id in self.locals_c:
            if b.id not in self.map:
                return self.site(None)
            return self.site("variable %s instead of %s" % (b.id, self.inv.get(a.id, a.id)))
        return self.site(self.other(qa, qb))

    def other(self, qa, qb):
        """Two global names: why they denote different things."""
        if not qa or not qb:
            return None
        if canon(qa) == canon(qb):
            return None
        if qa.startswith("~") and qb.startswith("~"):
            n = self.X.vocab["names"]
            if qa[1:] in n and qb[1:] in n:
                return "%s instead of %s" % (qb[1:], qa[1:])
            return None
        if any(qa in f and qb in f for f in FUN_FAMILIES):
            return "%s instead of %s" % (qb, qa)
        return None

    def n_Attribute(self, a, b):
        qa, qb = self.q(a, False), self.q(b, True)
        if qa and qb and qa != qb and not (a.attr == b.attr):
            return self.site(self.other(qa, qb))
        if a.attr != b.attr:
            if not self.eq(a.value, b.value):
                return self.site(None)
            x, y = a.attr.strip("_"), b.attr.strip("_")
            if x == y:
                return self.site(None)
            at = self.X.vocab["attrs"]
            if a.attr in at and b.attr in at or any(x in f and y in f for f in METH_FAMILIES):
                return self.site(".%s instead of .%s" % (b.attr, a.attr))
            return self.site(None)
        self.go(a.value, b.value)

    def n_BinOp(self, a, b):
        if self.unwrap(a, b):
            return
        if type(a.op) is not type(b.op):
            if self.eq(a.left, b.left) and self.eq(a.right, b.right):
                return self.site("operator %s instead of %s" % (opname(b.op), opname(a.op)))
            return self.site(None)
        if self.eq(a.left, b.right) and self.eq(a.right, b.left):
            return self.site("operands exchanged" if isinstance(a.op, ORDERED) else None)
        self.fields(a, b)

    def n_AugAssign(self, a, b):
        if type(a.op) is not type(b.op):
            if self.eq(a.target, b.target) and self.eq(a.value, b.value):
                return self.site("operator %s instead of %s" % (opname(b.op), opname(a.op)))
            return self.site(None)
        self.fields(a, b)

    def n_UnaryOp(self, a, b):
        if type(a.op) is not type(b.op):
            return self.site(None)
        self.go(a.operand, b.operand)

    def n_BoolOp(self, a, b):
        if type(a.op) is not type(b.op):
            if len(a.values) == len(b.values) and all(map(self.eq, a.values, b.values)):
                return self.site("%s instead of %s" % (opname(b.op), opname(a.op)))
            return self.site(None)
        self.fields(a, b)

    def n_Compare(self, a, b):
        if len(a.ops) != 1 or len(b.ops) != 1:
            if len(a.ops) == len(b.ops) and all(type(x) is type(y)
                                                for x, y in zip(a.ops, b.ops)):
                return self.fields(a, b)
            return self.site(None)
        if type(a.ops[0]) is not type(b.ops[0]):
            x, y = type(a.ops[0]).__name__, type(b.ops[0]).__name__
            if not (self.eq(a.left, b.left) and self.eq(a.comparators[0], b.comparators[0])):
                return self.site(None)
            k = {x, y}
            if k <= {"Eq", "Is"} or k <= {"NotEq", "IsNot"}:
                return self.site(None)
            if any(isinstance(z, ast.Constant) for z in (a.left, a.comparators[0])) and (
                    k & {"Eq", "NotEq"}):
                if k not in ({"Eq", "NotEq"},):
                    return self.site(None)
            if k in ({"Eq", "LtE"}, {"Eq", "GtE"}, {"NotEq", "Lt"}, {"NotEq", "Gt"}):
                return self.site(None)
            return self.site("comparison %s instead of %s" % (y, x))
        if self.eq(a.left, b.comparators[0]) and self.eq(a.comparators[0], b.left):
            return self.site("comparison reversed" if type(a.ops[0]).__name__ in (
                "Lt", "LtE", "Gt", "GtE", "In", "NotIn") else None)
        self.fields(a, b)

    def n_Call(self, a, b):
        if self.unwrap(a, b):
            return
        if not self.eq(a.func, b.func):
            qa, qb = self.q(a.func, False), self.q(b.func, True)
            if isinstance(a.func, ast.Attribute) and isinstance(b.func, ast.Attribute) \
                    and not (qa and qb):
                self.go(a.func, b.func)
            else:
                self.site(self.other(qa, qb))
        pa = {k.arg: k for k in a.keywords}
        pb = {k.arg: k for k in b.keywords}
        self.lists(a.args, b.args, a, "args")
        for k in pa:
            if k not in pb:
                self.inserted(pa[k], a, "keywords", True)
            else:
                if k in NEUTRAL_KW and not self.eq(pa[k].value, pb[k].value):
                    self.site(None)
                self.go(pa[k].value, pb[k].value)
        for k in pb:
            if k not in pa:
                self.inserted(pb[k], b, "keywords", False)

    def n_Subscript(self, a, b):
        if self.unwrap(a, b):
            return
        self.fields(a, b)

    def n_Dict(self, a, b):
        if len(a.keys) == len(b.keys):
            for x, y in zip(a.keys, b.keys):
                self.go(x, y)
            for x, y in zip(a.values, b.values):
                self.go(x, y)
            return
        self.site(None)

    def n_JoinedStr(self, a, b):
        if len(a.values) == len(b.values):
            return self.fields(a, b)
        self.site("text changed")

    def n_FormattedValue(self, a, b):
        if a.conversion != b.conversion:
            return self.site(None)
        if not self.eq(a.value, b.value):
            self.go(a.value, b.value)
        fa, fb = a.format_spec, b.format_spec
        if fa is None or fb is None:
            if fa is not fb:
                self.site("format specification changed")
        else:
            self.go(fa, fb)

    def n_If(self, a, b):
        if self.eq(a.test, b.test):
            self.lists(a.body, b.body, a, "body")
            if a.orelse and not b.orelse and len(a.orelse) == 1 and isinstance(
                    a.orelse[0], ast.If) and all(isinstance(s, ast.Raise) for s in
                                                 a.orelse[0].body) and not a.orelse[0].orelse:
                return self.site("check %s no longer performed" %
                                 ast.unparse(a.orelse[0].test)[:60])
            self.lists(a.orelse, b.orelse, a, "orelse")
            return
        self.fields(a, b)

    def n_IfExp(self, a, b):
        if self.unwrap(a, b):
            return
        self.fields(a, b)

    def n_FunctionDef(self, a, b):
        self.fields(a, b, ("name",))

    def n_arguments(self, a, b):
        if not self.eq(a, b):
            # defaults are compared elsewhere
            xs = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            ys = [x.arg for x in b.posonlyargs + b.args + b.kwonlyargs]
            if xs != ys:
                raise Giveup

    # -- different kinds of node ----------------------------------------------
    def cross(self, a, b):
        if isinstance(a, ast.While) and isinstance(b, ast.If) and self.eq(a.test, b.test) \
                and not a.orelse and not b.orelse and not exits(a.body):
            self.site("loop executed at most once")
            return self.lists(a.body, b.body, a, "body")
        if isinstance(a, ast.stmt) or isinstance(b, ast.stmt):
            return self.cross_stmt(a, b)
        if self.unwrap(a, b):
            return
        kinds = {type(a).__name__, type(b).__name__}
        if kinds == {"ListComp", "SetComp"} or kinds == {"GeneratorExp", "SetComp"}:
            self.site("set instead of a sequence")
            return self.fields(a, b)
        if kinds <= {"ListComp", "GeneratorExp"}:
            self.fields(a, b)
            return
        self.site(None)

    def cross_stmt(self, a, b):
        """continue / break / pass / return exchanged."""
        k = {type(a).__name__, type(b).__name__}
        if k in ({"Continue", "Break"}, {"Break", "Pass"}, {"Continue", "Pass"}):
            return self.site("%s instead of %s" % (type(b).__name__.lower(),
                                                   type(a).__name__.lower()))
        # x = v  <->  x += v
        if k == {"Assign", "AugAssign"}:
            s, u = (a, b) if isinstance(a, ast.Assign) else (b, a)
            if len(s.targets) == 1 and self.eq2(s.targets[0], u.target, s is a) and \
                    self.eq2(s.value, u.value, s is a):
                return self.site("assignment confused with update")
        if isinstance(a, ast.Raise) or isinstance(b, ast.Raise):
            return self.site("exception %s" % ("lost" if isinstance(a, ast.Raise) else "added"))
        self.site(None)

    def eq2(self, x, y, straight):
        return self.eq(x, y) if straight else self.eq(y, x)

    def unwrap(self, a, b):
        """One side is an operation applied to the other."""
        for big, small, lost in ((a, b, True), (b, a, False)):
            w = self.wraps(big, small, lost)
            if w is not None:
                self.site("%s %s" % (w, "lost" if lost else "added") if w else None)
                return True
        return False

    def wraps(self, big, small, lost=True):
        def same(x):
            return self.eq(x, small) if lost else self.eq(small, x)
        if isinstance(big, ast.Call):
            q = self.q(big.func, not lost)
            if any(same(x) for x in big.args):
                if q is None or q in NEUTRAL_FUN or q.split(".")[-1] in ("Matrix", "cast"):
                    return ""
                if q in D.NONID_CALL or q in ("set", "numpy.unique", "max", "min", "any", "all"):
                    return q
                if q.startswith("~"):
                    return q[1:] if q[1:] in self.X.vocab["names"] else ""
                if len(big.args) == 2 and q in ("numpy.round", "numpy.around"):
                    return q
                return ""
            if isinstance(big.func, ast.Attribute) and same(big.func.value):
                m = big.func.attr
                if m in NEUTRAL_METH:
                    return ""
                if m in D.NONID_METH or m in self.X.vocab["methods"] or m == "round":
                    return "." + m
                return ""
        if isinstance(big, ast.Attribute) and same(big.value):
            if big.attr in self.X.vocab["inner"]:
                return ""
            if big.attr in D.NONID_ATTR or big.attr in self.X.vocab["fields"]:
                return "." + big.attr
            return ""
        if isinstance(big, ast.UnaryOp) and same(big.operand):
            return opname(big.op)
        if isinstance(big, ast.BinOp):
            for x, o in ((big.left, big.right), (big.right, big.left)):
                if same(x):
                    if isinstance(o, ast.Constant) and o.value in (0, 1, ""):
                        if not (isinstance(big.op, (ast.Add, ast.Sub)) and o.value == 1):
                            return ""
                    return "%s %s" % (opname(big.op), ast.unparse(o)[:40])
        if isinstance(big, ast.BoolOp) and len(big.values) == 2:
            for x, o in ((big.values[0], big.values[1]), (big.values[1], big.values[0])):
                if same(x):
                    return "condition %s" % ast.unparse(o)[:40]
        if isinstance(big, ast.IfExp) and (same(big.body) or same(big.orelse)):
            return "case distinction %s" % ast.unparse(big.test)[:40]
        if isinstance(big, ast.Subscript) and same(big.value):
            if isinstance(big.slice, ast.Slice) and all(
                    z is None for z in (big.slice.lower, big.slice.upper, big.slice.step)):
                return ""
            return "[%s]" % ast.unparse(big.slice)[:20]
        return None


def opname(o):
    return type(o).__name__


def trivial(v):
    return isinstance(v, ast.Constant) and v.value in (None, False, True, 0, 1, "")


def exits(body):
    return any(isinstance(x, (ast.Return, ast.Raise, ast.Break)) for s in body
               for x in ast.walk(s))


def walk_stores(node):
    todo = [node]
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            yield x
        todo.extend(reversed(list(ast.iter_child_nodes(x))))


def stores(node):
    out = {x.id for x in walk_stores(node)}
    for x in ast.walk(node):
        if isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, ast.FunctionDef) and x is not node:
            out.add(x.name)
    return out


def strip(node):
    b = node.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) \
            and isinstance(b[0].value.value, str):
        c = type(node)(**{f: getattr(node, f) for f in node._fields})
        c.body = b[1:] or [ast.Pass()]
        return c
    return node


def imports_local(node):
    return any(isinstance(x, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal))
               for x in ast.walk(node))


def edits(X, fr, fc):
    """Reasons, one per edit site, or [] when the two functions are not a small edit apart."""
    if not isinstance(fr.node, ast.FunctionDef) or not isinstance(fc.node, ast.FunctionDef):
        return []
    A = Aligner(X, fr, fc)
    a, b = strip(fr.node), strip(fc.node)
    try:
        A.premap(a, b)
        A.go(a, b)
    except (Giveup, RecursionError):
        return []
    return A.sites

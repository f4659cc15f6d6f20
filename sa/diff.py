"""Differences between two normalised value graphs.

``diff(a, b)`` (a: specification, b: current source) returns a list of Mismatch.  A
mismatch is *definite* when the two sub-terms denote different values by a rule below
(different constants, different inputs, swapped arguments, a lost exception, ...); it is
*undecided* when the two sides merely use different uninterpreted operations.
"""
from __future__ import annotations

import itertools

import core as C
import judge as J
from core import FALSE, NIL, NONE, ONE, TRUE, UNDEF, ZERO, T, raw


class Mismatch:
    __slots__ = ("a", "b", "definite", "why", "facts")

    def __init__(self, a, b, definite, why, facts=()):
        self.a, self.b, self.definite, self.why, self.facts = a, b, definite, why, facts

    @property
    def key(self):
        return (self.a, self.b, self.why)

    def __repr__(self):
        return "%s[%s | %s | %s]" % ("!" if self.definite else "?", self.why,
                                     C.show(self.a, 6, 200) if isinstance(self.a, T) else self.a,
                                     C.show(self.b, 6, 200) if isinstance(self.b, T) else self.b)


# functions that never return (a value equal to) one of their arguments in general
NONID_CALL = {"numpy.conj", "sorted", "abs", "numpy.abs", "numpy.floor", "numpy.ceil", "sqrt",
              "numpy.exp", "numpy.log", "numpy.log2", "numpy.sum", "numpy.prod", "reversed",
              "numpy.real", "numpy.imag", "sum", "len", "numpy.transpose", "sympy.sin",
              "sympy.cos", "sympy.exp", "numpy.sin", "numpy.cos", "round", "numpy.argsort",
              "numpy.cumsum", "numpy.sort", "numpy.flip", "bin", "numpy.mean",
              "math.factorial", "sympy.conjugate"}
NONID_METH = {"transpose", "conj", "conjugate", "adjoint", "getH", "dagger", "inverse", "power",
              "exp", "simplify", "lower", "upper", "controlled", "sort", "diagonal",
              "mean", "cumsum", "bind", "replace_params", "strip", "symmetric_difference"}
NONID_ATTR = {"dagger", "real", "imag", "H", "T"}
RECURSIVE = {"wrapped_gate", "gate", "operator", "circuit", "coefficient", "matrix",
             "inner_backend"}
NONID_OP = {"abs", "mod", "floordiv", "rev", "not", "invert", "len", "neg"}
FAMILIES = [
    {"max", "min"}, {"numpy.sin", "numpy.cos", "numpy.tan"},
    {"sympy.sin", "sympy.cos", "sympy.tan", "sympy.exp"},
    {"numpy.floor", "numpy.ceil", "round", "numpy.around", "int"},
    {"numpy.exp", "numpy.log", "numpy.log2", "numpy.log10", "sqrt", "numpy.sin", "numpy.cos"},
    {"numpy.zeros", "numpy.ones", "numpy.eye"},
    {"itertools.product", "itertools.permutations", "itertools.combinations"},
    {"numpy.sum", "numpy.prod", "numpy.mean"},
    {"numpy.max", "numpy.min"},
    {"numpy.abs", "numpy.real", "numpy.imag"},
    {"sympy.re", "sympy.im"},
    {"sympy.zeros", "sympy.eye", "sympy.ones"},
    {"ValueError", "TypeError"},
    {"random.sample", "random.choices"},
    {"collections.Counter", "set"},
]
ARITH = {"num", "poly", "mono", "bin", "pow"}
CONTAINERS = {"list", "tuple", "set", "seq", "dict", "it", "gen"}
NEUTRAL_OPS = {"list", "tuple", "dict", "it", "seq", "gen", "kw", "star", "cat", "fm", "key", "val",
               "item", "attr", "ite", "ret", "len", "lam", "fmt", "folditem", "accitem",
               "isinstance", "truth", "eq", "lt", "is", "in", "not", "any", "first",
               "intval", "unzip", "enter", "ev", "do", "eff", "keys", "values", "items"}
NEUTRAL_CALLS = {"int", "float", "complex", "bool", "str", "list", "tuple", "dict", "iter", "array",
                 "asarray", "copy", "deepcopy", "cast", "frozenset", "Matrix", "enumerate",
                 "zip", "map", "filter", "range", "sympify", "ascontiguousarray", "next"}
NEUTRAL_METHS = {"copy", "tolist", "items", "keys", "values", "astype", "reshape", "flatten",
                 "ravel", "get", "doit", "evalf", "read", "decode", "encode"}
GENERIC_METHS = {"get", "items", "keys", "values", "copy"}
TRUST_CALLS = {"sqrt", "numpy.sin", "numpy.cos", "numpy.exp", "numpy.log", "sympy.sin", "sympy.cos",
               "sympy.exp", "numpy.log2", "numpy.conj", "sympy.conjugate", "abs"}
NEUTRAL_KW = {"dtype", "encoding", "indent", "stacklevel", "category"}
NEUTRAL_VAL = {NONE, FALSE}
MAXM = 40


class Differ:
    def __init__(self, vocab):
        """vocab: names of functions/methods/fields known to the specification."""
        self.vocab = vocab
        self.memo = {}
        self.calls = 0
        self.limit = 60000

    # -- entry ------------------------------------------------------------
    def diff(self, a, b, facts=()):
        if a is b:
            return []
        self.calls += 1
        if self.calls > self.limit:
            return [Mismatch(a, b, False, "budget", facts)]
        key = (a, b)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = [Mismatch(a, b, False, "recursive")]
            try:
                r = mirrored(dedup(self._diff(a, b, facts)))
            except C.Unsupported:
                C.BUDGET[0] = max(C.BUDGET[0], 20000)
                r = [Mismatch(a, b, False, "budget")]
            self.memo[key] = r
        return r

    def yes(self, a, b, why):
        return [Mismatch(a, b, True, why)]

    def no(self, a, b, why="different operations"):
        if isinstance(a, T) and isinstance(b, T):
            w = self.judge(a, b)
            if w:
                return [Mismatch(a, b, True, w)]
        return [Mismatch(a, b, False, why)]

    # -- rules for terms of different shape ----------------------------------
    def judge(self, a, b):
        """Why a and b denote different values although no structural rule applies."""
        key = ("judge", a, b)
        if key in self.memo:
            return self.memo[key]
        try:
            r = self.judge1(a, b)
        except C.Unsupported:
            r = None
        self.memo[key] = r
        return r

    def judge1(self, a, b):
        if has_op(b, "unbound") and not has_op(a, "unbound"):
            return "uses a name that is not assigned"
        if a.op == "seq" and not a.a and b.op in ("it", "fm"):
            return None
        if unwrapped(a) is unwrapped(b):
            return None
        for x in (a, b):
            if any(z.op == "item" and z.a[0].op == "setitem" for z in J.subs(x)):
                return None         # (an element just stored, or another one)
        w = self.chain(a, b)
        if w:
            return "operation lost: " + w
        w = self.chain(b, a)
        if w:
            return "operation added: " + w
        pa, pb = self.arith(a), self.arith(b)
        if pa is not None and pb is not None and (a.op in ARITH or b.op in ARITH):
            if pa is pb:
                return None
            return self.poly_judge(pa, pb) or J.extra(self, a, b)
        if self.trusted(a) and self.trusted(b) and not (pa is not None and pa is pb):
            if a.op in CONTAINERS and b.op in CONTAINERS:
                return None
            if any(x is NONE and y.op in CONTAINERS and y.a == (C.NIL,)
                   for x, y in ((a, b), (b, a))):
                return None                     # (the way an empty default is written)
            if self.is_path(a) and self.is_path(b):
                return None
            return "different value"
        return J.extra(self, a, b)

    def chain(self, big, small):
        """small sits inside big below value-changing operations: their name."""
        if small.op in ("num", "const", "glob", "seq") or big.op in ("ite", "ret", "raise", "eff",
                                                                     "minof", "maxof"):
            return None
        if C.isconst(small):
            return None
        st = [(big, 0, None)]
        seen = set()
        while st:
            x, d, w = st.pop()
            if d > 4:
                continue
            for i, y in enumerate(x.a):
                if not isinstance(y, T):
                    continue
                if x.op == "call" and i == 0:
                    continue
                w2 = w or self.changes(x, y)
                if x.op == "setitem" and not w and x is not big:
                    w2 = None           # (read back through an index)
                if y is small:
                    if w2:
                        return w2
                    continue
                if y.op == "kw":
                    continue
                if (y, w2) not in seen:
                    seen.add((y, w2))
                    st.append((y, d + 1, w2))
        return None

    def changes(self, x, y):
        """Name of the operation x when its value differs from that of its operand y."""
        op = x.op
        if op in NEUTRAL_OPS:
            return None
        if op == "set":
            return "set"
        if op == "call":
            h = x.a[0]
            if h.op == "glob":
                n = h.a[0]
                if n.startswith("~"):
                    return n[1:]
                if n in ("int", "round") and (y.op == "attr" and y.a[1] in self.vocab.get(
                        "floats", ()) or J.stringy(y)) or n == "float" and J.stringy(y):
                    return n
                if n in NEUTRAL_CALLS or n.split(".")[-1] in NEUTRAL_CALLS:
                    return None
                return n if n in NONID_CALL else None
            return "call"
        if op == "meth":
            if x.a[0] in NEUTRAL_METHS:
                return None
            return "." + x.a[0] if x.a[0] in NONID_METH or x.a[0] in self.vocab["methods"] \
                else None
        if op in ("fold", "while"):
            return None if False else "loop"
        if op in ("mono", "poly", "bin", "pow", "matmul", "abs", "floordiv", "mod", "slice", "maxseq", "minseq",
                  "setitem", "delitem", "fsum", "sum"):
            return {"bin": str(x.a[0])}.get(op, op)
        return None

    def arith(self, t):
        """t as a polynomial where untyped operators are read as arithmetic, or None."""
        if t.op in ("list", "tuple", "dict", "set", "seq", "cat", "fm", "it", "lam", "ite",
                    "eq", "lt", "is", "in", "truth", "isinstance", "fmt", "ret", "raise", "eff",
                    "any", "kw", "star", "setitem", "gen", "ev", "do"):
            return None
        if t.op == "const" and not C.isnum(t):
            return None
        key = ("arith", t)
        if key not in self.memo:
            self.memo[key] = self.arith1(t)
        return self.memo[key]

    def arith1(self, t):
        if t.op == "bin" and t.a[0] in ("+", "-", "*", "/", "**"):
            if objectish(t.a[1]) or objectish(t.a[2]):
                return None
            x, y = self.arith(t.a[1]), self.arith(t.a[2])
            if x is None or y is None:
                return None
            o = t.a[0]
            if o == "+":
                return C.add(x, y)
            if o == "-":
                return C.sub(x, y)
            if o == "*":
                return C.mul(x, y)
            if o == "/":
                return C.div(x, y)
            return C.power(x, y)
        if t.op in ("poly", "mono"):
            m = {}
            for k in C._monos(t):
                for x, _ in k:
                    if x.op == "bin":
                        v = self.arith(x)
                        if v is None:
                            return None
                        m[x] = v
            return C.subst(t, m) if m else t
        return t

    def poly_judge(self, a, b):
        if has_op(a, "ite") or has_op(b, "ite"):
            return None
        d = C.sub(a, b)
        if C.isnum(d):
            return "off by a constant"
        if self.is_simple(d):
            return "term lost or added"
        ma, mb = C._monos(a), C._monos(b)
        aa = {x for k in ma for x, _ in k}
        ab = {x for k in mb for x, _ in k}
        ua, ub = aa - ab, ab - aa
        # coefficient of a loop variable
        for v in sorted((x for x in aa | ab if x.op == "var" and x.a[0][:2] in ("v~", "i~")
                         or x.op == "bv"), key=lambda t: t.d):
            if any(x is not v and C.occurs(x, v) for x in aa | ab):
                continue
            ca = {k: c for k, c in ma.items() if any(x is v for x, _ in k)}
            cb = {k: c for k, c in mb.items() if any(x is v for x, _ in k)}
            if ca != cb and all(len(k) == 1 for k in list(ca) + list(cb)):
                return "loop index used differently"
        if any(x.op in ("floordiv", "mod", "bin") for x in aa | ab):
            return None
        if all(self.trusted(x) for x in ua | ub):
            return "different expression"
        return None

    def is_simple(self, d):
        for k in C._monos(d):
            for x, _ in k:
                if not (self.is_path(x) or x.op in ("glob", "imag", "bv")
                        or x.op == "len" and self.is_path(x.a[0])):
                    return False
        return True

    def trusted(self, t, depth=0):
        """Is t built from operations whose equalities the normal form decides?"""
        key = ("trusted", t)
        if key not in self.memo:
            self.memo[key] = self.trusted1(t, depth)
        return self.memo[key]

    def trusted1(self, t, depth):
        if depth > 12:
            return False
        op = t.op
        if op in ("num", "const", "var", "bv", "glob", "imag"):
            return True
        kids = [x for x in t.a if isinstance(x, T)]
        if op == "call":
            h = t.a[0]
            if h.op == "glob":
                n = h.a[0]
                if not (n.startswith("~") or n in TRUST_CALLS):
                    return False
            elif not self.is_path(h):
                return False
        elif op == "meth":
            if t.a[0] not in self.vocab["methods"] or t.a[0] in GENERIC_METHS:
                return False
        elif op == "attr":
            if t.a[1] not in self.vocab["attrs"] and t.a[1] not in (
                    "real", "imag", "free_symbols", "name", "args", "T", "shape"):
                return False
        elif op not in ("item", "len", "poly", "mono", "pow", "kw", "list", "tuple", "seq", "it",
                        "neg", "abs", "key", "val", "star"):
            return False
        return all(self.trusted(x, depth + 1) for x in kids)

    def _diff(self, a, b, facts):
        if a.op == "ite" or b.op == "ite":
            return self.tree(a, b)
        if C.isconst(a) and C.isconst(b):
            return self.yes(a, b, "different constant")
        if a.op == "raise" or b.op == "raise":
            return self.outcome(a, b)
        if a.op == "ret" and b.op == "ret":
            return self.diff(a.a[0], b.a[0]) + self.diff(a.a[1], b.a[1])
        if a.op == "eff" and b.op == "eff":
            return self.effects(a, b)
        if self.numeric(a) and self.numeric(b):
            return self.poly(a, b)
        r = self.path_rule(a, b)
        if r is not None:
            return r
        r = self.wrap_rule(a, b)
        if r is not None:
            return r
        if {a.op, b.op} <= {"cat", "seq", "fm", "it"}:
            return self.seqs(a, b)
        if a.op == b.op:
            f = getattr(self, "d_" + a.op, None)
            if f is not None:
                return f(a, b)
            if a.op in C.BINDERS:
                return self.binder(a, b)
            return self.generic(a, b)
        return self.cross(a, b)

    def numeric(self, t):
        return t.op in ("num", "poly", "mono") or C.numy(t) and t.ty != "arr" and t.ty != "bool"

    # -- generic ----------------------------------------------------------
    def generic(self, a, b):
        if len(a.a) != len(b.a):
            return self.no(a, b, "arity")
        out = []
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                out += self.diff(x, y)
            elif x != y:
                return self.no(a, b, "different operation")
        if len(out) >= 2:
            xs = [x for x in a.a if isinstance(x, T)]
            ys = [y for y in b.a if isinstance(y, T)]
            if sorted(x.d for x in xs) == sorted(y.d for y in ys):
                return self.yes(a, b, "operands in a different order")
        return out

    def pair_args(self, xs, ys, a, b):
        out = []
        for x, y in zip(xs, ys):
            out += self.diff(x, y)
        if len(out) >= 2 and sorted(x.d for x in xs) == sorted(y.d for y in ys):
            return self.yes(a, b, "arguments in a different order")
        return out

    # -- paths and inputs ---------------------------------------------------
    def is_path(self, t):
        while True:
            if t.op == "var":
                return t.a[0][:1] not in ("&", "%")
            if t.op == "attr" and t.a[1] in self.vocab["fields"]:
                t = t.a[0]
            elif t.op == "item" and C.isconst(t.a[1]):
                t = t.a[0]
            else:
                return False

    def prefix(self, p, q):
        while q.op in ("attr", "item"):
            q = q.a[0]
            if q is p:
                return True
        return False

    def path_rule(self, a, b):
        pa, pb = self.is_path(a), self.is_path(b)
        if pa and pb:
            if self.prefix(a, b) or self.prefix(b, a):
                if a.op == "var" and b.op == "item" or b.op == "var" and a.op == "item":
                    return self.yes(a, b, "different input")
                big, small = (a, b) if self.prefix(b, a) else (b, a)
                if big.op == "attr" and big.a[0] is small and (
                        big.a[1] in NONID_ATTR or big.a[1] in RECURSIVE):
                    return self.yes(a, b, "." + big.a[1] + (
                        " lost" if big is a else " added"))
                return self.no(a, b, "different input path")
            if a.op == "var" and b.op == "var":
                return self.yes(a, b, "different input")
            if a.op == "attr" and b.op == "attr":
                if a.a[1] == b.a[1]:
                    return self.diff(a.a[0], b.a[0])
                if a.a[0] is b.a[0]:
                    return self.yes(a, b, "different attribute")
                return self.no(a, b, "different input path")
            if a.op == "item" and b.op == "item":
                return self.generic(a, b)
            return self.yes(a, b, "different input") if self.root(a) is not self.root(b) \
                else self.no(a, b, "different input path")
        if pa and C.isconst(b) or pb and C.isconst(a):
            return self.yes(a, b, "input replaced by a constant" if pa else
                            "constant replaced by an input")
        return None

    def root(self, t):
        while t.op in ("attr", "item"):
            t = t.a[0]
        return t

    # -- wrappers -----------------------------------------------------------
    def nonid(self, t):
        """Children t is known not to be equal to in general."""
        if t.op == "call" and t.a[0].op == "glob":
            n = t.a[0].a[0]
            if n in NONID_CALL:
                return [x for x in t.a[1:] if isinstance(x, T)]
            return []
        if t.op == "meth" and t.a[0] in NONID_METH:
            return [t.a[1]]
        if t.op == "attr" and t.a[1] in NONID_ATTR:
            return [t.a[0]]
        if t.op in NONID_OP:
            return [x for x in t.a if isinstance(x, T)]
        if t.op == "slice":
            return [t.a[0]]
        if t.op in ("maxof", "minof", "maxseq", "minseq"):
            return [x for x in t.a if isinstance(x, T)]
        if t.op == "bin" and t.a[0] in ("*", "+", "-", "/", "**", "%"):
            return [t.a[1], t.a[2]]
        if t.op == "matmul":
            return list(t.a)
        if t.op in ("setitem", "delitem", "mut", "setattr"):
            return [x for x in t.a[:2] if isinstance(x, T)]
        return []

    def wrap_rule(self, a, b):
        for x in (a, b):
            if x.op == "minof" and all(isinstance(y, T) and y.op == "len" for y in x.a) \
                    and (b if x is a else a) in x.a:
                # zip() against indexing: the lengths are usually equal
                return self.no(a, b, "different length")
        if any(x is b for x in self.nonid(a)):
            return self.yes(a, b, "operation lost")
        if any(x is a for x in self.nonid(b)):
            return self.yes(a, b, "operation added")
        return None

    # -- calls --------------------------------------------------------------
    def split(self, args):
        pos, kw = [], {}
        for x in args:
            if x.op == "kw":
                kw[x.a[0]] = x.a[1]
            else:
                pos.append(x)
        return pos, kw

    def args(self, xs, ys, a, b):
        p1, k1 = self.split(xs)
        p2, k2 = self.split(ys)
        if any(x.op == "star" for x in p1 + p2):
            if len(p1) != len(p2):
                return self.no(a, b, "star arguments")
        out = []
        if len(p1) == len(p2):
            out += self.pair_args(p1, p2, a, b)
        else:
            m = min(len(p1), len(p2))
            out += self.pair_args(p1[:m], p2[:m], a, b)
            rest = p1[m:] or p2[m:]
            if all(x in NEUTRAL_VAL for x in rest):
                out += self.no(a, b, "optional argument")
            else:
                out += self.yes(a, b, "different number of arguments")
        for k in sorted(set(k1) | set(k2)):
            if k in k1 and k in k2:
                out += self.diff(k1[k], k2[k])
            else:
                v = k1.get(k, k2.get(k))
                if k in NEUTRAL_KW or v in NEUTRAL_VAL:
                    out += self.no(a, b, "keyword " + k)
                else:
                    out += self.yes(a, b, "keyword argument %s %s" % (
                        k, "lost" if k in k1 else "added"))
        return out

    def d_call(self, a, b):
        h1, h2 = a.a[0], b.a[0]
        if h1 is h2:
            return self.args(a.a[1:], b.a[1:], a, b)
        if h1.op == "glob" and h2.op == "glob":
            r = self.distinct(h1.a[0], h2.a[0])
            if r:
                rest = self.args(a.a[1:], b.a[1:], a, b)
                if not rest or all(m.definite for m in rest) and len(rest) <= 1:
                    return self.yes(a, b, "calls %s instead of %s" % (
                        short(h2.a[0]), short(h1.a[0])))
            return self.no(a, b, "different function")
        if h1.op == h2.op:
            return self.diff(h1, h2) + self.args(a.a[1:], b.a[1:], a, b)
        return self.no(a, b, "different function")

    def distinct(self, n1, n2):
        if n1.startswith("~") and n2.startswith("~"):
            return n1[1:] in self.vocab["names"] and n2[1:] in self.vocab["names"]
        for f in FAMILIES:
            if n1 in f and n2 in f:
                return True
        return False

    def d_glob(self, a, b):
        n1, n2 = a.a[0], b.a[0]
        if self.distinct(n1, n2):
            return self.yes(a, b, "%s instead of %s" % (short(n2), short(n1)))
        bt = {"int", "float", "complex", "str", "bool", "list", "tuple", "dict", "set"}
        if n1 in bt and n2 in bt:
            return self.yes(a, b, "%s instead of %s" % (n2, n1))
        return self.no(a, b, "different global")

    def d_meth(self, a, b):
        if a.a[0] == b.a[0]:
            r0 = self.diff(a.a[1], b.a[1])
            r1 = self.args(a.a[2:], b.a[2:], a, b)
            if len(r0) + len(r1) >= 2 and sorted(x.d for x in a.a[1:]) == sorted(
                    x.d for x in b.a[1:]):
                return self.yes(a, b, "receiver and argument exchanged")
            return r0 + r1
        if a.a[1] is b.a[1] and a.a[0] in self.vocab["methods"] and \
                b.a[0] in self.vocab["methods"]:
            return self.yes(a, b, "calls .%s instead of .%s" % (b.a[0], a.a[0]))
        fams = [{"sum", "mean", "prod"}, {"upper", "lower"}, {"conj", "transpose"},
                {"union", "intersection", "symmetric_difference", "difference"},
                {"rstrip", "lstrip"}, {"max", "min"}, {"startswith", "endswith"}]
        if a.a[1] is b.a[1] and any(a.a[0] in f and b.a[0] in f for f in fams):
            return self.yes(a, b, "calls .%s instead of .%s" % (b.a[0], a.a[0]))
        return self.no(a, b, "different method")

    def d_attr(self, a, b):
        if a.a[1] == b.a[1]:
            return self.diff(a.a[0], b.a[0])
        if a.a[0] is b.a[0] and a.a[1] in self.vocab["attrs"] and b.a[1] in self.vocab["attrs"]:
            return self.yes(a, b, "attribute .%s instead of .%s" % (b.a[1], a.a[1]))
        return self.no(a, b, "different attribute")

    def d_bin(self, a, b):
        if a.a[0] == b.a[0]:
            x1, y1, x2, y2 = a.a[1], a.a[2], b.a[1], b.a[2]
            if x1 is y2 and y1 is x2:
                if a.a[0] in ("-", "/", "**", "*", "%") and not (
                        a.a[0] == "*" and (J.scalar(x1) or J.scalar(y1))):
                    return self.yes(a, b, "operands exchanged")
                return self.no(a, b, "operands exchanged")
            return self.diff(x1, x2) + self.diff(y1, y2)
        if a.a[1] is b.a[1] and a.a[2] is b.a[2]:
            return self.yes(a, b, "operator %s instead of %s" % (b.a[0], a.a[0]))
        if a.a[1] is b.a[2] and a.a[2] is b.a[1]:
            return self.yes(a, b, "operator %s instead of %s" % (b.a[0], a.a[0]))
        return self.no(a, b, "different operator")

    def d_fmt(self, a, b):
        if len(a.a) == len(b.a):
            return self.generic(a, b)
        return self.seq_align(list(a.a), list(b.a), a, b)

    def d_const(self, a, b):
        return self.yes(a, b, "different constant")

    def d_lam(self, a, b):
        if a.a[1] != b.a[1] and len(a.a[1]) != len(b.a[1]):
            return self.no(a, b, "different function value")
        return self.binder(a, b)

    def binder(self, a, b):
        if len(a.a[1]) != len(b.a[1]) or len(a.a) != len(b.a):
            return self.no(a, b, "different binder")
        vs = [C.fresh(t1 if t1 == t2 else (t1 or t2)) for t1, t2 in zip(a.a[1], b.a[1])]
        ma = {raw("bv", a.a[0], j, t): v for j, (t, v) in enumerate(zip(a.a[1], vs))}
        mb = {raw("bv", b.a[0], j, t): v for j, (t, v) in enumerate(zip(b.a[1], vs))}
        xs = [C.subst(x, ma) for x in a.a[2:] if isinstance(x, T)]
        ys = [C.subst(y, mb) for y in b.a[2:] if isinstance(y, T)]
        out = []
        for x, y in zip(xs, ys):
            out += self.diff(x, y)
        if a.op == "fm" and len(xs) == 2 and xs[0] is not ys[0] and all(
                z.op == "seq" and len(z.a) == 1 for z in (xs[1], ys[1])):
            # sequences of different lengths differ whatever their elements
            dom = self.diff(xs[0], ys[0])
            if dom and all(m.definite and not J.unrelated(m) for m in dom) and any(not m.definite for m in out):
                return dom
        if a.op in ("fm", "fold") and out and xs[0] is not ys[0] and any(
                C.occurs(at, v)
                for v in vs for z in xs[-1:] + ys[-1:] if z.op == "ite"
                for at in C.atoms_of(z)):
            # some iterations are treated separately on one side: the number of iterations
            # and the body compensate each other
            x, y = xs[-1], ys[-1]
            if (x.op == "ite") != (y.op == "ite"):
                out = [Mismatch(m.a, m.b, False, m.why + " (iterations treated separately)",
                                m.facts) for m in out]
        return out

    def d_folditem(self, a, b):
        f, g = a.a[0], b.a[0]
        if f.op == g.op == "fold" and isinstance(b.a[1], int):
            r = aligned(f, g, a.a[1], b.a[1])
            if r is not None and r is not b:
                return self.carried(a, r)
            r = aligned(g, f, b.a[1], a.a[1])
            if r is not None and r is not a:
                return self.carried(r, b)
        return self.generic(a, b)

    def carried(self, a, b):
        if a is b:
            return []
        ms = self.generic(a, b)
        ok = [m for m in ms if "%carried" not in m.a.fv | m.b.fv]
        return ok or [Mismatch(m.a, m.b, False, m.why, m.facts) for m in ms] \
            or self.no(a, b, "carried differently")

    # -- sequences ------------------------------------------------------------
    def parts(self, S):
        if S.op == "cat":
            out = []
            for p in S.a:
                out += self.parts(p)
            return out
        if S.op == "seq":
            return [raw("seq", e) for e in S.a]
        return [S]

    def seqs(self, a, b):
        if a.op == "fm" and b.op == "it":
            b = self.unit(b)
        elif b.op == "fm" and a.op == "it":
            a = self.unit(a)
        if a.op == "fm" and b.op == "fm":
            return self.binder(a, b)
        if a.op == "it" and b.op == "it":
            return self.diff(a.a[0], b.a[0])
        pa, pb = self.parts(a), self.parts(b)
        return self.seq_align(pa, pb, a, b)

    def unit(self, S):
        x = S.a[0]
        i = C.fresh("int")
        return C._bind("fm", [i], C.length(x), C.seq(C.item(x, i)))

    def seq_align(self, pa, pb, a, b):
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
            i += 1
        j = 0
        while j < len(pa) - i and j < len(pb) - i and pa[-1 - j] is pb[-1 - j]:
            j += 1
        xa, xb = pa[i:len(pa) - j], pb[i:len(pb) - j]
        if not xa and not xb:
            return []
        if not xa:
            if all(self.maybe_empty(x) for x in xb):
                return self.no(a, b, "additional (possibly empty) part")
            return self.yes(a, b, "additional element")
        if not xb:
            return self.yes(a, b, "element lost")
        if sorted(x.d for x in xa) == sorted(x.d for x in xb):
            return self.yes(a, b, "different order")
        if len(xa) == len(xb):
            out = []
            for x, y in zip(xa, xb):
                if x.op == "seq" and y.op == "seq":
                    out += self.diff(x.a[0], y.a[0])
                elif x.op == y.op:
                    out += self.diff(x, y)
                elif {x.op, y.op} == {"fm", "it"}:
                    out += self.seqs(x, y)
                elif "seq" not in (x.op, y.op) and x.op not in ("cat", "fm", "it") \
                        and y.op not in ("cat", "fm", "it"):
                    out += self.diff(x, y)
                else:
                    out += self.no(x, y, "different sequence")
            return out
        # subset
        sa, sb = [x.d for x in xa], [x.d for x in xb]
        if all(x in sb for x in sa) or all(x in sa for x in sb):
            return self.yes(a, b, "element lost" if len(sb) < len(sa) else "additional element")
        return self.no(a, b, "different sequence")

    def maybe_empty(self, x):
        return x.op != "seq"

    def d_seq(self, a, b):
        return self.seqs(a, b)

    def d_dict(self, a, b):
        x, y = a.a[0], b.a[0]
        if x.op == "seq" and y.op == "seq" and x.a and y.a:
            da = {C.item(e, ZERO): C.item(e, ONE) for e in x.a}
            db = {C.item(e, ZERO): C.item(e, ONE) for e in y.a}
            out = []
            lost = [k for k in da if k not in db]
            new = [k for k in db if k not in da]
            if len(lost) == 1 and len(new) == 1 and C.isconst(lost[0]) and C.isconst(new[0]):
                out += self.yes(lost[0], new[0], "different key")
                out += self.diff(da[lost[0]], db[new[0]])
            elif len(lost) == len(new) == 1:
                out += self.diff(lost[0], new[0])
                out += self.diff(da[lost[0]], db[new[0]])
            elif lost and not new:
                out += self.yes(a, b, "entry lost: %s" % C.show(lost[0]))
            elif new and not lost:
                out += self.no(a, b, "additional entry: %s" % C.show(new[0]))
            elif lost or new:
                return self.no(a, b, "different entries")
            for k in da:
                if k in db:
                    out += self.diff(da[k], db[k])
            return out
        return self.diff(x, y)

    def d_set(self, a, b):
        x, y = a.a[0], b.a[0]
        if x.op == "seq" and y.op == "seq":
            ea = [e for e in x.a if e not in y.a]
            eb = [e for e in y.a if e not in x.a]
            if len(ea) == 1 and len(eb) == 1:
                return self.diff(ea[0], eb[0])
            if not ea or not eb:
                return self.yes(a, b, "different elements")
        return self.diff(x, y)

    def d_minof(self, a, b):
        return self.multiset(a, b)

    d_maxof = d_minof

    def multiset(self, a, b):
        xa = [x for x in a.a if x not in b.a]
        xb = [x for x in b.a if x not in a.a]
        if len(xa) == len(xb) == 1:
            return self.diff(xa[0], xb[0])
        if not xa or not xb:
            return self.yes(a, b, "different operands")
        return self.no(a, b)

    def d_item(self, a, b):
        i, j = a.a[1], b.a[1]
        if i is not j and a.a[0].ty != "dict" and b.a[0].ty != "dict":
            # negative positions count from the end
            for x, y in ((i, j), (j, i)):
                if x.op == "num" and x.a[0] < 0 and not (y.op == "num" and y.a[0] < 0) and \
                        y.op in ("poly", "mono", "len"):
                    base = (a if x is i else b).a[0]
                    z = C.add(C.length(base), x)
                    if z is y:
                        return self.diff(a.a[0], b.a[0])
                    out = self.diff(a.a[0], b.a[0])
                    if out:
                        return out + self.no(i, j, "position counted from the end")
        return self.generic(a, b)

    def d_matmul(self, a, b):
        if a.a[0] is b.a[1] and a.a[1] is b.a[0]:
            return self.yes(a, b, "matrix factors exchanged")
        return self.diff(a.a[0], b.a[0]) + self.diff(a.a[1], b.a[1])

    # -- atoms ------------------------------------------------------------
    def d_eq(self, a, b):
        p, q = a.a
        x, y = b.a
        for u, v in ((p, q), (q, p)):
            for r, t in ((x, y), (y, x)):
                if u is r:
                    return self.diff(v, t)
        if sum(C.isconst(z) for z in (p, q)) == 1 and sum(C.isconst(z) for z in (x, y)) == 1:
            if C.isconst(q):
                p, q = q, p
            if C.isconst(y):
                x, y = y, x
            return self.diff(p, x) + self.diff(q, y)
        straight = p.fv == x.fv and q.fv == y.fv
        cross = p.fv == y.fv and q.fv == x.fv
        if straight and not cross:
            return self.diff(p, x) + self.diff(q, y)
        if cross and not straight:
            return self.diff(p, y) + self.diff(q, x)
        r1 = self.diff(p, x) + self.diff(q, y)
        r2 = self.diff(p, y) + self.diff(q, x)
        return min((r1, r2), key=cost)

    d_is = d_eq

    def d_lt(self, a, b):
        p, q = a.a
        x, y = b.a
        if p is y and q is x:
            return self.yes(a, b, "comparison boundary or direction changed")
        return self.diff(p, x) + self.diff(q, y)

    def d_isinstance(self, a, b):
        if a.a[0] is b.a[0]:
            x, y = a.a[1], b.a[1]
            if x.op == "glob" and y.op == "glob":
                return self.yes(a, b, "different type tested")
        return self.generic(a, b)

    def cross(self, a, b):
        # comparisons of the same operands by different operators
        if {a.op, b.op} <= {"eq", "lt", "is", "in"} and len(set(a.a) & set(b.a)) >= 1:
            sa, sb = set(a.a), set(b.a)
            if sa == sb or {a.op, b.op} == {"eq", "lt"}:
                return self.yes(a, b, "different comparison")
            if {a.op, b.op} == {"is", "eq"} and NONE in sa | sb:
                return self.yes(a, b, "test for None replaced by test of the value")
        if {a.op, b.op} == {"truth", "is"}:
            t, i = (a, b) if a.op == "truth" else (b, a)
            if NONE in i.a and t.a[0] in i.a:
                if J.accumulated(t.a[0]):
                    return self.no(a, b, "test for None confused with truth value")
                return self.yes(a, b, "test for None confused with truth value")
        for t, o in ((a, b), (b, a)):
            if t.op == "truth" and t.a[0].op == "call" and t.a[0].a[0].op == "glob" and \
                    t.a[0].a[0].a[0].split(".")[-1] in ("isclose", "allclose") and o.op == "eq":
                xs = set(o.a)
                if all(x in xs for x in t.a[0].a[1:3]):
                    return self.yes(a, b, "approximate comparison confused with equality")
        if a.op in ("list", "tuple", "set") and b.op in ("list", "tuple", "set") \
                and a.op != b.op:
            if "set" in (a.op, b.op):
                return self.yes(a, b, "%s instead of %s" % (b.op, a.op)) \
                    if a.a[0] is b.a[0] else self.no(a, b)
            return self.no(a, b, "%s instead of %s" % (b.op, a.op))
        if {a.op, b.op} == {"any", "eq"}:
            return self.no(a, b)
        for x, y in ((a, b), (b, a)):
            if x.op.startswith("max") and y.op == "min" + x.op[3:] and len(x.a) == len(y.a) \
                    and all(p is q for p, q in zip(x.a, y.a)):
                return self.yes(a, b, "maximum confused with minimum")
        if {a.op, b.op} == {"bitand", "bitor"} or {a.op, b.op} == {"bitand", "bitxor"} or \
                {a.op, b.op} == {"bitor", "bitxor"}:
            if set(a.a) == set(b.a):
                return self.yes(a, b, "different bit operation")
        if {a.op, b.op} == {"floordiv", "mod"} and a.a == b.a:
            return self.yes(a, b, "quotient confused with remainder")
        if {a.op, b.op} == {"floordiv", "bin"}:
            return self.no(a, b)
        # container mutated / element access on the same base
        if a.op == "item" and b.op == "slice" or a.op == "slice" and b.op == "item":
            return self.no(a, b)
        if (C.isconst(a) and b.op in ("list", "tuple", "dict", "set", "call", "meth")) or \
                (C.isconst(b) and a.op in ("list", "tuple", "dict", "set", "call", "meth")):
            k = a if C.isconst(a) else b
            o = b if k is a else a
            if k is NONE and o.op in ("list", "dict", "set") and o.a == (C.NIL,):
                return self.no(a, b)        # (the way an empty default is written)
            if o.op in ("list", "tuple", "dict", "set") or k is NONE and a is not NONE:
                return self.yes(a, b, "different kind of value")
            if C.isconst(b) and b is NONE:
                return self.yes(a, b, "value lost")
            return self.no(a, b, "constant instead of a computed value")
        return self.no(a, b)

    # -- outcomes and effects -------------------------------------------------
    def outcome(self, a, b):
        if a.op == "raise" and b.op == "raise":
            out = []
            if a.a[0] != b.a[0]:
                if "?" in (a.a[0], b.a[0]) or "reraise" in (a.a[0], b.a[0]):
                    out += self.no(a, b, "different exception")
                else:
                    out += self.yes(a, b, "raises %s instead of %s" % (b.a[0], a.a[0]))
            return out + self.diff(a.a[1], b.a[1])
        if a.op == "raise":
            return self.yes(a, b, "%s is no longer raised" % a.a[0])
        if b.op == "raise":
            return self.yes(a, b, "%s is raised" % b.a[0])
        return self.no(a, b)

    def effects(self, a, b):
        out = []
        if a.a[0] is not b.a[0]:
            out += self.trace(a.a[0], b.a[0])
        wa = {(w.op, w.a[0]): w for w in a.a[1:]}
        wb = {(w.op, w.a[0]): w for w in b.a[1:]}
        for k in sorted(set(wa) | set(wb), key=lambda k: (k[0], k[1].d)):
            x, y = wa.get(k), wb.get(k)
            if x is y:
                continue
            if x is None:
                known = y.op == "m" or (y.a[0].op == "attr" and
                                        y.a[0].a[1] in self.vocab["attrs"])
                why = "writes to %s" % C.show(y.a[0])
                out += self.yes(UNDEF, y, why) if known else self.no(UNDEF, y, why)
            elif y is None:
                out += self.yes(x, UNDEF, "no longer writes to %s" % C.show(x.a[0]))
            else:
                out += self.diff(x.a[1], y.a[1])
        return out

    def strength(self, e):
        """Is the event one the specification cares about?"""
        if e.op == "seq" and len(e.a) == 1:
            e = e.a[0]
        if e.op in ("ev", "write", "openw"):
            return True
        if e.op == "do":
            c = e.a[0]
            if c.op == "call" and c.a[0].op == "glob":
                return c.a[0].a[0].startswith("~")
            return c.op == "meth" and c.a[0] in self.vocab["methods"]
        return True

    def trace(self, S, U):
        if S.op == "ite" or U.op == "ite":
            return self.tree(S, U)
        pa, pb = self.parts(S), self.parts(U)
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
            i += 1
        j = 0
        while j < len(pa) - i and j < len(pb) - i and pa[-1 - j] is pb[-1 - j]:
            j += 1
        xa, xb = pa[i:len(pa) - j], pb[i:len(pb) - j]
        if not xa:
            if all(x.op == "seq" and x.a[0].op in ("ev", "write", "openw") for x in xb):
                return self.yes(S, U, "additional effect")
            return self.no(S, U, "additional effect")
        if not xb:
            if any(self.strength(x) for x in xa):
                return self.yes(S, U, "effect no longer performed: %s" % C.show(xa[0], 5))
            return self.no(S, U, "effect no longer performed")
        if sorted(x.d for x in xa) == sorted(x.d for x in xb):
            k = [x for x in xa if x.op == "seq" and x.a[0].op == "ev"]
            return self.yes(S, U, "effects in a different order") if k else \
                self.no(S, U, "effects in a different order")
        if len(xa) == len(xb):
            out = []
            for x, y in zip(xa, xb):
                if x.op == "seq" and y.op == "seq":
                    out += self.diff(x.a[0], y.a[0])
                elif x.op == y.op == "fm":
                    out += self.binder(x, y)
                elif x.op == y.op == "folditem":
                    out += self.diff(x, y)
                else:
                    out += self.no(x, y, "different effects")
            return out
        sa, sb = [x.d for x in xa], [x.d for x in xb]
        if all(x in sa for x in sb):
            return self.yes(S, U, "effect no longer performed")
        return self.no(S, U, "different effects")

    def d_ev(self, a, b):
        return self.generic(a, b)

    # -- polynomials ------------------------------------------------------------
    def poly(self, a, b):
        ma, mb = C._monos(a), C._monos(b)
        aa = {x for k in ma for x, _ in k}
        ab = {x for k in mb for x, _ in k}
        ua = sorted(aa - ab, key=lambda t: t.d)
        ub = sorted(ab - aa, key=lambda t: t.d)
        if not ua and not ub:
            if self.partial_arith(aa):
                return self.no(a, b, "arithmetic")
            return self.yes(a, b, "different expression over the same inputs")
        if len(ua) == 1 and len(ub) == 1 and a is ua[0] and b is ub[0]:
            return self.atom_pair(a, b)
        if len(ua) == len(ub) and len(ua) <= 3:
            best = None
            for perm in itertools.permutations(ub):
                m = dict(zip(perm, ua))
                b2 = C.subst(b, m)
                r = [] if b2 is a else None
                if r is None:
                    continue
                for x, y in zip(ua, perm):
                    r = r + self.diff(x, y)
                if best is None or cost(r) < cost(best):
                    best = r
            if best is not None:
                return best
            if len(ua) == 1:
                r = self.diff(ua[0], ub[0])
                if r and all(m.definite for m in r):
                    return r + self.yes(a, b, "different expression")
            return self.no(a, b, "different expression")
        simple = lambda t: self.is_path(t) or t.op == "len" and self.is_path(t.a[0]) \
            or t.op in ("glob", "imag", "bv") or t.op == "var"
        if not ua or not ub:
            extra = ua or ub
            # the common atoms are unchanged; a term over known inputs came or went
            if all(simple(x) for x in extra):
                return self.yes(a, b, "term %s" % ("lost" if ua else "added"))
            w = self.wrap_rule(a, b)
            if w:
                return w
            if len(extra) == 1 and not self.partial_arith(aa | ab):
                # f(x) vs x
                x = extra[0]
                kids = self.nonid(x)
                if kids:
                    for k in kids:
                        big, small = (a, b) if ua else (b, a)
                        if C.subst(big, {x: k}) is small:
                            return self.yes(a, b, "operation lost" if ua else "operation added")
                if x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in NONID_CALL:
                    return self.yes(a, b, "factor %s" % ("lost" if ua else "added"))
            return self.no(a, b, "different expression")
        return self.no(a, b, "different expression")

    def partial_arith(self, atoms):
        ops = {x.op for x in atoms}
        return bool(ops & {"floordiv", "mod"}) and len(ops & {"floordiv", "mod"}) >= 1 \
            and len(atoms) >= 2

    def atom_pair(self, a, b):
        r = self.path_rule(a, b)
        if r is not None:
            return r
        r = self.wrap_rule(a, b)
        if r is not None:
            return r
        if a.op == b.op:
            f = getattr(self, "d_" + a.op, None)
            if f is not None:
                return f(a, b)
            if a.op in C.BINDERS:
                return self.binder(a, b)
            return self.generic(a, b)
        return self.cross(a, b)

    # -- decision trees -----------------------------------------------------------
    def tree(self, a, b):
        A = [x for x in C.atoms_of(a)]
        B = [x for x in C.atoms_of(b)]
        oa = [x for x in A if x not in B]
        ob = [x for x in B if x not in A]
        best = None
        cands = []
        if oa and ob and len(oa) <= 8 and len(ob) <= 8:
            for p in oa:
                for q in ob:
                    d = self.diff(p, q)
                    if d and all(m.definite for m in d) and len(d) <= 2:
                        cands.append((cost(d), p.d, q.d, p, q, d))
            cands.sort(key=lambda t: t[:3])
        for p in oa:
            for q in ob:
                if p.op == q.op == "throws" and p.a[0] == q.a[0] and nested_throws(p, q):
                    b2 = replace_atom(b, q, C._atom(p))
                    rest = [] if b2 is a else self.diff(a, b2)
                    return rest or [Mismatch(p, q, False, "different protected computation")]
        for p in oa:
            for q in ob:
                for pol in (True, False):
                    b2 = replace_atom(b, q, C._atom(p) if pol else C.not_(C._atom(p)))
                    if b2 is a:
                        w = J.cond(self, p, q, pol)
                        if w:
                            return [Mismatch(p, q, True, w)]
        plain = self.split_tree(a, b, {}, {})
        if oa and ob:
            sa, sb = set(oa), set(ob)
            plain = [self.doubtful(m, sa, sb) for m in plain]
        best = plain
        for c, _, _, p, q, d in cands[:6]:
            for pol in (True, False):
                cond = C._atom(p) if pol else C.not_(C._atom(p))
                b2 = replace_atom(b, q, cond)
                rest = [] if b2 is a else self.diff(a, b2) if True else None
                if not pol:
                    d2 = [Mismatch(p, q, not exclusive(p, q), "condition negated and changed")]
                else:
                    d2 = d
                r = dedup(d2 + rest)
                if not pol and not rest and not d2[0].definite:
                    return r
                if cost(r) < cost(best):
                    best = r
        # polarity of a single atom
        if not oa and not ob and cost(best) > 1:
            for p in A[:8]:
                b2 = replace_atom(b, p, C.not_(C._atom(p)))
                if b2 is a:
                    return [Mismatch(p, p, True, "condition negated")]
        return best

    def doubtful(self, m, sa, sb):
        """Both sides test conditions the other does not: outcomes under such tests cannot be
        compared."""
        if not m.definite:
            return m
        fs = {at for at, _ in m.facts}
        if fs & sa and fs & sb or "treated separately when" in m.why:
            return Mismatch(m.a, m.b, False, m.why + " (conditions expressed differently)",
                            m.facts)
        return m

    def special(self, atom, ms, t, added):
        """One side tests `atom` and treats one outcome differently; the other side does not
        look at it at all."""
        if any(m.why in ("budget", "recursive") for m in ms):
            return None
        if has_op(atom, "fold") or has_op(atom, "while") or has_op(atom, "mod") \
                or has_op(atom, "floordiv"):
            return None
        if any(J.unranged(m, ((atom, v),)) for m in ms for v in (True, False)):
            return None
        return "%s when %s" % ("treated separately" if added else "no longer treated separately",
                               C.show(atom, 6, 120))

    def split_tree(self, a, b, facts, memo):
        if a is b:
            return []
        key = (a, b, frozenset(facts.items()))
        if key in memo:
            return memo[key]
        if len(memo) > 3000:
            return [Mismatch(a, b, False, "budget")]
        if a.op != "ite" and b.op != "ite":
            x, y = simplify(a, facts), simplify(b, facts)
            if x.op == "ite" or y.op == "ite":
                r = [] if x is y else self.tree(x, y) if (x, y) != (a, b) else self.no(x, y)
            else:
                r = self.diff(x, y)
            fs = tuple(facts.items())
            r = [Mismatch(m.a, m.b, m.definite and not J.conditional(m, fs)
                          and not J.unranged(m, fs), m.why,
                          m.facts or fs) for m in r]
            memo[key] = r
            return r
        tops = [t.a[0] for t in (a, b) if t.op == "ite"]
        atom = min(tops, key=lambda t: t.d)
        out = []
        for val in (True, False):
            f2 = dict(facts)
            f2[atom] = val
            if infeasible(f2, atom):
                continue
            xa, xb = C.cofactor(a, atom, val), C.cofactor(b, atom, val)
            if val and atom.op == "eq":
                s = assigned(atom)
                if s:
                    xa, xb = C.subst(xa, s), C.subst(xb, s)
                    f3 = [plain_atom(C.subst(at, s), v) for at, v in facts.items()]
                    if any(f2.get(at, v) != v or at.op == "const" and (at is C.TRUE) != v
                           for at, v in f3):
                        continue
                    for at, v in f3:
                        xa, xb = C.cofactor(xa, at, v), C.cofactor(xb, at, v)
            out.append(self.split_tree(xa, xb, f2, memo))
            if sum(map(len, out)) > 4 * MAXM:
                break
        one = [ms for ms in out if ms]
        same = len(out) == 2 and len(one) == 1
        out = dedup(m for ms in out for m in ms)
        if same and cost(out) > 1:
            ia, ib = atom in atoms(a), atom in atoms(b)
            if ia != ib:
                w = self.special(atom, out, a if ia else b, ib)
                if w:
                    out = [Mismatch(a, b, True, w, tuple(facts.items()))]
        memo[key] = out
        return out


def plain_atom(t, v):
    """Atom and value of the fact that condition t has value v."""
    if t.op == "ite" and t.a[1] in (C.TRUE, C.FALSE) and t.a[2] in (C.TRUE, C.FALSE) \
            and t.a[1] is not t.a[2]:
        return t.a[0], v == (t.a[1] is C.TRUE)
    return t, v


def assigned(atom):
    """The substitution an equation `variable = constant` stands for."""
    x, y = atom.a
    for u, v in ((x, y), (y, x)):
        if u.op == "var" and C.isnum(v):
            return {u: v}
    return None


def components(t):
    """Components of a tuple-valued decision tree: list of lists over its leaves."""
    ls = C.leaves_of(t)
    if not all(x.op == "tuple" and x.a[0].op == "seq" for x in ls):
        return None
    n = {len(x.a[0].a) for x in ls}
    if len(n) != 1:
        return None
    return [[x.a[0].a[j] for x in ls] for j in range(n.pop())]


def aligned(f, g, ia, ib):
    """folditem(g, ib) with the components of the accumulator in the order f has them."""
    if len(f.a[1]) != 2 or f.a[1][0] != g.a[1][0]:
        return None
    vs, (n, init, body) = C.open_binder(f)
    ws, (n2, init2, body2) = C.open_binder(g)
    x, y, p, q = components(init), components(init2), components(body), components(body2)
    if None in (x, y, p, q) or len(x) != len(p) or len(y) != len(q) or len(x) < 2 or \
            len(y) < len(x):
        return None
    hole = C.var("%acc")

    def sig(c, i, acc):
        out = []
        for t in c:
            m = {z: hole for z in subterms_of(t) if z.op == "accitem" and z.a[0] is acc}
            m[i] = C.var("%I", "int")
            out.append(C.subst(t, m).d)
        return tuple(sorted(set(out)))
    sx = [(sig(x[j], vs[0], vs[1]), sig(p[j], vs[0], vs[1])) for j in range(len(x))]
    sy = [(sig(y[j], ws[0], ws[1]), sig(q[j], ws[0], ws[1])) for j in range(len(y))]
    perm = {ia: ib}                        # position in f -> position in g
    for test in (lambda s, t: s == t, lambda s, t: s[1] == t[1], lambda s, t: s[0] == t[0],
                 lambda s, t: True):
        for j in range(len(x)):
            if j in perm:
                continue
            c = [k for k in range(len(y)) if k not in perm.values() and test(sx[j], sy[k])]
            if c and (len(c) == 1 or test(sx[j], (0, 0))):
                perm[j] = c[0]
    if len(perm) != len(x):
        return None
    if all(j == k for j, k in perm.items()) and ia == ib and len(x) == len(y):
        return None
    inv = {k: j for j, k in perm.items()}

    def order(t):
        return C.map_leaves(t, lambda l: raw("tuple", raw("seq", *[
            l.a[0].a[perm[j]] for j in range(len(x))])))
    m = {z: raw("accitem", z.a[0], inv[z.a[1]], z.a[2]) for z in subterms_of(body2)
         if z.op == "accitem" and z.a[0] is ws[1] and z.a[1] in inv}
    for z in subterms_of(body2):
        if z.op == "accitem" and z.a[0] is ws[1] and z.a[1] not in inv:
            m[z] = C.var("%carried")        # (carried along on one side only)
    return raw("folditem", C.CONS["fold"](ws, n2, order(init2), C.subst(order(body2), m)), ia)


def subterms_of(t):
    seen, st = set(), [t]
    while st and len(seen) < 20000:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st += [y for y in x.a if isinstance(y, T)]
    return seen


def exclusive(p, q):
    """Tests for two disjoint classes of one value: where one of them is known to hold, each is
    the negation of the other."""
    if {p.op, q.op} == {"truth", "is"}:
        t, i = (p, q) if p.op == "truth" else (q, p)
        return NONE in i.a and t.a[0] in i.a and J.accumulated(t.a[0])
    return p.op == q.op == "isinstance" and p.a[0] is q.a[0] and C.exclusive(p.a[1], q.a[1])


def objectish(t):
    """An instance of a repository class (its operators are not arithmetic)."""
    if t.op == "var":
        return bool(t.ty) and t.ty.startswith("cls:")
    if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0].startswith("~"):
        return t.a[0].a[0].lstrip("~_")[:1].isupper()
    if t.op == "meth":
        return objectish(t.a[1])
    if t.op == "bin":
        return objectish(t.a[1]) or objectish(t.a[2])
    return False


def inner_ops(t):
    """Sub-terms of t under their binders, bound variables abstracted."""
    import ev
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        k = set()
        if x.op == "seq":
            for y in x.a:
                ev.throw_core(y, k)
        else:
            ev.throw_core(x, k)
            for y in x.a:
                if isinstance(y, T):
                    ev.throw_core(y, k)
        for y in k:
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def nested_throws(p, q):
    """Is one protected computation a part of the other?"""
    a, b = p.a[1], q.a[1]
    xs = a.a if a.op == "seq" else (a,)
    ys = b.a if b.op == "seq" else (b,)
    return set(xs) <= inner_ops(b) or set(ys) <= inner_ops(a)


def replace_atom(t, q, cond):
    memo = {}

    def go(x):
        if x.op != "ite":
            return x
        if x in memo:
            return memo[x]
        c = cond if x.a[0] is q else C._atom(x.a[0])
        r = C.ite_c(c, go(x.a[1]), go(x.a[2]))
        memo[x] = r
        return r
    return go(t)


def simplify(t, facts):
    m = {}
    for at, v in facts.items():
        if at.op == "eq" and v:
            p, q = at.a
            if C.isconst(p) and not C.isconst(q):
                p, q = q, p
            if C.isconst(q) and p.op not in ("poly", "mono"):
                m[p] = q
        elif at.op == "is" and v:
            p, q = at.a
            if q is NONE:
                m[p] = q
            elif p is NONE:
                m[q] = p
        elif at.op == "truth" and not v:
            x = at.a[0]
            m[raw("len", x)] = ZERO
            if C.occurs(t, raw("it", x)):
                m[raw("it", x)] = NIL
        elif at.op in ("truth", "isinstance", "in", "lt", "any"):
            pass
    m = {k: v for k, v in m.items() if C.occurs(t, k)}
    return C.subst(t, m) if m else t


def infeasible(facts, new):
    """Is the new fact incompatible with the others (light-weight theory)?"""
    v = facts[new]
    op = new.op
    for at, w in facts.items():
        if at is new:
            continue
        if op == at.op == "isinstance" and v and w and new.a[0] is at.a[0]:
            c, d = new.a[1], at.a[1]
            if c is not d and c.op == d.op == "glob" and not related(c.a[0], d.a[0]):
                return True
        for (x, xv), (y, yv) in (((new, v), (at, w)), ((at, w), (new, v))):
            if x.op == "is" and xv and NONE in x.a:
                o = x.a[0] if x.a[1] is NONE else x.a[1]
                if y.op == "isinstance" and yv and y.a[0] is o:
                    return True
                if y.op == "truth" and yv and (y.a[0] is o or y.a[0].op in ("attr", "item") and y.a[0].a[0] is o):
                    return True
                if y.op == "eq" and yv and o in y.a and any(C.isconst(z) and z is not NONE for z in y.a):
                    return True
                # (undefined tests: one of their values is enough to look at)
                if y.op == "lt" and yv and o in y.a:
                    return True
                if y.op in ("lt", "eq") and yv and any(z.op == "len" and z.a[0] is o or z.op in ("poly", "mono") and C.occurs(z, o) for z in y.a):
                    return True
        if op == at.op == "eq" and v and w:
            cs = [(p, q) for p, q in ((new.a[0], new.a[1]), (new.a[1], new.a[0])) if C.isconst(q)]
            ds = [(p, q) for p, q in ((at.a[0], at.a[1]), (at.a[1], at.a[0])) if C.isconst(q)]
            if cs and ds and cs[0][0] is ds[0][0] and cs[0][1] is not ds[0][1]:
                return True
    if op in ("lt", "eq"):
        return interval_conflict(facts)
    if op == "truth" and not v:
        ln = raw("len", new.a[0])
        for at, w in facts.items():
            if at.op == "lt" and at.a[0] is ZERO and at.a[1] is ln and w:
                return True
    return False


def related(c, d):
    c, d = c.split(".")[-1].lstrip("~"), d.split(".")[-1].lstrip("~")
    num = {"int", "float", "complex", "Number", "bool", "Real", "Integral"}
    if c in num and d in num:
        return True
    known = num | {"str", "list", "tuple", "dict", "set", "Symbol", "ndarray", "Matrix", "PauliTerm",
                   "PauliSum", "Circuit", "NoneType", "FunctionCall"}
    return not (c in known and d in known)


def interval_conflict(facts):
    lo, hi, eqs, ne = {}, {}, {}, {}
    for at, v in facts.items():
        if at.op == "lt":
            p, q = at.a
            if C.isnum(q) and not C.isnum(p):
                if v:
                    hi[p] = min(hi.get(p, (q.a[0], True)), (q.a[0], True))
                else:
                    lo[p] = max(lo.get(p, (q.a[0], False)), (q.a[0], False))
            elif C.isnum(p) and not C.isnum(q):
                if v:
                    lo[q] = max(lo.get(q, (p.a[0], True)), (p.a[0], True))
                else:
                    hi[q] = min(hi.get(q, (p.a[0], False)), (p.a[0], False))
        elif at.op == "eq" and v:
            p, q = at.a
            if C.isnum(q):
                eqs[p] = q.a[0]
            elif C.isnum(p):
                eqs[q] = p.a[0]
        elif at.op == "truth" and not v:
            eqs[raw("len", at.a[0])] = 0
    for x in set(lo) | set(hi):
        if x in lo and x in hi:
            l, sl = lo[x]
            h, sh = hi[x]
            if l > h or l == h and (sl or sh):
                return True
            if x.ty == "int" and sl and sh and h - l <= 1:
                return True
        if x in eqs:
            if x in lo and (eqs[x] < lo[x][0] or eqs[x] == lo[x][0] and lo[x][1]):
                return True
            if x in hi and (eqs[x] > hi[x][0] or eqs[x] == hi[x][0] and hi[x][1]):
                return True
    return False


def atoms(t):
    return set(C.atoms_of(t))


def mirrored(ms):
    """x where y was, and y where x was: exchanged operands."""
    und = {(m.a, m.b) for m in ms if not m.definite and not m.why.endswith("differently)")
           and not C.isconst(m.a) and not C.isconst(m.b)}
    out = []
    for m in ms:
        if (m.a, m.b) in und and (m.b, m.a) in und:
            m = Mismatch(m.a, m.b, True, "exchanged", m.facts)
        out.append(m)
    return out


_HAS = {}


def has_op(t, op):
    """Does an operation occur in t?"""
    key = (t, op)
    r = _HAS.get(key)
    if r is None:
        if t.op == op:
            r = True
        else:
            r = any(has_op(x, op) for x in t.a if isinstance(x, T))
        _HAS[key] = r
    return r


def unwrapped(t):
    """The object whose elements a list or tuple repeats."""
    while t.op in ("list", "tuple", "gen") and t.a[0].op == "it":
        t = t.a[0].a[0]
    return t


def cost(ms):
    return sum(1 if m.definite else 1000 for m in ms)


def dedup(ms):
    out = {}
    for m in ms:
        out.setdefault(m.key, m)
    return list(out.values())


def short(n):
    return n.lstrip("~").split(".")[-1] if not n.startswith("~") else n[1:]

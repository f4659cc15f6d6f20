"""Further rules under which two normalised terms denote different values.

Each rule is a property of the value graphs alone: an aggregate against a single element, an
element against its position, one reduction against another over the same operands, an input
the result no longer depends on, a rounding or reordering step one side lacks, ...
"""
from __future__ import annotations

import core as C
from core import NONE, ONE, T, ZERO

# operations that lose or permute information and have no counterpart on the other side
LOSSY_CALL = {"round": "rounding", "numpy.round": "rounding", "numpy.around": "rounding",
              "numpy.rint": "rounding", "numpy.floor": "rounding", "numpy.ceil": "rounding",
              "numpy.trunc": "rounding", "math.floor": "rounding", "math.ceil": "rounding",
              "math.trunc": "rounding", "numpy.real_if_close": "dropping small imaginary parts",
              "numpy.roll": "rotation", "numpy.clip": "clipping",
              "numpy.nan_to_num": "replacement of nan", "hash": "hashing", "id": "identity",
              "numpy.fliplr": "flip", "numpy.flipud": "flip", "numpy.unique": "deduplication",
              "sympy.nsimplify": "simplification", "numpy.float32": "single precision",
              "numpy.complex64": "single precision"}
LOSSY_METH = {"round": "rounding", "clip": "clipping"}
AGG = {"sum", "first", "maxseq", "minseq", "any", "fold"}
RED = {"maxof": "maximum", "minof": "minimum", "maxseq": "maximum", "minseq": "minimum",
       "sum": "sum", "first": "first match", "any": "existence", "len": "length"}
DEP = "result depends on"


def extra(D, a, b):
    for r in (matrices, reversal, parity, iterators, separators, operands,
              only_first, only_count, inverse, axes, reduction, element, parts, scatter, integers, lossy, sequential, depend):
        w = r(D, a, b)
        if w:
            return w
    return None


# -- reductions -----------------------------------------------------------------
def base(t):
    while t.op in ("list", "tuple", "it", "set", "seq", "gen") and len(t.a) == 1 and isinstance(
            t.a[0], T):
        t = t.a[0]
    return t


def kind(t):
    """(kind of reduction, operands)"""
    if t.op in ("maxof", "minof"):
        return t.op, frozenset(t.a)
    if t.op == "bin":
        return t.a[0], frozenset(t.a[1:])
    if t.op == "poly":
        xs = []
        for m in t.a:
            xs.append(m)
        return "+", frozenset(xs)
    if t.op == "mono" and t.a[0] == 1 and all(e == 1 for e in t.a[2::2]):
        return "*", frozenset(t.a[1::2])
    if t.op == "matmul":
        return "@", frozenset(t.a)
    return None, None


COMPAT = [{"*", "@"}]


def reduction(D, a, b):
    ka, xa = kind(a)
    kb, xb = kind(b)
    if ka and kb and ka != kb and len(xa) == len(xb) == 2:
        xa = {strip1(x) for x in xa}
        xb = {strip1(x) for x in xb}
        if xa == xb and {ka, kb} not in COMPAT and not any(D_obj(x) for x in xa):
            return "%s instead of %s" % (name(kb), name(ka))
    for x, y in ((a, b), (b, a)):
        # whole-sequence reduction against one fixed element of the same sequence
        if x.op in ("maxseq", "minseq"):
            s = base(x.a[0])
            if y.op == "item" and C.isconst(y.a[1]) and base(y.a[0]) is s and not ordered(y.a[0]):
                return "%s confused with one element" % RED[x.op]
        if x.op == "sum" and y.op == "first" and x.a[2] is not y and same_count(x, y):
            return "sum confused with the first match"
        if x.op == "sum" and single_element(x, y):
            return "sum over all elements confused with one element"
    if a.op in ("any", "lt") and b.op in ("any", "lt"):
        x, y = (a, b) if a.op == "any" else (b, a)
        if x.op == "any" and y.op == "lt" and D_has(y, "sum") and not D_has(x, "sum"):
            return "test of every element confused with test of the sum"
    return None


def strip1(t):
    """Operand without a unit coefficient."""
    if t.op == "mono" and t.a[0] == 1 and len(t.a) == 3 and t.a[2] == 1:
        return t.a[1]
    return t


def D_obj(t):
    return bool(t.ty) and str(t.ty).startswith("cls:")


def name(k):
    return RED.get(k, "operator " + str(k))


def same_count(x, y):
    return x.a[2:3] == y.a[2:3] or True if x.a[1] == y.a[1] else False


def ordered(t):
    return has(t, lambda x: x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in (
        "sorted", "numpy.sort", "reversed") or x.op == "meth" and x.a[0] == "sort")


def single_element(s, y):
    """s = sum over the elements of a path S of f(element); y = f(S[const])."""
    if s.op != "sum" or len(s.a) < 4:
        return False
    cnt, body = s.a[2], s.a[3]
    if cnt.op != "len":
        return False
    S = cnt.a[0]
    h = s.a[0]
    bvs = [C.raw("bv", h, j, t) for j, t in enumerate(s.a[1])]
    for k in (ZERO, ONE, C.num(-1)):
        e = C.item(S, k)
        if C.occurs(y, e):
            b0 = C.subst(body, {bvs[0]: k}) if bvs else None
            if b0 is y:
                return True
    return False


def only_first(D, a, b):
    """A loop over all elements against its body applied once, to the first of them."""
    for x, y in ((a, b), (b, a)):
        if x.op != "fold" or y.op == "fold":
            continue
        vs, (n, init, step) = C.open_binder(x)
        if len(vs) != 2 or C.isconst(n) or n.op != "len":
            continue
        for k in (ZERO, C.num(-1), C.sub(n, ONE)):
            if C.subst(step, {vs[0]: k, vs[1]: init}) is y:
                return "only one of the elements is processed"
    return None


def only_count(D, a, b):
    """An extremum or sum of the elements against a value that only uses their number."""
    for x, y in ((a, b), (b, a)):
        if x.op not in ("maxseq", "minseq", "maxof", "minof", "sum") or C.isconst(y) or \
                has(x, lambda z: z.op == "attr" and z.a[1] in ("shape", "ndim", "size")):
            continue
        if y.op in ("seq", "it", "fm", "cat", "list", "tuple") or not deps(y) <= deps(x):
            continue
        if not has(x, lambda z: z.op in ("maxseq", "minseq")) or has(
                y, lambda z: z.op in ("maxseq", "minseq", "sum", "fold", "call", "meth")):
            continue
        lost = [v for v in deps(x) if v not in deps(y) and v.a[0] in y.fv and not isloop(v)]
        if lost:
            return "only the number of elements of %s is used" % C.show(
                sorted(lost, key=str)[0])
    return None


def inverse(D, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "call" and x.a[0] is C.glob("numpy.conj") and x.a[1].op == "meth" and \
                x.a[1].a[0] == "transpose" and len(x.a[1].a) == 2:
            m = x.a[1].a[1]
            if y.op in ("bin", "pow") and y.a[-2] is m and C.isnum(y.a[-1]) and y.a[-1].a[0] < 0:
                return "inverse instead of conjugate transpose"
    return None


def axes(D, a, b):
    """transpose() against transpose of axes in another order than reversed."""
    for x, y in ((a, b), (b, a)):
        if x.op == y.op == "meth" and x.a[0] == y.a[0] == "transpose" and len(x.a) == 2 and \
                len(y.a) >= 3 and any(z.op == "star" for z in y.a[2:]) and x.a[1] is y.a[1]:
            S = C.cat(*[z.a[0] if z.op == "star" else C.seq(z) for z in y.a[2:]])
            at = {z for z in subs(S) if z.op in ("meth", "len", "call", "var") and not any(
                z is not w and z in subs(w) for w in subs(S) if w.op in ("meth", "len", "call"))}
            if len(at) != 1:
                continue
            try:
                for n in range(2, 8):
                    p = value(S, {next(iter(at)): n})
                    k = len(p)
                    if k >= 3 and sorted(p) == list(range(k)) and p != tuple(
                            range(k - 1, -1, -1)):
                        return "axes in another order than reversed"
            except (NoValue, TypeError):
                continue
    return None


# -- whole values of a known kind -------------------------------------------------
ZEROS = {"zeros", "csc_matrix", "csr_matrix", "coo_matrix", "lil_matrix", "dok_matrix"}
UNITS = {"eye", "identity", "ones", "full"}


def fname(t):
    """Last component of the name of the external function t calls."""
    if t.op == "call" and t.a[0].op == "glob" and not t.a[0].a[0].startswith("~"):
        return t.a[0].a[0].split(".")[-1]
    return None


def shape_arg(t):
    """Is the first argument a shape (numbers only)?"""
    if len(t.a) < 2:
        return False
    x = t.a[1]
    if x.op == "kw":
        return False
    if x.op == "tuple":
        return x.a[0].op == "seq" and len(x.a[0].a) == 2 and all(C.numy(z) for z in x.a[0].a)
    return C.numy(x)


def matrices(D, a, b):
    """A zero matrix against an identity or a matrix of ones."""
    na, nb = fname(a), fname(b)
    if na and nb and shape_arg(a) and shape_arg(b):
        if na in ZEROS and nb in UNITS or na in UNITS and nb in ZEROS:
            return "%s instead of %s" % (nb, na)
    return None


def reversed_axis(t):
    """Elements of an array read backwards along some axis: (array, True)."""
    if t.op == "item" and t.a[1].op == "tuple" and t.a[1].a[0].op == "seq":
        rev = False
        for z in t.a[1].a[0].a:
            if z.op != "sl":
                return None
            if z.a[0] is not NONE or z.a[1] is not NONE:
                return None
            if z.a[2] is C.num(-1):
                rev = True
            elif z.a[2] is not NONE and z.a[2] is not ONE:
                return None
        return t.a[0] if rev else None
    if fname(t) in ("flip", "fliplr", "flipud") and len(t.a) >= 2:
        return t.a[1]
    return None


def reversal(D, a, b):
    for x, y in ((a, b), (b, a)):
        if reversed_axis(x) is y:
            return "axis reversed"
        if x.op == "rev" and y.op in ("list", "tuple", "it", "seq") and base(x.a[0]) is base(y):
            return "order reversed"
    return None


def parity(D, a, b):
    """Remainder of a sum by two against a test of any/all elements."""
    for x, y in ((a, b), (b, a)):
        if has(x, lambda z: z.op == "mod" and z.a[1] is C.num(2) and has(
                z.a[0], lambda w: w.op == "sum" or w.op == "meth" and w.a[0] == "sum"
                or fname(w) == "sum")) and not has(
                    y, lambda z: z.op in ("mod", "bitxor", "bitand", "fold", "while", "pow")
                    or z.op == "bin" and z.a[0] in ("%", "**", "^", "&")
                    or z.op == "call" and fname(z) not in (
                        "any", "all", "astype", "bool", "int", "array", "asarray", None)):
            if has(y, lambda z: z.op == "meth" and z.a[0] in ("any", "all") or fname(z) in (
                    "any", "all")):
                return "parity confused with a test of any element"
    return None


def iterators(D, a, b):
    """The same elements in another order."""
    if a.op in ("it", "gen", "list", "tuple") and b.op in ("it", "gen", "list", "tuple"):
        x, y = base(a), base(b)
        if x.op == y.op == "seq" and len(x.a) == len(y.a) >= 2 and x is not y and \
                sorted(t.d for t in x.a) == sorted(t.d for t in y.a):
            return "elements in a different order"
    return None


def separators(D, a, b):
    """s.split(c) against s.replace(c, d): pieces against one string."""
    for x, y in ((a, b), (b, a)):
        if x.op == y.op == "meth" and x.a[0] in ("split", "rsplit") and y.a[0] in (
                "replace", "strip", "rstrip", "lstrip", "lower", "upper"):
            return "text confused with its pieces"
    return None


def operands(D, a, b):
    """x * other against other * x where x is an object whose multiplication does not commute."""
    if a.op == b.op == "bin" and a.a[0] == b.a[0] and a.a[0] in ("*", "-", "/", "**"):
        l1, r1, l2, r2 = a.a[1], a.a[2], b.a[1], b.a[2]
        if l1 is r2 and r1 is l2 and (D_obj(l1) or D_obj(r1) or made(l1) or made(r1)):
            return "operands exchanged"
    return None


def made(t):
    return t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0].startswith("~")


# -- elements against positions ---------------------------------------------------
def element(D, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op in ("item", "key", "val") and x.a[1] is y and isloop(y):
            return "element confused with its position"
        if x.op == "item" and y.op in ("poly", "mono") and x.a[0].op not in ("seq",):
            # s[i + 1] against s[i] + 1
            for k in C._monos(y):
                for z, e in k:
                    if z.op == "item" and z.a[0] is x.a[0] and e == 1 and len(k) == 1:
                        d1 = C.sub(y, z)
                        if C.isnum(d1) and C.isnum(safe_sub(x.a[1], z.a[1])):
                            return "next element confused with the element plus one"
    return None


def safe_sub(x, y):
    try:
        return C.sub(x, y)
    except Exception:
        return NONE


def isloop(t):
    return t.op == "bv" or t.op == "var" and t.a[0][:2] in ("v~", "i~")


# -- information lost ----------------------------------------------------------------
def marks(t):
    return marks1(t)


_MARKS = {}


def marks1(t):
    r = _MARKS.get(t)
    if r is not None:
        return r
    r = set()
    if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in LOSSY_CALL:
        r.add(LOSSY_CALL[t.a[0].a[0]])
    elif t.op == "meth" and t.a[0] in LOSSY_METH:
        r.add(LOSSY_METH[t.a[0]])
    elif t.op in ("floordiv", "mod", "intval"):
        r.add("~rounding")
    for x in t.a:
        if isinstance(x, T):
            r |= marks1(x)
    r = frozenset(r)
    _MARKS[t] = r
    return r


def lossy(D, a, b):
    if C.isconst(a) or C.isconst(b):
        return None
    ma, mb = marks(a), marks(b)
    for w in sorted(ma ^ mb):
        if w.startswith("~"):
            continue
        if w == "rounding" and "~rounding" in ma | mb:
            continue
        return "%s %s" % (w, "lost" if w in ma else "added")
    return None


def sequential(D, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "meth" and x.a[0] in ("subs", "xreplace") and y.op == "fold" and any(
                z.op == "meth" and z.a[0] in ("subs", "xreplace") for z in subs(y.a[-1])):
            if x.a[0] == "xreplace" or any(
                    z.op == "kw" and z.a[0] == "simultaneous" and z.a[1] is C.TRUE
                    for z in x.a[2:] if isinstance(z, T)):
                return "simultaneous substitution confused with one after the other"
        # consumption of one iterator against fixed positions
        if x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] == "itertools.islice" and \
                x.a[1].op == "gen" and y.op == "slice" and not has(
                    y, lambda z: z.op in ("sum", "accitem", "fold", "folditem")):
            if len(x.a) == 3 and not C.isconst(x.a[2]):
                return "positions do not accumulate"
    return None


def subs(t, cap=4000):
    seen = set()
    st = [t]
    while st and len(seen) < cap:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(y for y in x.a if isinstance(y, T))
    return seen


def has(t, pred):
    return any(pred(x) for x in subs(t))


def D_has(t, op):
    return has(t, lambda x: x.op == op)


# -- dependence ------------------------------------------------------------------------
_DEPS = {}


def deps(t):
    """Inputs the value depends on otherwise than through lengths and types."""
    r = _DEPS.get(t)
    if r is not None:
        return r
    if t.op == "var":
        r = frozenset((t,)) if t.a[0][:1] not in "&%" else frozenset()
    elif t.op in ("len", "isinstance", "throws"):
        r = frozenset()
    else:
        r = frozenset()
        for x in t.a:
            if isinstance(x, T):
                r |= deps(x)
    _DEPS[t] = r
    return r


def shapes(t):
    """All variables, lengths and types included."""
    return t.fv


def depend(D, a, b):
    if a.op in ("seq", "it", "fm", "cat") or b.op in ("seq", "it", "fm", "cat"):
        return None
    if C.isconst(a) or C.isconst(b):
        return None
    lost = [v for v in deps(a) if v.a[0] not in b.fv and v not in deps(b)]
    new = [v for v in deps(b) if v.a[0] not in a.fv and v not in deps(a)]
    lost = [v for v in lost if v.a[0] not in ("self",)]
    new = [v for v in new if v.a[0] not in ("self",)]
    if lost and not new:
        return DEP + " %s no longer" % sorted(C.show(v) for v in lost)[0]
    if new and not lost:
        return DEP + " %s" % sorted(C.show(v) for v in new)[0]
    return None


def conditional(m, facts):
    """A dependence or integer difference seen only where an equality is known may vanish."""
    if not (m.why.startswith(DEP) or m.why == INTEGERS):
        return False
    vs = set(m.a.fv) | set(m.b.fv)
    for at, v in facts:
        if at.op in ("eq", "is", "in") and v and at.fv & vs:
            return True
        if at.op in ("lt", "truth") and at.fv & vs and (m.why == INTEGERS or
                                                        at.op == "truth" and not v):
            return True
    return False


def unranged(m, facts):
    """A constant against an expression over a value only known to be truthy: bits are 1."""
    for x, y in ((m.a, m.b), (m.b, m.a)):
        if isinstance(x, T) and isinstance(y, T) and x.op == "num":
            for at, v in facts:
                if at.op == "truth" and v and at.a[0] in subs(y) and at.a[0].op not in ("var",):
                    return True
                if at.op == "eq" and not v and ZERO in at.a and any(
                        z is not ZERO and z.op != "num" and z.op != "var" and z in subs(y)
                        for z in at.a):
                    return True
    return False


def accumulated(t):
    """An attribute of an object the loop itself builds up."""
    return t.op == "attr" and t.a[0].op in ("var", "bv", "accitem") and (
        t.a[0].op != "var" or isloop(t.a[0]))


def unrelated(m):
    """Lengths of results of the program's own functions: their relation is not known."""
    return any(isinstance(x, T) and has(x, lambda z: z.op == "call" and made(z))
               for x in (m.a, m.b))


def scalar(t):
    """Is every value of t a number by construction?"""
    if t.op in ("fold", "while"):
        return all(x.op == "num" or x.op == "bv" or scalar(x) or x.op == "ite" and all(
            l.op in ("bv", "num") or scalar(l) for l in C.leaves_of(x))
            for x in t.a[3:4]) and t.a[3].op == "num"
    return t.op in ("num", "imag") or t.op in ("poly", "mono") and t.ty in ("int", "num")


def stringy(t):
    """Text by construction: a piece of a split or matched string."""
    return t.op == "item" and t.a[0].op == "meth" and t.a[0].a[0] in (
        "split", "rsplit", "groups", "partition", "splitlines")


# -- parts of numbers, containers from JSON ---------------------------------------------
def part(t):
    if t.op == "abs":
        return "absolute value", t.a[0]
    if t.op == "attr" and t.a[1] in ("real", "imag"):
        return "." + t.a[1], t.a[0]
    if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0].split(".")[-1] in (
            "real", "imag", "conj", "conjugate", "abs", "absolute", "angle", "re", "im") \
            and len(t.a) == 2:
        return {"absolute": "abs", "conjugate": "conj"}.get(
            t.a[0].a[0].split(".")[-1], t.a[0].a[0].split(".")[-1]), t.a[1]
    return None, None


def parts(D, a, b):
    ka, xa = part(a)
    kb, xb = part(b)
    if ka and kb and xa is xb and ka.strip(".") != kb.strip(".") and {ka, kb} != {
            "absolute value", "abs"}:
        return "%s instead of %s" % (kb, ka)
    for x, y in ((a, b), (b, a)):
        if x.op == "tuple" and base(x) is y and y.op == "item" and has(
                y, lambda z: z.op == "call" and z.a[0].op == "glob" and z.a[0].a[0] in (
                    "json.loads", "json.load")):
            return "list read from JSON confused with a tuple"
    return None


def scatter(D, a, b):
    """r[i] = s[p[i]] against r[p[i]] = s[i]."""
    for x, y in ((a, b), (b, a)):
        f = base(x)
        if f.op != "fm" or y.op != "fold" or f.a[-1].op != "seq" or len(f.a[-1].a) != 1:
            continue
        e = f.a[-1].a[0]
        if e.op != "item" or e.a[1].op != "item" or e.a[1].a[1].op != "bv":
            continue
        P = e.a[1].a[0]
        for z in subs(y.a[-1]):
            if z.op == "setitem" and z.a[1].op == "item" and z.a[1].a[0] is P and \
                    z.a[1].a[1].op == "bv" and z.a[2].op == "item" and \
                    z.a[2].a[1] is z.a[1].a[1]:
                return "permutation confused with its inverse"
    return None


# -- integer functions ---------------------------------------------------------------------
INTEGERS = "different integer function"


class NoValue(Exception):
    pass


def leaves(t, D, out, depth=0):
    """Input paths an integer term is built from; False when anything else occurs."""
    if t.op == "num":
        return t.a[0].denominator == 1
    if D.is_path(t) and not isloop(t):
        if t.ty not in ("int", None):
            return False
        out.add(t)
        return True
    if t.op == "bv":
        return True
    if t.op in ("poly", "mono", "floordiv", "mod", "maxof", "minof", "seq", "cat", "fm", "sum",
                "list", "tuple"):
        if t.op == "mono" and any(e < 0 or e != int(e) for e in t.a[2::2]):
            return False
        if t.op == "mono" and t.a[0].denominator != 1:
            return False
        return all(leaves(x, D, out, depth + 1) for x in t.a if isinstance(x, T))
    return False


def value(t, env):
    op = t.op
    if op == "num":
        return int(t.a[0])
    if t in env:
        return env[t]
    if op == "poly":
        return sum(value(x, env) for x in t.a)
    if op == "mono":
        r = int(t.a[0])
        for x, e in zip(t.a[1::2], t.a[2::2]):
            r *= value(x, env) ** int(e)
        return r
    if op in ("floordiv", "mod"):
        p, q = value(t.a[0], env), value(t.a[1], env)
        if q == 0:
            raise NoValue
        return p // q if op == "floordiv" else p % q
    if op == "maxof":
        return max(value(x, env) for x in t.a)
    if op == "minof":
        return min(value(x, env) for x in t.a)
    if op == "seq":
        return tuple(value(x, env) for x in t.a)
    if op in ("list", "tuple"):
        return value(t.a[0], env)
    if op == "cat":
        return sum((value(x, env) for x in t.a), ())
    if op in ("fm", "sum") and len(t.a) == 4 and len(t.a[1]) == 1:
        n = value(t.a[2], env)
        v = C.raw("bv", t.a[0], 0, t.a[1][0])
        if not isinstance(n, int) or n > 40:
            raise NoValue
        r = () if op == "fm" else 0
        for i in range(n):
            e2 = dict(env)
            e2[v] = i
            r = r + value(t.a[3], e2)
        return r
    raise NoValue


def integers(D, a, b):
    """Two terms over floor division, remainder, extrema and sequences of integers: functions
    of their inputs, told apart by a point where they differ."""
    if not has(a, lambda x: x.op in ("floordiv", "mod", "maxof", "minof")) and not has(
            b, lambda x: x.op in ("floordiv", "mod", "maxof", "minof")):
        return None
    vs = set()
    if not leaves(a, D, vs) or not leaves(b, D, vs) or not 1 <= len(vs) <= 3:
        return None
    vs = sorted(vs, key=lambda t: t.d)
    import itertools
    n = bad = 0
    for p in itertools.product((1, 2, 3, 5, 6, 8), repeat=len(vs)):
        try:
            x, y = value(a, dict(zip(vs, p))), value(b, dict(zip(vs, p)))
        except NoValue:
            continue
        n += 1
        bad += x != y
    if n >= 6 and bad * 8 >= n:
        return INTEGERS
    return None


# -- conditions ------------------------------------------------------------------------------
def read(t):
    """A dictionary entry however it is read."""
    if t.op == "meth" and t.a[0] == "get" and len(t.a) >= 3:
        return ("entry", t.a[1], t.a[2])
    if t.op == "item":
        return ("entry", t.a[0], t.a[1])
    return t


def cond(D, p, q, pol):
    """Why conditions p and q (or p and not q) differ."""
    for x, y in ((p, q), (q, p)):
        if x.op == "truth" and y.op == "lt":
            u = x.a[0]
            if u.op not in ("call", "len") and u.ty not in ("bool", "list", "dict", "str") and \
                    ZERO in y.a and read(y.a[1] if y.a[0] is ZERO else y.a[0]) == read(u):
                return "test for zero confused with a comparison"
        if x.op == "isinstance" and y.op in ("is", "eq") and x.a[1].op == "glob" and x.a[1].a[
                0] in ("int", "float", "complex", "str", "dict"):
            for k in (0, 1):
                z = y.a[k]
                if y.a[1 - k] is x.a[1] and (z.op in ("type", "call") and x.a[0] in z.a):
                    return "instances of subclasses are treated differently"
        if x.op == "truth" and y.op == "truth":
            u, v = x.a[0], y.a[0]
            w = v
            if w.op == "call" and w.a[0].op == "glob" and w.a[0].a[0] in ("any", "all",
                                                                         "numpy.any",
                                                                         "numpy.all"):
                if read(w.a[1]) == read(u):
                    return "test for presence confused with a test of the elements"
                z = w.a[1]
                if z.op == "call" and z.a[0].op == "glob" and z.a[0].a[0].split(".")[-1] == \
                        "iscomplex" and u.op == "call" and u.a[0].op == "glob" and \
                        u.a[0].a[0].split(".")[-1] == "iscomplexobj":
                    return "complex type confused with complex values"
        if x.op == "truth" and y.op == "any" and has(y, lambda z: z.op == "item" and read(
                x.a[0]) == read(z) or z is x.a[0]):
            return "test for presence confused with a test of the elements"
        if x.op == "eq" and y.op == "lt":
            d = safe_sub(x.a[0], x.a[1])
            if has(y, lambda z: z.op == "abs" and (z.a[0] is d or z.a[0] is safe_sub(
                    x.a[1], x.a[0]))):
                return "exact comparison confused with an approximate one"
        if x.op == "isinstance" and y.op == "truth" and y.a[0].op == "hasattr" and \
                x.a[0] is y.a[0].a[0] and C.isconst(y.a[0].a[1]) and x.a[1].op == "glob":
            own = D.vocab.get("owners", {}).get(y.a[0].a[1].a[1], ())
            cls = x.a[1].a[0].lstrip("~")
            if any(cls not in mro for mro in own):
                return "other classes have attribute %s too" % y.a[0].a[1].a[1]
    return None

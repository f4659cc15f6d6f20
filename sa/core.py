"""Hash-consed value-graph terms with normalising constructors.

A term is a node ``T(op, args)``; args are terms or plain Python atoms.  All terms are
interned, so equality is identity.  Conditions are ordered decision nodes
(``ite(atom, then, else)``) that are lifted out of other operators, bound variables
are named by binder height, numeric expressions are polynomials over atoms.
"""
from __future__ import annotations

import hashlib
import sys
from fractions import Fraction

sys.setrecursionlimit(100000)

_TABLE: dict = {}
EMPTY = frozenset()


class Unsupported(Exception):
    """The construct or the size of the term is outside what is modelled."""


BUDGET = [1 << 60]


def spend(k=1):
    BUDGET[0] -= k
    if BUDGET[0] < 0:
        raise Unsupported("budget")


class T:
    __slots__ = ("op", "a", "d", "sz", "bh", "fv", "fb", "ty", "__weakref__")

    def __repr__(self):
        return show(self)


def _digest(op, a):
    h = hashlib.blake2b(digest_size=12)
    h.update(op.encode())
    for x in a:
        if isinstance(x, T):
            h.update(b"T")
            h.update(x.d)
        else:
            h.update(b"A")
            h.update(type(x).__name__.encode())
            h.update(repr(x).encode())
        h.update(b";")
    return h.digest()


BINDERS = {"fm": 1, "sum": 1, "any": 1, "fold": 2, "first": 1, "lam": 1, "while": 1,
           "optim": 1}


def raw(op, *a):
    """Intern a node without normalisation."""
    key = (op, tuple((type(x), x) if not isinstance(x, T) else x for x in a))
    t = _TABLE.get(key)
    if t is not None:
        return t
    BUDGET[0] -= 1
    if BUDGET[0] < 0:
        raise Unsupported("budget")
    t = T()
    t.op = op
    t.a = a
    t.d = _digest(op, a)
    sz = 1
    bh = 0
    fv = EMPTY
    fb = EMPTY
    for x in a:
        if isinstance(x, T):
            sz += x.sz
            if x.bh > bh:
                bh = x.bh
            if x.fv:
                fv = fv | x.fv if fv else x.fv
            if x.fb:
                fb = fb | x.fb if fb else x.fb
    if op == "var":
        fv = frozenset((a[0],))
    elif op == "bv":
        fb = frozenset((a[0],))
        bh = 0
    elif op in BINDERS:
        h = a[0]
        bh = max(bh, h)
        fb = fb - {h}
    t.sz = sz
    t.bh = bh
    t.fv = fv
    t.fb = fb
    t.ty = _type(op, a)
    _TABLE[key] = t
    return t


# ---------------------------------------------------------------------------
# types
# ---------------------------------------------------------------------------
NUMERIC = {"int", "num", "arr", "bool"}
CONTAINER = {"list", "tuple", "dict", "set", "str", "gen"}

CALL_TY = {
    "round": "num", "hash": "int", "int": "int", "float": "num", "complex": "num",
    "ord": "int", "sorted": "list", "math.log2": "num", "math.log": "num",
    "math.sqrt": "num", "math.pi": "num", "numpy.pi": "num", "numpy.exp": "num",
    "numpy.sqrt": "num", "numpy.log": "num", "numpy.log2": "num", "numpy.cos": "num",
    "numpy.sin": "num", "math.ceil": "int", "math.floor": "int", "numpy.sum": "num",
    "numpy.isclose": "bool", "math.isclose": "bool", "numpy.allclose": "bool",
    "numpy.zeros": "arr", "numpy.ones": "arr", "numpy.array": "arr",
    "numpy.arange": "arr", "numpy.eye": "arr", "numpy.abs": "num", "isinstance": "bool",
    "numpy.mean": "num", "numpy.real": "num", "numpy.conj": "num", "bin": "str",
    "repr": "str", "json.dumps": "str", "collections.Counter": "dict",
    "collections.defaultdict": "dict", "numpy.outer": "arr", "numpy.ceil": "num",
    "numpy.floor": "num", "numpy.prod": "num", "math.prod": "num", "pow": "num",
    "numpy.trace": "num", "numpy.power": "num", "numpy.int64": "int",
    "numpy.angle": "num",
}
METH_TY = {"bit_length": "int", "count": "int", "split": "list", "join": "str",
           "strip": "str", "format": "str", "tolist": "list", "upper": "str",
           "lower": "str", "replace": "str", "rstrip": "str", "lstrip": "str",
           "read": "str", "index": "int", "mean": "num", "astype": "arr",
           "get_counts": "dict", "get_outcome_probs": "dict", "get_probabilities": "arr",
           "to_dict": "dict"}
GLOB_TY = {"math.pi": "num", "numpy.pi": "num", "sympy.pi": "num", "math.e": "num",
           "numpy.inf": "num", "math.inf": "num", "numpy.newaxis": None,
           "sys.float_info.min": "num"}
ATTR_TY = {"real": "num", "imag": "num", "n_qubits": "int", "num_qubits": "int",
           "num_control_qubits": "int", "free_symbols": None, "size": "int",
           "number_of_shots": "int", "shape": "tuple", "coefficient": "num",
           "_n_circuits_executed": "int", "_n_jobs_executed": "int", "name": "str",
           "n_circuits_executed": "int", "n_jobs_executed": "int",
           "distribution_dict": "dict", "bitstrings": "list", "qubit_indices": "tuple",
           "qubits": "set", "n_terms": "int", "raw_data": "list", "ndim": "int",
           "_ops": "dict", "_circuits": "list", "layers": "list", "params": "tuple",
           "params_ordering": "tuple", "terms": "list", "operations": "list",
           "_operations": "list", "is_constant": "bool", "is_ising": "bool",
           "gate_name": "str", "known_functions": "dict", "constant_term": "num",
           "circuits": "list"}

ELEM_TY = {"qubit_indices": "int", "qubits": "int"}


CALL_ANN: dict = {}         # declared result types of functions of the repository


def ann_of(t):
    """Declared type of a parameter or of an element of one: (type, element types)."""
    if t.op == "var":
        return t.a[2] if len(t.a) > 2 else None
    if t.op == "item":
        return elem_ann(t.a[0], t.a[1])
    if t.op == "call" and t.a[0].op == "glob":
        return CALL_ANN.get(t.a[0].a[0])
    if t.op in ("key", "val"):
        e = ann_of(t.a[0])
        if e and e[0] == "dict" and len(e[1]) == 2:
            return e[1][0 if t.op == "key" else 1]
    return None


def elem_ann(t, i):
    e = ann_of(t)
    if not e:
        return None
    ty, sub = e
    if ty == "list" and len(sub) == 1:
        return sub[0]
    if ty == "tuple" and len(sub) == 2 and sub[1] == "...":
        return sub[0]
    if ty == "tuple" and i.op == "num" and i.a[0].denominator == 1 and \
            -len(sub) <= i.a[0] < len(sub):
        return sub[int(i.a[0])]
    if ty == "dict" and len(sub) == 2:
        return sub[1]
    if ty == "arr":
        return ("arr", ())
    return None


def _type(op, a):
    if op == "num":
        return "int" if a[0].denominator == 1 else "num"
    if op == "const":
        return {"bool": "bool", "str": "str", "float": "num"}.get(a[0])
    if op == "imag":
        return "num"
    if op == "item":
        if a[0].op == "attr":
            return ELEM_TY.get(a[0].a[1])
        e = elem_ann(a[0], a[1])
        return e[0] if e else None
    if op in ("key", "val"):
        e = ann_of(a[0])
        if e and e[0] == "dict" and len(e[1]) == 2:
            e = e[1][0 if op == "key" else 1]
            return e[0] if e else None
        return None
    if op == "accitem":
        return a[2] if a[2] in NUMERIC or a[2] in CONTAINER else None
    if op == "var":
        return a[1]
    if op == "bv":
        return a[2]
    if op in ("list", "tuple", "dict", "set", "gen"):
        return op
    if op in ("len", "floordiv_i"):
        return "int"
    if op in ("eq", "lt", "is", "in", "any", "truth", "isinstance"):
        return "bool"
    if op in ("fmt", "join"):
        return "str"
    if op == "poly":
        ty = "int"
        for m in a:
            if m.ty == "int":
                continue
            if m.ty is None:
                return "num"
            if m.ty == "arr":
                return "arr"
            ty = "num"
        return ty
    if op == "mono":
        ty = "int" if a[0].denominator == 1 else "num"
        for x, e in zip(a[1::2], a[2::2]):
            if x.ty == "arr":
                ty = "arr"
            elif x.ty != "int" and x.ty != "bool" or e < 0:
                if ty != "arr":
                    ty = "num"
        return ty
    if op == "pow":
        if a[0].ty in ("int",) and a[1].ty == "int":
            return "int"
        if a[0].ty in NUMERIC:
            return "arr" if a[0].ty == "arr" else "num"
        return None
    if op in ("floordiv", "mod"):
        return "int" if a[0].ty == "int" and a[1].ty == "int" else (
            "num" if a[0].ty in NUMERIC else None)
    if op == "sum":
        return "int" if a[2].ty in ("int", "bool") else "num"
    if op in ("abs", "maxof", "minof"):
        t0 = a[0].ty
        return t0 if t0 in NUMERIC else None
    if op == "ite":
        return a[1].ty if a[1].ty == a[2].ty else (
            "num" if a[1].ty in NUMERIC and a[2].ty in NUMERIC else None)
    if op == "attr":
        return ATTR_TY.get(a[1])
    if op == "glob":
        return GLOB_TY.get(a[0])
    if op == "call":
        if isinstance(a[0], T) and a[0].op == "glob":
            t = CALL_TY.get(a[0].a[0])
            if t is None and a[0].a[0] in CALL_ANN:
                t = CALL_ANN[a[0].a[0]][0]
            return t
        return None
    if op == "meth":
        return METH_TY.get(a[0])
    if op == "setitem":
        return a[0].ty
    if op == "upd":
        return a[0].ty
    if op in ("bitand", "bitor", "bitxor", "shr", "shl"):
        return "int" if a[0].ty == "int" and a[1].ty == "int" else None
    if op == "dictdiff":
        return "dict"
    if op in ("copy", "deepcopy"):
        return a[0].ty
    if op == "slice":
        return a[0].ty if a[0].ty in ("list", "str", "tuple", "arr") else None
    return None


# ---------------------------------------------------------------------------
# atoms
# ---------------------------------------------------------------------------
def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        x = Fraction(x)
    elif isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return raw("const", "float", repr(x))
        x = Fraction(repr(x))
    elif isinstance(x, complex):
        return add(num(x.real), mul(num(x.imag), IMAG))
    return raw("num", x)


def const(v):
    if v is None or v is Ellipsis or isinstance(v, (bool, str, bytes)):
        return raw("const", type(v).__name__, v if not isinstance(v, type(...)) else "...")
    return num(v)


TRUE = raw("const", "bool", True)
FALSE = raw("const", "bool", False)
NONE = raw("const", "NoneType", None)
UNDEF = raw("undef")
IMAG = raw("imag")
ZERO = raw("num", Fraction(0))
ONE = raw("num", Fraction(1))


def s(x):
    return raw("const", "str", x)


def glob(name):
    return raw("glob", name)


def var(name, ty=None, ann=None):
    if ann and ann[1] != () and ty == ann[0] or ann and ty == "arr":
        return raw("var", name, ty, ann)
    return raw("var", name, ty)


def isconst(t):
    return t.op in ("const", "num")


def isnum(t):
    return t.op == "num"


def isint(t):
    return t.op == "num" and t.a[0].denominator == 1


# ---------------------------------------------------------------------------
# generic construction, substitution
# ---------------------------------------------------------------------------
CONS: dict = {}
NOLIFT = {"ite", "fm", "sum", "any", "fold", "first", "lam", "while", "var", "bv",
          "const", "num", "glob", "clo", "ref", "optim"}
MAXLEAVES = 48


def cons(op):
    def deco(f):
        CONS[op] = f
        return f
    return deco


def _leaves(t, cap):
    if t.op != "ite":
        return 1
    seen = {}

    def go(x):
        if x.op != "ite":
            return 1
        if x in seen:
            return seen[x]
        r = go(x.a[1]) + go(x.a[2])
        seen[x] = r
        return r
    return go(t)


def lift(op, a, f):
    """If some argument is a decision node, pull it out.  Returns None otherwise."""
    ites = [x for x in a if isinstance(x, T) and x.op == "ite"]
    if not ites:
        return None
    n = 1
    for x in set(ites):
        n *= _leaves(x, MAXLEAVES)
        if n > MAXLEAVES:
            return None
    atom = min((x.a[0] for x in ites), key=_okey)
    ta = [cofactor(x, atom, True) if isinstance(x, T) else x for x in a]
    fa = [cofactor(x, atom, False) if isinstance(x, T) else x for x in a]
    return ite(atom, f(*ta), f(*fa))


def mk(op, *a):
    if op not in NOLIFT:
        r = lift(op, a, lambda *b: mk(op, *b))
        if r is not None:
            return r
    c = CONS.get(op)
    if c is not None:
        return c(*a)
    return raw(op, *a)


_SUB = {}
_fresh = [0]


def fresh(ty=None, hint="v"):
    _fresh[0] += 1
    return var("%s~%d" % (hint, _fresh[0]), ty)


def subst(t, m):
    """Replace terms (keys are var/bv/other terms) by terms, renormalising."""
    if not m:
        return t
    keys_fv = set()
    keys_fb = set()
    other = []
    for k in m:
        if k.op == "var":
            keys_fv.add(k.a[0])
        elif k.op == "bv":
            keys_fb.add(k.a[0])
        else:
            other.append(k)
    memo = {}
    msz = min((k.sz for k in other), default=1 << 60)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        BUDGET[0] -= 1
        if BUDGET[0] < 0:
            raise Unsupported("budget")
        if x in m:
            r = m[x]
        elif (not (keys_fv and not keys_fv.isdisjoint(x.fv))
              and not (keys_fb and not keys_fb.isdisjoint(x.fb))
              and not (other and x.sz > msz)):
            r = x
        elif x.op in BINDERS:
            r = _sub_binder(x, go)
        else:
            na = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            if all(p is q for p, q in zip(na, x.a)):
                r = x
            else:
                r = rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def occurs_any(t, atom):
    """Does the (closed) term atom occur in t?"""
    st, seen, fv, msz = [t], set(), atom.fv, atom.sz
    while st:
        x = st.pop()
        if x is atom:
            return True
        if x in seen or x.sz < msz or not fv <= x.fv:
            continue
        seen.add(x)
        st += [y for y in x.a if isinstance(y, T)]
    return False


def rebuild(op, na):
    if op == "ite":
        return ite_c(cond_of_atom(na[0]), na[1], na[2])
    if op == "poly":
        return add(*na)
    if op == "mono":
        r = num(na[0])
        for x, e in zip(na[1::2], na[2::2]):
            r = mul(r, power(x, num(e)))
        return r
    return mk(op, *na)


def _sub_binder(x, go):
    h = x.a[0]
    nv, rest = _open(x)
    nr = tuple(go(y) if isinstance(y, T) else y for y in rest)
    return close(x.op, nv, *nr)


def _open(x):
    """Open a binder; returns (fresh variables, args)."""
    h = x.a[0]
    k = BINDERS[x.op]
    tys = x.a[1]
    nv = []
    m = {}
    for j, ty in enumerate(tys):
        v = fresh(ty)
        nv.append(v)
        m[raw("bv", h, j, ty)] = v
    return nv, tuple(subst(y, m) if isinstance(y, T) else y for y in x.a[2:])


def open_binder(x):
    return _open(x)


def close(op, vs, *rest):
    """Build binder node ``op`` binding variables vs in rest."""
    return CONS[op](vs, *rest)


def _bind(op, vs, *rest):
    h = 1 + max([y.bh for y in rest if isinstance(y, T)] + [0])
    m = {v: raw("bv", h, j, v.a[1]) for j, v in enumerate(vs)}
    rest2 = tuple(subst(y, m) if isinstance(y, T) else y for y in rest)
    # renormalisation may have changed heights
    h2 = 1 + max([y.bh for y in rest2 if isinstance(y, T)] + [0])
    if h2 > h:
        m = {v: raw("bv", h2, j, v.a[1]) for j, v in enumerate(vs)}
        rest2 = tuple(subst(y, m) if isinstance(y, T) else y for y in rest)
        h = h2
    return raw(op, h, tuple(v.a[1] for v in vs), *rest2)


# ---------------------------------------------------------------------------
# conditions and decision nodes
# ---------------------------------------------------------------------------
_SK = {}


def skel(t):
    """Skeleton digest: constants abstracted, used first for ordering."""
    r = _SK.get(t)
    if r is None:
        r = t.d
        _SK[t] = r
    return r


def _okey(t):
    return t.d


_ITE = {}


def cofactor(t, atom, val):
    if t.op != "ite":
        return t
    a0 = t.a[0]
    if a0 is atom:
        return t.a[1] if val else t.a[2]
    if _okey(a0) > _okey(atom):
        return t
    key = (t, atom, val)
    r = _COF.get(key)
    if r is None:
        x = cofactor(t.a[1], atom, val)
        y = cofactor(t.a[2], atom, val)
        r = _node(a0, x, y)
        _COF[key] = r
    return r


_COF: dict = {}


def cofactor_any(t, atom, val):
    """Cofactor with respect to an atom anywhere in the tree."""
    if t.op != "ite":
        return t
    if t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    x = cofactor_any(t.a[1], atom, val)
    y = cofactor_any(t.a[2], atom, val)
    if x is t.a[1] and y is t.a[2]:
        return t
    return ite_c(_atom(t.a[0]), x, y)


def _node(atom, x, y):
    if x is y:
        return x
    if atom.op == "any":
        # some element satisfies the condition: there are elements
        n = atom.a[2]
        for l in (n.a if n.op == "minof" else (n,)):
            if l.op == "len" and isinstance(l, T):
                x2 = cofactor_any(x, raw("truth", l.a[0]), True)
                if x2 is not x:
                    return _node(atom, x2, y)
    if atom.op == "lt" and (isnum(atom.a[0]) or isnum(atom.a[1])):
        x2, y2 = _bounded(x, atom, True), _bounded(y, atom, False)
        if x2 is not x or y2 is not y:
            return _node(atom, x2, y2)
    if atom.op == "isinstance" and x.op == "ite":
        x2 = _exclude(x, atom)
        if x2 is not x:
            return _node(atom, x2, y)
    r = _collapse(atom, x, y)
    if r is not None:
        return r
    if atom.op == "lt" and x.op != "ite" and y.op != "ite" and not (isconst(x) and isconst(y)) \
            and (numy(x) or isconst(x)) and (numy(y) or isconst(y)) and (
            numy(x) or numy(y)) and x.ty != "arr" and y.ty != "arr" \
            and x.ty != "bool" and y.ty != "bool":
        a = raw("ite", atom, TRUE, FALSE)
        na = raw("ite", atom, FALSE, TRUE)
        l1, l2 = lt(x, y), lt(y, x)
        if l1 is a or l2 is na:
            return mk("minof", x, y)
        if l2 is a or l1 is na:
            return mk("maxof", x, y)
    if atom.op in ("lt", "eq"):
        USED.add(atom)
    return raw("ite", atom, x, y)


PLAIN = {"str", "bytes", "int", "float", "complex", "tuple", "list", "dict", "set",
         "frozenset", "numpy.ndarray", "scipy.sparse.spmatrix", "sympy.Symbol"}
USED: set = set()           # conditions some value depends on
EXCLUSIVE: set = set()      # pairs of classes of the repository without common instances


def exclusive(x, y):
    if not (x.op == y.op == "glob") or x is y:
        return False
    j, k = x.a[0], y.a[0]
    return j in PLAIN and k in PLAIN or (j, k) in EXCLUSIVE


def _bounded(t, atom, val):
    """Comparisons of the same value with other constants the fact decides."""
    if t.op != "ite":
        return t
    p, q = atom.a
    u, c, up = (p, q.a[0], True) if isnum(q) else (q, p.a[0], False)
    # u < c (up) or c < u
    for at in atoms_of(t):
        if at.op == "eq":
            k = at.a[1] if at.a[0] is u else at.a[0] if at.a[1] is u else None
            if k is None or not isnum(k):
                continue
            k = k.a[0]
            if (k < c if up else c < k) != val:
                t = cofactor_any(t, at, False)
        elif at.op == "lt" and at is not atom and u in at.a:
            up2 = at.a[0] is u
            k = at.a[1] if up2 else at.a[0]
            if not isnum(k):
                continue
            k = k.a[0]
            d = None
            if up == up2:
                # u < c, u < k   |   c < u, k < u
                if val and (k >= c if up else k <= c):
                    d = True
                if not val and (k <= c if up else k >= c):
                    d = False
            else:
                # u < c, k < u   |   c < u, u < k
                if val and (k >= c if up else k <= c):
                    d = False
                if not val and (k < c if up else k > c):
                    d = True
            if d is not None:
                t = cofactor_any(t, at, d)
    return t


def _exclude(t, atom):
    """What is an instance of one class is not one of an unrelated class."""
    k = atom.a[1]
    if k.op != "glob" or t.op != "ite":
        return t
    for at in atoms_of(t):
        if at.op == "isinstance" and at.a[0] is atom.a[0] and exclusive(k, at.a[1]):
            t = cofactor_any(t, at, False)
    return t


def _collapse(atom, x, y):
    """atom ? x : y  where y specialised to the fact equals x (or vice versa)."""
    if atom.op == "eq":
        p, q = atom.a
        for u, c in ((p, q), (q, p)):
            if isconst(c) and not isconst(u):
                if u.op in ("poly", "mono"):
                    sv = _solve(u, c)
                    if sv is None:
                        continue
                    u, c = sv
                if y.sz < 4000 and _occurs(y, u):
                    if subst(y, {u: c}) is x:
                        return y
                if x.sz < 4000 and _occurs(x, u):
                    nx = subst(x, {u: c})
                    if nx is not x:
                        return ite_c(cond_of_atom(atom), nx, y)
                break
    if atom.op == "truth":
        u = atom.a[0]
        ln = raw("len", u)
        if x.sz < 4000 and (_occurs(x, ln)) and not _has_ite(x):
            if subst(x, {ln: ZERO}) is y:
                return x
        if y.sz < 4000 and _occurs(y, ln):
            ny = subst(y, {ln: ZERO})
            if ny is not y:
                return ite_c(atom, x, ny)
    return None


def _solve(u, c):
    """u == c for poly u with a single linear unit atom -> (atom, const)."""
    if u.op == "mono" and c.op == "num":
        if len(u.a) == 3 and u.a[2] == 1:
            return u.a[1], num(c.a[0] / u.a[0])
    return None


_OCC = {}


def _occurs(t, u):
    if t is u:
        return True
    if t.sz <= u.sz:
        return False
    key = (t, u)
    r = _OCC.get(key)
    if r is None:
        r = any(isinstance(y, T) and _occurs(y, u) for y in t.a)
        _OCC[key] = r
    return r


occurs = _occurs


def _has_ite(t):
    return t.op == "ite"


def ite_c(c, x, y):
    """General if-then-else where c is a boolean term (decision tree over atoms)."""
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op != "ite":
        c = to_cond(c)
        if c is TRUE:
            return x
        if c is FALSE:
            return y
    key = (c, x, y)
    r = _ITE.get(key)
    if r is not None:
        return r
    if x is TRUE and y is FALSE:
        return c
    tops = [c.a[0]]
    if x.op == "ite":
        tops.append(x.a[0])
    if y.op == "ite":
        tops.append(y.a[0])
    atom = min(tops, key=_okey)
    t1 = ite_c(cofactor(c, atom, True), cofactor(x, atom, True),
               cofactor(y, atom, True))
    t0 = ite_c(cofactor(c, atom, False), cofactor(x, atom, False),
               cofactor(y, atom, False))
    r = _node(atom, t1, t0)
    _ITE[key] = r
    return r


def ite(c, x, y):
    return ite_c(to_cond(c), x, y)


def cond_of_atom(a):
    """Boolean decision tree for an (already renormalised) atom term."""
    return to_cond(a)


def _atom(t):
    return raw("ite", t, TRUE, FALSE)


def to_cond(t):
    """Truth value of an arbitrary term as decision tree with TRUE/FALSE leaves."""
    op = t.op
    if op == "const":
        return TRUE if t.a[1] not in (False, None, "", b"") else FALSE
    if op == "num":
        return TRUE if t.a[0] != 0 else FALSE
    if op == "ite":
        if _is_bool_tree(t):
            return t
        x = to_cond(t.a[1])
        y = to_cond(t.a[2])
        return ite_c(_atom(t.a[0]), x, y)
    if t.ty == "bool" and op in ("eq", "lt", "is", "in", "any", "truth", "isinstance",
                                 "throws", "cmpx"):
        return _atom(t)
    if op == "glob" or op == "lam" or op == "clo":
        return TRUE
    if op == "set":
        return not_(eq(slen(t.a[0]), ZERO))
    if op in ("list", "tuple", "dict"):
        n = length(t)
        if n.op == "num":
            return TRUE if n.a[0] != 0 else FALSE
        return not_(eq(n, ZERO))
    if t.ty == "bool":
        return _atom(raw("truth", t))
    if t.ty in ("int", "num"):
        c = not_(eq(t, ZERO))
        if nullable(t):
            return ite_c(is_(t, NONE), FALSE, c)
        return c
    return _atom(raw("truth", t))


NULLABLE = set()        # parameters of the function at hand annotated Optional[number]


def nullable(t):
    return t in NULLABLE or t.op == "attr" and t.a[1] == "number_of_shots"


_BT = {}


def _is_bool_tree(t):
    r = _BT.get(t)
    if r is None:
        r = (t is TRUE or t is FALSE) or (
            t.op == "ite" and _is_bool_tree(t.a[1]) and _is_bool_tree(t.a[2]))
        _BT[t] = r
    return r


def not_(c):
    c = to_cond(c)
    return ite_c(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite_c(to_cond(c), r, FALSE) if r is not FALSE else FALSE
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite_c(to_cond(c), TRUE, r)
    return r


def atoms_of(t, acc=None):
    """Atoms of the decision tree."""
    if acc is None:
        acc = {}
    if t.op == "ite" and t not in acc:
        acc[t] = 1
        acc[t.a[0]] = 1
        atoms_of(t.a[1], acc)
        atoms_of(t.a[2], acc)
    return [k for k in acc if k.op != "ite"]


def leaves_of(t):
    out = {}
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "ite":
            go(x.a[1])
            go(x.a[2])
        else:
            out[x] = 1
    go(t)
    return list(out)


def map_leaves(t, f):
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == "ite":
            r = ite_c(_atom(x.a[0]), go(x.a[1]), go(x.a[2]))
        else:
            r = f(x)
        memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------------------
# arithmetic
# ---------------------------------------------------------------------------
def _monos(t):
    """term -> dict monomial-key -> Fraction; key = tuple of (atom, exp) sorted."""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        r = {}
        for m in t.a:
            r.update(_monos(m))
        return r
    if t.op == "mono":
        return {tuple(zip(t.a[1::2], t.a[2::2])): t.a[0]}
    return {((t, 1),): Fraction(1)}


def _from_monos(d):
    items = [(k, c) for k, c in d.items() if c != 0]
    if not items:
        return ZERO
    out = []
    for k, c in items:
        if not k:
            out.append(raw("num", c))
        elif len(k) == 1 and k[0][1] == 1 and c == 1:
            out.append(k[0][0])
        else:
            flat = []
            for x, e in k:
                flat.append(x)
                flat.append(e)
            out.append(raw("mono", c, *flat))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.d)
    return raw("poly", *out)


def numy(t):
    return t.ty in NUMERIC


def add(*ts):
    for t in ts:
        if t.op == "ite":
            r = lift("add", ts, add)
            if r is not None:
                return r
            break
    d = {}
    for t in ts:
        for k, c in _monos(b2i(t)).items():
            d[k] = d.get(k, 0) + c
    return _from_monos(d)


def b2i(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def neg(t):
    return mul(num(-1), t)


def sub(x, y):
    return add(x, neg(y))


def _mulkey(k1, k2):
    d = dict(k1)
    for x, e in k2:
        d[x] = d.get(x, 0) + e
    c = Fraction(1)
    out = []
    for x, e in d.items():
        if e == 0:
            continue
        if x is IMAG:
            e = e % 4
            if e >= 2:
                c = -c
                e -= 2
            if e == 0:
                continue
        out.append((x, e))
    out.sort(key=lambda p: p[0].d)
    # merge powers with the same base: c**a * c**b
    pw = [(x, e) for x, e in out if x.op == "pow" and e == 1]
    if len(pw) >= 2:
        bases = {}
        for x, e in pw:
            bases.setdefault(x.a[0], []).append(x)
        for b, xs in bases.items():
            if len(xs) >= 2:
                rest = [p for p in out if p[0] not in xs]
                newp = power(b, add(*[x.a[1] for x in xs]))
                base = _from_monos({tuple(rest): c}) if rest or True else ONE
                return None, mul(base, newp)
    return c, tuple(out)


def mul(*ts):
    for t in ts:
        if t.op == "ite":
            r = lift("mul", ts, mul)
            if r is not None:
                return r
            break
    acc = {(): Fraction(1)}
    for t in ts:
        mt = _monos(b2i(t))
        if len(mt) * len(acc) > 400:
            # too large to expand: treat as atoms
            x = _from_monos(acc)
            acc = {tuple(sorted([(x, 1), (t, 1)], key=lambda p: p[0].d)): Fraction(1)}
            continue
        new = {}
        extra = []
        for k1, c1 in acc.items():
            for k2, c2 in mt.items():
                c, k = _mulkey(k1, k2)
                if c is None:
                    for kk, cc in _monos(k).items():
                        new[kk] = new.get(kk, 0) + cc * c1 * c2
                else:
                    new[k] = new.get(k, 0) + c * c1 * c2
        acc = new
    return _from_monos(acc)


def inv(t):
    if t.op == "num":
        if t.a[0] == 0:
            return raw("inv0")
        return num(1 / t.a[0])
    if t.op == "ite":
        r = lift("inv", (t,), inv)
        if r is not None:
            return r
    m = _monos(t)
    if len(m) == 1:
        (k, c), = m.items()
        c2 = Fraction(1) / c
        d = {}
        for x, e in k:
            if x is IMAG:
                c2 = -c2
                d[x] = 1
            elif x.op == "pow":
                return mul(power(t if len(k) == 1 and c == 1 else t, num(-1)), ONE) \
                    if False else _invmono(k, c)
            else:
                d[x] = -e
        key = tuple(sorted(d.items(), key=lambda p: p[0].d))
        return _from_monos({key: c2})
    # normalise leading coefficient
    lead = sorted(m.items(), key=lambda kv: [(x.d, e) for x, e in kv[0]])[0][1]
    p = _from_monos({k: c / lead for k, c in m.items()})
    return _from_monos({((p, -1),): Fraction(1) / lead})


def _invmono(k, c):
    r = num(1 / c)
    for x, e in k:
        if x is IMAG:
            r = mul(r, num(-1), IMAG)
        elif x.op == "pow":
            r = mul(r, power(x.a[0], mul(num(-e), x.a[1])))
        else:
            r = mul(r, _from_monos({((x, -e),): Fraction(1)}))
    return r


def div(x, y):
    return mul(x, inv(y))


def power(b, e):
    for t in (b, e):
        if t.op == "ite":
            r = lift("power", (b, e), power)
            if r is not None:
                return r
            break
    if isint(e):
        n = int(e.a[0])
        if n == 0:
            return ONE
        if n == 1:
            return b
        if isnum(b):
            if b.a[0] == 0 and n < 0:
                return raw("inv0")
            if abs(n) < 200:
                return num(b.a[0] ** n)
        if numy(b) or True:
            m = _monos(b)
            if n < 0:
                return power(inv(b), num(-n))
            if len(m) == 1:
                (k, c), = m.items()
                r = num(c ** n)
                for x, ee in k:
                    if x is IMAG:
                        for _ in range(n % 4):
                            r = mul(r, IMAG)
                    elif x.op == "pow":
                        r = mul(r, power(x.a[0], mul(num(n * ee), x.a[1])))
                    else:
                        r = mul(r, _from_monos({((x, ee * n),): Fraction(1)}))
                return r
            if n <= 4:
                return mul(*([b] * n))
            return _from_monos({((b, n),): Fraction(1)})
    if isnum(b) and isnum(e):
        if b.a[0] == 1:
            return ONE
        if e.a[0] == Fraction(1, 2) and b.a[0] > 0:
            import math
            p, q = b.a[0].numerator, b.a[0].denominator
            rp, rq = math.isqrt(p), math.isqrt(q)
            if rp * rp == p and rq * rq == q:
                return num(Fraction(rp, rq))
        return raw("pow", b, e)
    if isnum(b) and b.a[0] == 1:
        return ONE
    if isnum(b) and b.a[0] != 0:
        # pull out constant integer part of the exponent
        m = _monos(e)
        c = m.get((), Fraction(0))
        if c.denominator == 1 and c != 0 and abs(c) < 200:
            m2 = dict(m)
            del m2[()]
            rest = _from_monos(m2)
            return mul(num(b.a[0] ** int(c)), power(b, rest))
    return raw("pow", b, e)


@cons("pow")
def _c_pow(b, e):
    return power(b, e)


@cons("abs")
def absv(x):
    if isnum(x):
        return num(abs(x.a[0]))
    m = _monos(x)
    if len(m) == 1:
        (k, c), = m.items()
        if c < 0:
            return absv(mul(num(-1), x))
    elif m:
        lead = sorted(m.items(), key=lambda kv: [(y.d, e) for y, e in kv[0]])[0][1]
        if lead < 0:
            return absv(mul(num(-1), x))
    if x.op == "abs":
        return x
    return raw("abs", x)


@cons("floordiv")
def floordiv(x, y):
    if isint(x) and isint(y) and y.a[0] != 0:
        return num(int(x.a[0]) // int(y.a[0]))
    if y is ONE:
        return x
    x, k = _multiples(x, y)
    return add(raw("floordiv", x, y), k)


def _multiples(x, y):
    """(x - k*y, k) for the integral multiple k of the divisor y among the terms of x."""
    if x.op != "poly" or y.op in ("poly", "mono"):
        return x, ZERO
    if y.op == "num":
        c = _monos(x).get((), 0)
        if not isint(y) or not c or c.denominator != 1:
            return x, ZERO
        k = c // y.a[0]
        return (sub(x, num(k * y.a[0])), num(k)) if k else (x, ZERO)
    c = _monos(x).get(((y, 1),), 0)
    if not c or c.denominator != 1:
        return x, ZERO
    return sub(x, mul(num(c), y)), num(c)


@cons("mod")
def mod(x, y):
    if isint(x) and isint(y) and y.a[0] != 0:
        return num(int(x.a[0]) % int(y.a[0]))
    return raw("mod", _multiples(x, y)[0], y)


# ---------------------------------------------------------------------------
# comparisons
# ---------------------------------------------------------------------------
def _norm_lead(t):
    """poly t -> (scaled t with positive leading coefficient one, sign)."""
    m = _monos(t)
    ks = [k for k in m if k]
    if not ks:
        return t, 1
    lead = sorted(ks, key=lambda k: [(y.d, e) for y, e in k])[0]
    c = m[lead]
    if c == 1:
        return t, 1
    return _from_monos({k: v / abs(c) if True else v for k, v in m.items()}) if c > 0 \
        else _from_monos({k: v / abs(c) for k, v in m.items()}), (1 if c > 0 else -1)


def _no_elements(x):
    """len(x) == 0"""
    if x.op == "set":
        return eq(slen(x.a[0]), ZERO)
    return not_(raw("truth", x))


@cons("eq")
def eq(x, y):
    r = lift("eq", (x, y), eq)
    if r is not None:
        return r
    if x is y:
        return TRUE
    if x in (TRUE, FALSE) and y.ty == "bool":
        return to_cond(y) if x is TRUE else not_(y)
    if y in (TRUE, FALSE) and x.ty == "bool":
        return to_cond(x) if y is TRUE else not_(x)
    if isconst(x) and isconst(y):
        if x.op == y.op or {x.op, y.op} <= {"num", "const"}:
            return FALSE
    if x is NONE or y is NONE:
        return is_(x, y)
    if (numy(x) and numy(y)) or (numy(x) and isnum(y)) or (numy(y) and isnum(x)):
        if x.ty != "arr" and y.ty != "arr":
            d = sub(x, y)
            if isnum(d):
                return TRUE if d.a[0] == 0 else FALSE
            m = _monos(d)
            c0 = m.pop((), Fraction(0))
            lhs = _from_monos(m)
            n, sg = _norm_lead(lhs)
            lead = None
            # rescale constant in the same way
            ks = [k for k in m if k]
            l = sorted(ks, key=lambda k: [(z.d, e) for z, e in k])[0]
            c = m[l]
            lhs = _from_monos({k: v / c for k, v in m.items()})
            rhs = num(-c0 / c)
            if lhs.op == "len" and rhs is ZERO:
                return _no_elements(lhs.a[0])
            if lhs.op == "len" and isnum(rhs) and rhs.a[0] < 0:
                return FALSE
            if lhs.op == "mod" and lhs.ty == "int" and isint(lhs.a[1]) and \
                    lhs.a[1].a[0] == 2 and isnum(rhs) and rhs is not ZERO:
                return not_(eq(lhs, ZERO)) if rhs is ONE else FALSE
            p, q = sorted((lhs, rhs), key=lambda t: t.d)
            return _atom(raw("eq", p, q))
    for p, q in ((x, y), (y, x)):
        if q.op in ("list", "tuple", "dict", "set") and q.a[0] is NIL and p.ty == q.op:
            return not_(to_cond(p))
    # containers of known equal kind and length
    if x.op == y.op and x.op in ("list", "tuple") and x.a[0].op == "seq" \
            and y.a[0].op == "seq":
        if len(x.a[0].a) != len(y.a[0].a):
            return FALSE
        return and_(*[eq(p, q) for p, q in zip(x.a[0].a, y.a[0].a)])
    for p, q in ((x, y), (y, x)):
        # the two numbers of rows and columns
        h = p.a[0].a[0] if p.op == "tuple" and p.a[0].op == "it" else p
        if h.op == "attr" and h.a[1] == "shape" and q.op == "tuple" and q.a[0].op == "seq" \
                and len(q.a[0].a) == 2:
            return and_(*[eq(mk("item", h, num(j)), z) for j, z in enumerate(q.a[0].a)])
        # all the elements are the same one
        if p.op == "set" and q.op == "set" and p.a[0].op == "fm" and q.a[0].op == "seq" \
                and len(q.a[0].a) == 1 and isconst(q.a[0].a[0]):
            return and_(not_(eq(slen(p.a[0]), ZERO)),
                        allseq(p.a[0], lambda e: eq(e, q.a[0].a[0])))
        # a permutation of 0, ..., n - 1
        if p.op == "call" and p.a[0] is _SORTED and len(p.a) == 2 and q.op in ("list", "tuple"):
            n = _range_len(q.a[0])
            if n is not None and n is mk("len", p.a[1]):
                return eq(mk("set", it(p.a[1])), mk("set", q.a[0]))
    p, q = sorted((x, y), key=lambda t: t.d)
    return _atom(raw("eq", p, q))


_SORTED = glob("sorted")


def _range_len(S):
    """n for the sequence 0, ..., n - 1."""
    if S.op == "fm":
        vs, (n, body) = open_binder(S)
        if len(vs) == 1 and body.op == "seq" and len(body.a) == 1 and body.a[0] is vs[0]:
            return n
    return None


@cons("is")
def is_(x, y):
    r = lift("is", (x, y), is_)
    if r is not None:
        return r
    if x is y:
        return TRUE
    if isconst(x) and isconst(y):
        return FALSE
    for p, q in ((x, y), (y, x)):
        if p is NONE and (q.op in ("list", "tuple", "dict", "set", "poly", "mono",
                                   "len", "fmt", "gen", "lam", "clo", "ref")
                          or q.ty in ("bool", "str") and q.op not in ("var", "attr")):
            return FALSE
        if p is NONE and q.op == "call" and isinstance(q.a[0], T) \
                and q.a[0].op == "glob" and q.a[0].a[0].split(".")[-1][:1].isupper():
            return FALSE
        if p is NONE and q.op == "item" and q.a[0].op == "dict" and not _occurs(q.a[0], NONE):
            return FALSE
        if p is NONE and _is_match(q):
            return not_(to_cond(q))
        if p is NONE and q.op == "first":
            c, v = q.a[-2], q.a[-1]
            root = c.a[0] if c.op == "ite" else c
            if _has_attr_of(root, v):
                return FALSE        # the search itself reads an attribute of the element
        if p.op == "call" and p.a[0].op == "glob" and p.a[0].a[0] == "type":
            return eq(x, y)
    p, q = sorted((x, y), key=lambda t: t.d)
    return _atom(raw("is", p, q))


def _has_attr_of(t, v, depth=6):
    if not isinstance(t, T) or depth == 0:
        return False
    if t.op == "attr" and t.a[0] is v:
        return True
    return any(_has_attr_of(x, v, depth - 1) for x in t.a if isinstance(x, T))


def _is_match(q):
    """A match object or None: truth value and test for None agree."""
    return q.op == "call" and q.a[0].op == "glob" and q.a[0].a[0] in (
        "re.match", "re.search", "re.fullmatch") or q.op == "meth" and q.a[0] in (
        "fullmatch",) or q.op == "meth" and q.a[0] in ("match", "search") and \
        q.a[1].op == "call" and q.a[1].a[0].op == "glob" and q.a[1].a[0].a[0] == "re.compile"


@cons("truth")
def truth(x):
    return to_cond(x)


def lt(x, y):
    """x < y"""
    r = lift("lt", (x, y), lt)
    if r is not None:
        return r
    if (numy(x) or numy(y) or isnum(x) or isnum(y)) and x.ty != "arr" and y.ty != "arr":
        d = sub(x, y)
        return _lt0(d)
    return _atom(raw("lt", x, y))


def _lt0(d):
    if isnum(d):
        return TRUE if d.a[0] < 0 else FALSE
    m = _monos(d)
    c0 = m.pop((), Fraction(0))
    ks = list(m)
    l = sorted(ks, key=lambda k: [(z.d, e) for z, e in k])[0]
    c = m[l]
    if d.ty == "int":
        # d < 0
        if c < 0:
            # not (d >= 0) == not(-d-1 < 0)
            return not_(_lt0_norm({k: -v for k, v in m.items()}, -c0 - 1, True))
        return _lt0_norm(m, c0, True)
    if c < 0:
        # lhs' > c' form
        mm = {k: -v for k, v in m.items()}
        return _gt0_norm(mm, -c0)
    return _lt0_norm(m, c0, False)


def _lt0_norm(m, c0, integer):
    """sum(m) + c0 < 0"""
    import math
    if integer:
        g = 0
        for v in m.values():
            g = math.gcd(g, int(v)) if v.denominator == 1 else 1
        g = abs(g) or 1
        m = {k: v / g for k, v in m.items()}
        # sum(m)*g < -c0  -> sum(m) < ceil(-c0/g)
        b = Fraction(math.ceil(Fraction(-c0) / g))
    else:
        l = sorted(m, key=lambda k: [(z.d, e) for z, e in k])[0]
        c = m[l]
        m = {k: v / c for k, v in m.items()}
        b = -c0 / c
    lhs = _from_monos(m)
    if lhs.op == "len":
        if b <= 0:
            return FALSE
        if b == 1:
            return _no_elements(lhs.a[0])
    if integer and len(m) == 2:
        u = _uniq_pair(m)
        if u is not None:
            a, z, sg = u            # len(z) <= len(a);  lhs = sg * (len(a) - len(z))
            if sg > 0 and b <= 0:
                return FALSE
            if sg > 0 and b == 1:
                return eq(lhs, ZERO)
            if sg < 0 and b >= 1:
                return TRUE
            if sg < 0 and b == 0:
                return not_(eq(lhs, ZERO))
    if integer and lhs.op == "mod" and isint(lhs.a[1]) and lhs.a[1].a[0] > 0:
        if b <= 0:
            return FALSE
        if b >= lhs.a[1].a[0]:
            return TRUE
        if b == 1:
            return eq(lhs, ZERO)
        if b == lhs.a[1].a[0] - 1:
            return not_(eq(lhs, num(b)))
    return _atom(raw("lt", lhs, num(b)))


def _uniq_pair(m):
    """(a, z, sign) when the polynomial is the number of elements of a sequence minus the
    number of its distinct elements, or the opposite."""
    (k1, c1), (k2, c2) = m.items()
    if abs(c1) != 1 or c1 != -c2 or len(k1) != 1 or len(k2) != 1:
        return None
    for (p, cp), (q, cq) in (((k1, c1), (k2, c2)), ((k2, c2), (k1, c1))):
        x, z = p[0][0], q[0][0]
        if p[0][1] == 1 and q[0][1] == 1 and z.op == "len" and z.a[0].op == "set" and \
                slen(z.a[0].a[0]) is x:
            return x, z, (1 if cp > 0 else -1)
    return None


def _gt0_norm(m, c0):
    """sum(m) + c0 > 0"""
    l = sorted(m, key=lambda k: [(z.d, e) for z, e in k])[0]
    c = m[l]
    m = {k: v / c for k, v in m.items()}
    b = -c0 / c
    lhs = _from_monos(m)
    return _atom(raw("lt", num(b), lhs))


@cons("lt")
def _c_lt(x, y):
    return lt(x, y)


def le(x, y):
    return not_(lt(y, x)) if (numy(x) or numy(y) or isnum(x) or isnum(y)) \
        else _atom(raw("le", x, y)) if False else not_(lt(y, x))


@cons("in")
def in_(x, y):
    r = lift("in", (x, y), in_)
    if r is not None:
        return r
    if y.op in ("list", "tuple", "set") and y.a[0].op == "seq":
        return or_(*[eq(x, e) for e in y.a[0].a])
    if y.op == "keys":
        return in_(x, y.a[0])
    if x.op == "key" and x.a[0] is y:
        return TRUE
    if y.op == "const" and x.op == "const" and isinstance(y.a[1], str) \
            and isinstance(x.a[1], str):
        return TRUE if x.a[1] in y.a[1] else FALSE
    if y.op in ("list", "tuple", "gen", "set") and y.a[0].op == "it":
        return in_(x, y.a[0].a[0])
    if y.op == "dict" and y.a[0].op == "seq" and len(y.a[0].a) <= 12:
        ks = [e.a[0].a[0] for e in y.a[0].a if e.op == "tuple" and e.a[0].op == "seq"]
        if len(ks) == len(y.a[0].a):
            return or_(*[eq(x, e) for e in ks])
    return _atom(raw("in", x, y))


ABC = {"list": ("Sequence", "Iterable", "Collection", "Sized", "MutableSequence", "Reversible"),
       "tuple": ("Sequence", "Iterable", "Collection", "Sized", "Reversible"),
       "set": ("Iterable", "Collection", "Sized", "Set", "MutableSet"),
       "dict": ("Iterable", "Collection", "Sized", "Mapping", "MutableMapping"),
       "str": ("Sequence", "Iterable", "Collection", "Sized")}


@cons("isinstance")
def isinstance_(x, c):
    r = lift("isinstance", (x, c), isinstance_)
    if r is not None:
        return r
    k = x.op if x.op in ABC else "str" if x.op == "fmt" or x.op == "const" and x.a[0] == "str" \
        else None
    if k is not None and c.op == "glob":
        if c.a[0] == k:
            return TRUE
        if c.a[0] in ABC or c.a[0] in ("int", "float", "complex", "bool"):
            return FALSE
        if c.a[0].split(".")[0] in ("typing", "collections") and \
                c.a[0].split(".")[-1] in ABC[k]:
            return TRUE
    if x.op == "call" and x.a[0] is c and c.op == "glob" and c.a[0].startswith("~") and \
            c.a[0].lstrip("~_")[:1].isupper():
        return TRUE
    if c.op == "tuple" and c.a[0].op == "seq":
        return or_(*[isinstance_(x, e) for e in c.a[0].a])
    if x.op == "tuple" and c.op == "glob" and c.a[0] == "tuple":
        return TRUE
    return _atom(raw("isinstance", x, c))


@cons("bin")
def _c_bin(op, a, b):
    if op == "+" and b.op == "bin" and b.a[0] == "+":
        # concatenation of circuits, lists and operators is associative
        return _c_bin("+", _c_bin("+", a, b.a[1]), b.a[2])
    return raw("bin", op, a, b)


@cons("setattr")
def _c_setattr(o, name, v):
    if o.op in ("setattr", "ite"):
        p = _drop_attr(o, name)
        if p is not None:
            o = p
    return raw("setattr", o, name, v)


def _drop_attr(o, name):
    """o without its last assignments of one attribute; None when none of them goes."""
    if o.op == "setattr" and o.a[1] is name:
        return _drop_attr(o.a[0], name) or o.a[0]
    if o.op == "ite":
        a, b = (_drop_attr(x, name) or x for x in o.a[1:])
        if a is b:
            return a
    return None


@cons("cmpx")
def cmpx(*a):
    if a[0] in ("<=", ">="):
        x, y = (a[1], a[2]) if a[0] == "<=" else (a[2], a[1])
        if x.op == "set" and y.ty == "set":
            return allseq(x.a[0], lambda e: in_(e, y))
    return _atom(raw("cmpx", *a))


@cons("throws")
def throws(e, t):
    return _atom(raw("throws", e, t))


# ---------------------------------------------------------------------------
# sequences
# ---------------------------------------------------------------------------
NIL = raw("seq")


def seq(*e):
    return mk("seq", *e)


def cat(*ss):
    r = lift("cat", ss, cat)
    if r is not None:
        return r
    out = []
    for x in ss:
        if x.op == "cat":
            parts = x.a
        else:
            parts = (x,)
        for p in parts:
            if p.op == "seq":
                if not p.a:
                    continue
                if out and out[-1].op == "seq":
                    out[-1] = raw("seq", *(out[-1].a + p.a))
                    continue
            out.append(p)
    if not out:
        return NIL
    if len(out) == 1:
        return out[0]
    return raw("cat", *out)


CONS["cat"] = cat


def fm(n, f, hint="i"):
    """flat map: concatenation of f(i) for i in range(n)"""
    i = fresh("int", hint)
    return CONS["fm"]([i], n, f(i))


UNROLL = 6


@cons("fm")
def _c_fm(vs, n, body):
    i = vs[0]
    if n.op == "ite":
        r = lift("fm", (n,), lambda m: _c_fm(vs, m, body))
        if r is not None:
            return r
    if isint(n):
        k = int(n.a[0])
        if k <= 0:
            return NIL
        if k <= UNROLL:
            return cat(*[subst(body, {i: num(j)}) for j in range(k)])
    body = _nonempty(body, n, i)
    if body is NIL:
        return NIL
    b2 = _skip_last(body, i, n, NIL)
    if b2 is not None:
        return _c_fm(vs, sub(n, ONE), b2)
    r = _unswitch(body, i, lambda b: _c_fm(vs, n, b))
    if r is not None:
        return r
    if body.op == "seq" and len(body.a) == 1:
        e = body.a[0]
        if e.op == "item" and e.a[1] is i and i.a[0] not in e.a[0].fv \
                and n is length(e.a[0]):
            return it(e.a[0])
    return _bind("fm", vs, n, body)


def _nonempty(body, n, i):
    """Inside a loop over n elements n is positive and the index lies below n."""
    cs = [not_(lt(i, ZERO))] if body.op == "ite" else []
    for m in (n.a if n.op == "minof" else (n,)):
        if not isnum(m):
            cs += [lt(ZERO, m), not_(eq(m, ZERO)), not_(lt(m, ONE))]
        if body.op == "ite" and (m.ty == "int" or isnum(m)):
            cs += [lt(i, m), not_(eq(i, m))]
    if cs:
        for c in cs:
            if c.op == "ite" and c.a[1] in (TRUE, FALSE) and c.a[2] in (TRUE, FALSE):
                body = cofactor_any(body, c.a[0], c.a[1] is TRUE)
                if c.a[0] in USED and c.a[0].fv and c.a[0].fv <= body.fv and body.sz < 3000 \
                        and occurs_any(body, c.a[0]):
                    body = subst(body, {c.a[0]: c.a[1]})
    return in_range(body, i, n)


def in_range(body, i, n):
    """Order comparisons of an index 0 <= i < n that single out one end are equations."""
    if body.sz > 3000:
        return body
    m = {}
    for at, c in ((lt(i, ONE), eq(i, ZERO)), (lt(ZERO, i), not_(eq(i, ZERO)))) + (
            () if n.ty != "int" or n.op == "minof" else
            ((lt(sub(n, i), num(2)), eq(sub(n, i), ONE)),
             (lt(i, sub(n, ONE)), not_(eq(sub(n, i), ONE))))):
        if at.op != "ite" or at.a[1] not in (TRUE, FALSE) or at.a[2] not in (TRUE, FALSE) \
                or at.a[0].op != "lt":
            continue
        a = at.a[0]
        if a in USED and a.fv <= body.fv and i.a[0] in a.fv and a not in m and \
                occurs_any(body, a):
            m[a] = c if at.a[1] is TRUE else not_(c)
    return subst(body, m) if m else body


RANGE: dict = {}            # loop index -> number of iterations


def _skip_last(body, i, n, nothing):
    """Nothing happens for the last element: the loop runs over one element less."""
    if body.op != "ite" or n.ty != "int":
        return None
    c = eq(i, sub(n, ONE))
    if c.op != "ite" or not any(a is c.a[0] for a in atoms_of(body)):
        return None
    pos = c.a[1] is TRUE
    if cofactor_any(body, c.a[0], pos) is nothing:
        return cofactor_any(body, c.a[0], not pos)
    return None


def _unswitch(body, i, k):
    """body is a decision node on a loop-invariant atom."""
    if body.op != "ite":
        return None
    for at in atoms_of(body):
        if i.a[0] not in at.fv:
            return ite_c(_atom(at), k(_cof_any(body, at, True)),
                         k(_cof_any(body, at, False)))
    return None


def _cof_any(t, atom, val):
    return cofactor(t, atom, val)


def it(x):
    """elements of iterable x as a sequence"""
    r = lift("it", (x,), it)
    if r is not None:
        return r
    op = x.op
    if op in ("list", "tuple", "gen"):
        return x.a[0]
    if op in ("copy", "deepcopy") and x.ty != "arr":
        return it(x.a[0])
    if op == "dict":
        sq = x.a[0]
        if sq.op == "seq":
            return seq(*[item(e, ZERO) for e in sq.a])
        ks = _none_keys(sq)
        if ks is not None:
            return newof(NIL, ks)
        return raw("it", x)
    if op == "keys":
        return it(x.a[0])
    if op == "items":
        d = x.a[0]
        if d.op == "dict" and d.a[0].op == "seq":
            return d.a[0]
        return fm(length(d), lambda i: seq(tup(key_at(d, i), val_at(d, i))))
    if op == "values":
        d = x.a[0]
        if d.op == "dict" and d.a[0].op == "seq":
            return seq(*[item(e, ONE) for e in d.a[0].a])
        return fm(length(d), lambda i: seq(val_at(d, i)))
    if op == "reversed":
        y = x.a[0]
        return rev(it(y), y)
    if op == "slice" and x.a[1] is NONE and x.a[2] is NONE and x.a[3] is num(-1):
        return rev(it(x.a[0]), x.a[0])
    if op == "slice" and x.a[3] is NONE and x.a[0].ty != "str":
        lo, hi = x.a[1], x.a[2]
        k = 0 if lo is NONE else int(lo.a[0]) if isint(lo) else -1
        h = 0 if hi is NONE else -int(hi.a[0]) if isint(hi) and hi.a[0] < 0 else -1
        if k >= 0 and h >= 0:
            return fm(sub(length(x.a[0]), num(k + h)),
                      lambda i: seq(item(x.a[0], add(i, num(k)))))
    if op == "const" and x.a[0] == "str" and len(x.a[1]) <= 12:
        return seq(*[s(c) for c in x.a[1]])
    if x.ty == "dict" and op != "it":
        return fm(length(x), lambda i: seq(key_at(x, i)))
    return raw("it", x)


CONS["it"] = it


def _none_keys(S):
    """Keys of dict content all of whose values are None, as a sequence."""
    if S.op == "seq":
        if all(item(e, ONE) is NONE for e in S.a):
            return seq(*[item(e, ZERO) for e in S.a])
        return None
    if S.op == "cat":
        ps = [_none_keys(p) for p in S.a]
        return None if any(p is None for p in ps) else cat(*ps)
    if S.op == "ite":
        x, y = _none_keys(S.a[1]), _none_keys(S.a[2])
        return None if x is None or y is None else ite_c(_atom(S.a[0]), x, y)
    if S.op == "fm":
        vs, (n, b) = open_binder(S)
        k = _none_keys(b)
        return None if k is None else CONS["fm"](vs, n, k)
    return None


def newof(known, S):
    """First occurrences in S of elements that are not in the sequence `known`."""
    if S is NIL:
        return NIL
    if S.op == "seq" and len(S.a) == 1 and known is NIL:
        return S
    return raw("it", raw("newof", mk("set", known), raw("list", S)))


def rev(S, y=None):
    if S.op == "seq":
        return seq(*reversed(S.a))
    if S.op == "cat":
        return cat(*[rev(p) for p in reversed(S.a)])
    if S.op == "it":
        n = length(S.a[0])
        z = S.a[0]
        return fm(n, lambda i: seq(item(z, sub(sub(n, ONE), i))))
    if S.op == "fm":
        vs, (n, body) = open_binder(S)
        b2 = rev(body)
        return _c_fm(vs, n, subst(b2, {vs[0]: sub(sub(n, ONE), vs[0])}))
    if S.op == "ite":
        return ite_c(_atom(S.a[0]), rev(S.a[1]), rev(S.a[2]))
    return raw("rev", S)


CONS["rev"] = rev


def key_at(d, i):
    return raw("key", d, i)


def val_at(d, i):
    return raw("val", d, i)


def tup(*e):
    return mk("tuple", seq(*e))


def lst(*e):
    return mk("list", seq(*e))


def bindseq(S, f):
    """flat map f over sequence S (f: elem -> sequence)"""
    op = S.op
    if op == "seq":
        return cat(*[f(e) for e in S.a])
    if op == "cat":
        return cat(*[bindseq(p, f) for p in S.a])
    if op == "ite":
        return ite_c(_atom(S.a[0]), bindseq(S.a[1], f), bindseq(S.a[2], f))
    if op == "fm":
        vs, (n, body) = open_binder(S)
        return _c_fm(vs, n, bindseq(body, f))
    if op == "it":
        x = S.a[0]
        return fm(length(x), lambda i: f(item(x, i)))
    n = slen(S)
    return fm(n, lambda i: f(sitem(S, i)))


def slen(S):
    op = S.op
    if op == "seq":
        return num(len(S.a))
    if op == "cat":
        return add(*[slen(p) for p in S.a])
    if op == "ite":
        return ite_c(_atom(S.a[0]), slen(S.a[1]), slen(S.a[2]))
    if op == "it":
        return length(S.a[0])
    if op == "fm":
        vs, (n, body) = open_binder(S)
        return summ(vs[0], n, slen(body))
    if op == "rev":
        return slen(S.a[0])
    return raw("len", raw("list", S))


CONS["slen"] = slen


@cons("len")
def length(x):
    if x.op == "call" and len(x.a) == 2 and x.a[0] in _ZEROS and x.a[1].ty in ("int", "num"):
        return x.a[1]
    r = lift("len", (x,), length)
    if r is not None:
        return r
    op = x.op
    if op in ("list", "tuple", "gen"):
        return slen(x.a[0])
    if op == "set" and x.a[0].op == "seq" and len(x.a[0].a) <= 1:
        return num(len(x.a[0].a))
    if op == "set" and x.a[0].op == "fm":
        # distinct elements: the indices or the keys of a dictionary
        vs, (n, body) = open_binder(x.a[0])
        if body.op == "seq" and len(body.a) == 1:
            es = body.a[0].a[0].a if body.a[0].op == "tuple" and \
                body.a[0].a[0].op == "seq" else (body.a[0],)
            if any(e is vs[0] or e.op == "key" and e.a[1] is vs[0] for e in es):
                return n
    if op == "dict" and x.a[0].op == "seq":
        ks = [item(e, ZERO) for e in x.a[0].a]
        if all(isconst(k) for k in ks) and len(set(ks)) == len(ks):
            return num(len(ks))
    if op in ("keys", "values", "items", "reversed", "copy", "deepcopy"):
        return length(x.a[0])
    if op == "call" and isinstance(x.a[0], T) and x.a[0].op == "glob" \
            and x.a[0].a[0] == "sorted":
        return length(x.a[1])
    if op == "setitem" and x.a[0].ty != "dict" and x.a[0].op != "call":
        return length(x.a[0])
    if op == "slice" and x.a[0].op == "call" and x.a[0].a[0].op == "glob" \
            and x.a[0].a[0].a[0] in ("bin", "hex", "oct") and x.a[2] is NONE \
            and x.a[3] is NONE and isint(x.a[1]) and 0 <= x.a[1].a[0] <= 3:
        return sub(length(x.a[0]), x.a[1])      # "0b" and at least one digit
    if op == "const" and x.a[0] == "str":
        return num(len(x.a[1]))
    return raw("len", x)


def sitem(S, i):
    """i-th element of a sequence"""
    op = S.op
    if op == "it":
        return item(S.a[0], i)
    if isint(i):
        k = int(i.a[0])
        if op == "seq":
            if -len(S.a) <= k < len(S.a):
                return S.a[k]
        if op == "cat":
            if k >= 0 and S.a[0].op == "seq" and k < len(S.a[0].a):
                return S.a[0].a[k]
            if k < 0 and S.a[-1].op == "seq" and -k <= len(S.a[-1].a):
                return S.a[-1].a[k]
    if op == "fm":
        vs, (n, body) = open_binder(S)
        if body.op == "seq" and len(body.a) == 1:
            if isint(i) and i.a[0] < 0:
                return subst(body.a[0], {vs[0]: add(n, i)})
            return subst(body.a[0], {vs[0]: i})
    if op == "rev" :
        return sitem(S.a[0], sub(sub(slen(S.a[0]), ONE), i))
    return raw("item", raw("list", S), i)


def sitem_ok(S, i):
    r = sitem(S, i)
    return r


_ZEROS = (glob("numpy.zeros"), glob("numpy.ones"))


@cons("item")
def item(x, i):
    if x.op == "call" and len(x.a) == 2 and x.a[0] in _ZEROS and x.a[1].ty in ("int", "num") \
            and i.ty == "int":
        return ZERO if x.a[0] is _ZEROS[0] else ONE
    r = lift("item", (x, i), item)
    if r is not None:
        return r
    op = x.op
    if op in ("list", "tuple", "gen"):
        if numy(i) or isint(i):
            return sitem(x.a[0], i)
    if op == "copy" and x.ty != "arr":
        return item(x.a[0], i)
    if op == "dict":
        sq = x.a[0]
        if sq.op == "seq" and sq.a:
            for e in reversed(sq.a):
                k = item(e, ZERO)
                if k is i:
                    return item(e, ONE)
                if not (isconst(k) and isconst(i)):
                    break
        if sq.op == "cat" and sq.a[-1].op == "seq":
            e = sq.a[-1].a[-1]
            if item(e, ZERO) is i:
                return item(e, ONE)
    if op == "setitem":
        if x.a[1] is i:
            return x.a[2]
        if isconst(x.a[1]) and isconst(i) and not _negidx(x.a[1], i):
            return item(x.a[0], i)
    if i.op == "key" and i.a[0] is x:
        return val_at(x, i.a[1])
    if op == "slice" and isint(i) and i.a[0] >= 0 and x.a[2] is NONE and x.a[3] is NONE \
            and isint(x.a[1]) and x.a[1].a[0] >= 0:
        return item(x.a[0], add(i, x.a[1]))
    if isint(i) and _is_match(x):
        return raw("meth", "group", x, i)
    if op == "meth" and x.a[0] == "groups" and len(x.a) == 2 and isint(i) and i.a[0] >= 0:
        return raw("meth", "group", x.a[1], add(i, ONE))
    if i.op == "bv" or not isconst(i):
        # x[len(x) - k] -> x[-k]
        d = sub(i, raw("len", x)) if i.ty == "int" else None
        if d is not None and isint(d) and d.a[0] < 0:
            return item(x, d)
    if op == "const" and x.a[0] == "str" and isint(i):
        k = int(i.a[0])
        if -len(x.a[1]) <= k < len(x.a[1]):
            return s(x.a[1][k])
    return raw("item", x, i)


def _negidx(a, b):
    return a.op == "num" and b.op == "num" and (a.a[0] < 0) != (b.a[0] < 0)


@cons("key")
def _c_key(d, i):
    if d.op == "dict" and d.a[0].op == "seq" and isint(i):
        k = int(i.a[0])
        if 0 <= k < len(d.a[0].a):
            return item(d.a[0].a[k], ZERO)
    return raw("key", d, i)


@cons("val")
def _c_val(d, i):
    if d.op == "dict" and d.a[0].op == "seq" and isint(i):
        k = int(i.a[0])
        if 0 <= k < len(d.a[0].a):
            return item(d.a[0].a[k], ONE)
    return raw("val", d, i)


@cons("list")
def _c_list(S):
    return raw("list", S)


def _c_sorted(op):
    def f(*a):
        return raw(op, *sorted(a, key=lambda t: t.d))
    return f


for _op in ("bitxor", "bitor", "bitand"):
    CONS[_op] = _c_sorted(_op)


def _c_ext(which):
    """Extremum of several values / of the elements of a sequence."""
    def of(*xs):
        r = lift(which + "of", xs, of)
        if r is not None:
            return r
        out = []
        for x in xs:
            if x.op == which + "of":
                out += x.a
            else:
                out.append(x)
        seqs = [_shifted(which, x) for x in out]
        if any(q is not None for q in seqs):
            parts = [q if q is not None else seq(x) for x, q in zip(out, seqs)]
            return sq(raw("list", cat(*sorted(parts, key=lambda t: t.d))))
        out = sorted(set(out), key=lambda t: t.d)
        if len(out) > 1 and all(x.op == "poly" and x.ty != "arr" for x in out):
            # a common constant
            c0 = [_monos(x).get((), 0) for x in out]
            if c0[0] != 0 and all(c == c0[0] for c in c0):
                return add(of(*[sub(x, num(c0[0])) for x in out]), num(c0[0]))
        if 1 < len(out) <= 6 and all(numy(x) for x in out):
            drop = set()
            for x in out:
                for y in out:
                    if x is not y and y not in drop and x not in drop:
                        df = sub(x, y)
                        if isnum(df) and not isinstance(df.a[0], complex) and (
                                df.a[0] < 0) == (which == "max"):
                            drop.add(x)
            out = [x for x in out if x not in drop]
        nums = [x for x in out if isnum(x)]
        if len(nums) > 1:
            best = (max if which == "max" else min)(nums, key=lambda t: t.a[0])
            out = sorted([x for x in out if not isnum(x)] + [best], key=lambda t: t.d)
        if len(out) == 1:
            return out[0]
        return raw(which + "of", *out)

    def sq(L):
        S = L.a[0] if L.op in ("list", "tuple", "gen") else it(L)
        while S.op == "it" and S.a[0].op in ("set", "list", "tuple", "gen"):
            S = S.a[0].a[0]
        S = _flat_ext(S, which)
        if S.op == "seq" and S.a:
            return of(*S.a)
        if S.op == "ite":
            return ite_c(_atom(S.a[0]), sq(raw("list", S.a[1])), sq(raw("list", S.a[2])))
        if S.op == "cat":
            S = raw("cat", *sorted(set(S.a), key=lambda t: t.d)) if len(set(S.a)) > 1 else S.a[0]
        return raw(which + "seq", raw("list", S))
    CONS[which + "of"] = of
    CONS[which + "seq"] = sq


def _shifted(which, x):
    """k + maxseq(S) as the sequence of k + s."""
    if x.op == which + "seq":
        return x.a[0].a[0]
    if x.op == "poly":
        ks = _monos(x)
        es = [k for k in ks if len(k) == 1 and k[0][0].op == which + "seq" and k[0][1] == 1
              and ks[k] == 1]
        if len(es) == 1 and len([k for k in ks if k != ()]) == 1:
            e = es[0][0][0]
            d = num(ks.get((), 0))
            return bindseq(e.a[0].a[0], lambda z: seq(add(z, d)))
    return None


def _flat_ext(S, which):
    """Replace elements that are themselves extrema by the elements they range over."""
    if S.op == "seq":
        if any(e.op in (which + "seq", which + "of") for e in S.a):
            return cat(*[_flat_ext(e.a[0].a[0], which) if e.op == which + "seq" else
                         seq(*e.a) if e.op == which + "of" else seq(e) for e in S.a])
        return S
    if S.op == "cat":
        return cat(*[_flat_ext(x, which) for x in S.a])
    if S.op == "ite":
        return ite_c(_atom(S.a[0]), _flat_ext(S.a[1], which), _flat_ext(S.a[2], which))
    if S.op == "fm":
        vs, (n, b) = open_binder(S)
        b2 = _flat_ext(b, which)
        if b2 is not b:
            return CONS["fm"](vs, n, b2)
    return S


_c_ext("max")
_c_ext("min")


@cons("eff")
def _c_eff(tr, *ws):
    return raw("eff", tr, *sorted(ws, key=lambda t: t.d))


@cons("tuple")
def _c_tuple(S):
    if S.op == "it" and S.a[0].ty == "tuple":
        return S.a[0]
    return raw("tuple", S)


@cons("set")
def _c_set(S):
    # iteration order and duplicates are irrelevant
    if S.op == "it" and S.a[0].ty == "set":
        return S.a[0] if S.a[0].op != "var" else raw("set", S)
    if S.op == "seq":
        es = sorted(set(S.a), key=lambda t: t.d)
        return raw("set", raw("seq", *es))
    if S.op == "cat":
        return raw("set", raw("cat", *sorted(set(S.a), key=lambda t: t.d)))
    return raw("set", S)


@cons("dict")
def _c_dict(S):
    if S.op == "seq":
        # drop overwritten constant keys
        ks = [item(e, ZERO) for e in S.a]
        if len(set(ks)) < len(ks):
            last = {}
            for k, e in zip(ks, S.a):
                last[k] = e
            done = []
            seen = set()
            for k in ks:
                if k not in seen:
                    seen.add(k)
                    done.append(last[k])
            return raw("dict", raw("seq", *done))
    return raw("dict", S)


# ---------------------------------------------------------------------------
# reductions
# ---------------------------------------------------------------------------
def summ(i, n, body):
    return CONS["sum"]([i], n, body)


@cons("sum")
def _c_sum(vs, n, body):
    i = vs[0]
    body = _nonempty(b2i(body), n, i)
    if n.op == "ite":
        r = lift("sum", (n,), lambda m: _c_sum(vs, m, body))
        if r is not None:
            return r
    r = _unswitch(body, i, lambda b: _c_sum(vs, n, b))
    if r is not None:
        return r
    if body.op != "ite" and i.a[0] not in body.fv:
        return mul(n, body)
    if body.op == "ite":
        b = body
        while b.op == "ite":
            b = b.a[2]
        ls = leaves_of(body)
        if b is not ZERO and all(isnum(x) for x in ls):
            # counted from the value where no condition holds
            return add(mul(n, b), _c_sum(vs, n, map_leaves(body, lambda x: sub(x, b))))
        if all(x is ZERO or _sign(x) < 0 for x in ls):
            return neg(_c_sum(vs, n, map_leaves(body, neg)))
    if isint(n) and 0 <= n.a[0] <= UNROLL:
        return add(ZERO, *[subst(body, {i: num(j)}) for j in range(int(n.a[0]))])
    if body.op in ("poly", "mono"):
        out = []
        for k, c in _monos(body).items():
            ins = [(x, e) for x, e in k if i.a[0] in x.fv]
            outs = [(x, e) for x, e in k if i.a[0] not in x.fv]
            if not ins:
                out.append(mul(_from_monos({tuple(outs): c}), n))
            else:
                b = _from_monos({tuple(ins): Fraction(1)})
                out.append(mul(_from_monos({tuple(outs): c}),
                               _bind("sum", vs, n, b)))
        return add(*out)
    return _bind("sum", vs, n, body)


def _sign(t):
    """Sign of the coefficient of the first monomial (0: not a polynomial)."""
    if t.op not in ("num", "mono", "poly"):
        return 0
    c = next(iter(_monos(t).values()))
    return -1 if c < 0 else 1


def sumseq(S):
    op = S.op
    if op == "seq":
        return add(ZERO, *S.a)
    if op == "cat":
        return add(*[sumseq(p) for p in S.a])
    if op == "ite":
        return ite_c(_atom(S.a[0]), sumseq(S.a[1]), sumseq(S.a[2]))
    if op == "fm":
        vs, (n, body) = open_binder(S)
        return _c_sum(vs, n, sumseq(body))
    i = fresh("int")
    return _c_sum([i], slen(S), sitem(S, i))


def anyv(i, n, c):
    return CONS["any"]([i], n, c)


@cons("any")
def _c_any(vs, n, c):
    c = to_cond(c)
    i = vs[0]
    c = _nonempty(c, n, i)
    if n.op == "ite":
        r = lift("any", (n,), lambda m: _c_any(vs, m, c))
        if r is not None:
            return r
    if c is FALSE:
        return FALSE
    if c is TRUE:
        return lt(ZERO, n)
    r = _unswitch(c, i, lambda b: _c_any(vs, n, b))
    if r is not None:
        return r
    if isint(n) and n.a[0] <= UNROLL:
        return or_(FALSE, *[subst(c, {i: num(j)}) for j in range(int(n.a[0]))])
    # split disjunctions
    if c.op == "ite":
        ats = atoms_of(c)
        if len(ats) > 1:
            for at in ats:
                x, y = cofactor_any(c, at, True), cofactor_any(c, at, False)
                if x is TRUE:
                    return or_(_c_any(vs, n, _atom(at)), _c_any(vs, n, y))
                if y is TRUE:
                    return or_(_c_any(vs, n, not_(_atom(at))), _c_any(vs, n, x))
    return _atom(_bind("any", vs, n, c))


def anyseq(S, f=None):
    op = S.op
    f = f or to_cond
    if op == "seq":
        return or_(*[f(e) for e in S.a])
    if op == "cat":
        return or_(*[anyseq(p, f) for p in S.a])
    if op == "ite":
        return ite_c(_atom(S.a[0]), anyseq(S.a[1], f), anyseq(S.a[2], f))
    if op == "fm":
        vs, (n, body) = open_binder(S)
        return _c_any(vs, n, anyseq(body, f))
    i = fresh("int")
    return _c_any([i], slen(S), f(sitem(S, i)))


def allseq(S, f=None):
    f = f or to_cond
    return not_(anyseq(S, lambda e: not_(f(e))))


@cons("fold")
def _c_fold(vs, n, init, body):
    """vs = [i, acc]; value of acc after n iterations"""
    i, acc = vs
    if n.op == "ite":
        r = lift("fold", (n,), lambda m: _c_fold(vs, m, init, body))
        if r is not None:
            return r
    if isint(n) and n.a[0] <= 0:
        return init
    if isint(n) and n.a[0] <= UNROLL and body.sz < 2000:
        r = init
        for j in range(int(n.a[0])):
            r = subst(body, {i: num(j), acc: r})
        return r
    body = _nonempty(body, n, i)
    if body is acc:
        return init
    r = _fill(i, acc, n, init, body)
    if r is not None:
        return r
    b2 = _skip_last(body, i, n, acc)
    if b2 is not None:
        return _c_fold(vs, sub(n, ONE), init, b2)
    if body.op == "setitem" and body.a[0] is acc and body.a[1].op == "key" and \
            body.a[1].a[1] is i and body.a[1].a[0] is init and acc.a[0] in body.a[2].fv:
        # every entry is replaced once: its old value is the one before the loop
        g = subst(body.a[2], {mk("item", acc, body.a[1]): val_at(init, i)})
        if acc.a[0] not in g.fv:
            body = raw("setitem", acc, body.a[1], g)
    return _bind("fold", vs, n, init, body)


def _fill(i, acc, n, init, body):
    """Loops that write every element of a list once, in order, or that append to a string."""
    if body.op == "setitem" and body.a[1] is i and acc.a[0] not in body.a[2].fv and \
            body.a[0].op in ("bv", "var", "list") and acc.a[0] in body.a[0].fv and \
            init.op == "list" and length(init) is n:
        b = body.a[0]
        if b is acc or b.op == "list" and b.a[0] in (acc, it(acc)):
            return mk("list", CONS["fm"]([i], n, seq(body.a[2])))
    if body.op == "fmt" and body.a[0] is acc and (init.ty == "str") and \
            all(acc.a[0] not in x.fv for x in body.a[1:]):
        j = mk("join", s(""), raw("list", CONS["fm"]([i], n, seq(fmt(*body.a[1:])))))
        return fmt(init, j)
    return None


@cons("first")
def _c_first(vs, n, c, v):
    i = vs[0]
    if i.a[0] not in v.fv:
        return v
    return _bind("first", vs, n, c, v)


@cons("lam")
def _c_lam(vs, body):
    if len(vs) == 1 and body.op == "call" and len(body.a) == 2 and body.a[1] is vs[0] \
            and body.a[0].op == "glob":
        return body.a[0]          # eta
    return _bind("lam", vs, body)


@cons("while")
def _c_while(vs, init, cond, body):
    return _bind("while", vs, init, cond, body)


@cons("call")
def _c_call(h, *a):
    if h is _DICT and len(a) == 1 and a[0].op in ("list", "tuple", "gen"):
        return mk("dict", it(a[0]))
    return raw("call", h, *a)


_DICT = glob("dict")


@cons("matmul")
def _c_matmul(a, b):
    if b.op == "matmul":
        return mk("matmul", mk("matmul", a, b.a[0]), b.a[1])
    return raw("matmul", a, b)


@cons("optim")
def _c_optim(vs, *rest):
    return _bind("optim", vs, *rest)


# ---------------------------------------------------------------------------
# strings
# ---------------------------------------------------------------------------
@cons("fmt")
def fmt(*parts):
    out = []
    for p in parts:
        ps = p.a if p.op == "fmt" else (p,)
        for q in ps:
            if q.op == "const" and q.a[0] == "str":
                if q.a[1] == "":
                    continue
                if out and out[-1].op == "const" and out[-1].a[0] == "str":
                    out[-1] = s(out[-1].a[1] + q.a[1])
                    continue
            out.append(q)
    if not out:
        return s("")
    if len(out) == 1 and (out[0].op == "const" and out[0].a[0] == "str"
                          or out[0].ty == "str"):
        return out[0]
    return raw("fmt", *out)


# ---------------------------------------------------------------------------
# printing
# ---------------------------------------------------------------------------
def show(t, depth=9, maxlen=400):
    r = _show(t, depth)
    if len(r) > maxlen:
        r = r[:maxlen] + "..."
    return r


def _q(x):
    return x.split(".")[-1]


def _show(t, d):
    if not isinstance(t, T):
        return repr(t)
    if d <= 0:
        return "…"
    f = lambda x: _show(x, d - 1)
    op, a = t.op, t.a
    if op == "num":
        return str(a[0])
    if op == "const":
        return repr(a[1]) if a[0] != "float" else a[1]
    if op == "var":
        return a[0]
    if op == "bv":
        return "$%d%s" % (a[0], "" if a[1] == 0 else "'" * a[1])
    if op == "glob":
        return _q(a[0])
    if op == "attr":
        return f(a[0]) + "." + a[1]
    if op == "item":
        return "%s[%s]" % (f(a[0]), f(a[1]))
    if op == "call":
        return "%s(%s)" % (f(a[0]), ", ".join(f(x) if isinstance(x, T) else str(x) + "=" for x in a[1:]))
    if op == "meth":
        return "%s.%s(%s)" % (f(a[1]), a[0], ", ".join(f(x) if isinstance(x, T) else str(x) + "=" for x in a[2:]))
    if op == "poly":
        return "(" + " + ".join(f(x) for x in a) + ")"
    if op == "mono":
        r = [] if a[0] == 1 else [str(a[0])]
        for x, e in zip(a[1::2], a[2::2]):
            r.append(f(x) + ("" if e == 1 else "^%s" % e))
        return "*".join(r)
    if op == "ite":
        return "if(%s; %s; %s)" % (f(a[0]), f(a[1]), f(a[2]))
    if op in ("list", "tuple", "set", "dict", "gen"):
        if a[0].op == "seq":
            br = {"list": "[]", "tuple": "()", "set": "{}", "dict": "{}", "gen": "<>"}[op]
            return br[0] + ", ".join(f(x) for x in a[0].a) + br[1]
        return "%s(%s)" % (op, f(a[0]))
    if op in BINDERS:
        return "%s{$%d<%s}" % (op, a[0], " ; ".join(f(x) for x in a[2:] if isinstance(x, T)))
    return "%s(%s)" % (op, ", ".join(f(x) for x in a))

"""C02, C18: gate matrices as elements of an exact ring, decided from the source alone.

A matrix factory is read as an expression over  Q(zeta_8)[pi, p1, p2, ...][e^(i*l)], l a rational
linear form in the (real) parameters: polynomials over linearly independent exponentials, so
two elements are the same function of the parameters exactly when their normal forms agree.
cos, sin and exp of linear forms, square roots of 1/2, 2, ..., sympy/numpy constants, products,
quotients by constants and by exponentials, matrix literals, sums, products, transposes and
calls of other factories are interpreted; anything else makes the obligation undecided.

Obligations, for all real parameter values at once:
  shape      the matrix is 2^n x 2^n for the n the gate table declares
  unitary    M M+ = 1
  hermitian  M = M+ when the table flags the gate self-adjoint
  group      M(a) M(b) = M(a+b) and M(0) = 1 for the rotation and phase gates
  relations  S S = Z, T T = S, SX SX = X, H Z H = X, CNOT / CZ / SWAP / Delay / I / X / Y / Z
  U3         (C18) the rotations that replace U3 multiply to U3 times a phase, which must be 1
             for the controlled gate
"""
from __future__ import annotations

import ast
from fractions import Fraction as F

from laws import HOLDS, Ob, UNDECIDED, VIOLATED, rule


class Unread(Exception):
    pass


# -- Q(zeta8): coefficients on 1, z, z^2, z^3 with z^4 = -1 -------------------------------------
def cmul(a, b):
    r = [F(0)] * 4
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if y:
                    k = i + j
                    r[k % 4] += -x * y if k >= 4 else x * y
    return tuple(r)


def cconj(a):
    return (a[0], -a[3], -a[2], -a[1])


def cinv(a):
    # the three other embeddings z -> z^3, z^5, z^7
    def emb(k):
        r = [F(0)] * 4
        for i, x in enumerate(a):
            e = (i * k) % 8
            r[e % 4] += -x if e >= 4 else x
        return tuple(r)
    o = cmul(cmul(emb(3), emb(5)), emb(7))
    n = cmul(a, o)
    if any(n[1:]) or not n[0]:
        raise Unread("division")
    return tuple(x / n[0] for x in o)


ONE = (F(1), F(0), F(0), F(0))
IMAG = (F(0), F(0), F(1), F(0))
ROOT2 = (F(0), F(1), F(0), F(-1))          # z + z^-1 = z - z^3
PI = "pi"


class El:
    """Sum of coefficient * monomial in the parameters and pi * e^(i * linear form)."""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = {k: c for k, c in d.items() if any(c)}

    def __add__(self, o):
        d = dict(self.d)
        for k, c in o.d.items():
            e = d.get(k)
            d[k] = c if e is None else tuple(x + y for x, y in zip(e, c))
        return El(d)

    def __neg__(self):
        return El({k: tuple(-x for x in c) for k, c in self.d.items()})

    def __sub__(self, o):
        return self + -o

    def __mul__(self, o):
        d = {}
        for (m1, e1), c1 in self.d.items():
            for (m2, e2), c2 in o.d.items():
                k = (merge(m1, m2), merge(e1, e2))
                c = cmul(c1, c2)
                e = d.get(k)
                d[k] = c if e is None else tuple(x + y for x, y in zip(e, c))
        return El(d)

    def inv(self):
        if len(self.d) != 1:
            raise Unread("division by a sum")
        ((m, e), c), = self.d.items()
        if m:
            raise Unread("division by a parameter")
        return El({((), tuple((n, -k) for n, k in e)): cinv(c)})

    def conj(self):
        return El({(m, tuple((n, -k) for n, k in e)): cconj(c) for (m, e), c in self.d.items()})

    def __eq__(self, o):
        return self.d == o.d

    def __hash__(self):
        return 0

    def rational(self):
        """The rational this is, or None."""
        if not self.d:
            return F(0)
        if len(self.d) == 1:
            ((m, e), c), = self.d.items()
            if not m and not e and not any(c[1:]):
                return c[0]
        return None

    def subs(self, name, f):
        """Exponentials with `name` replaced by the linear form f = {param: rational}."""
        r = El({})
        for (m, e), c in self.d.items():
            if any(n == name for n, _ in m):
                raise Unread("parameter outside an exponential")
            t = ()
            for n, k in e:
                t = merge(t, tuple(sorted((p, k * q) for p, q in f.items())) if n == name
                          else ((n, k),))
            r = r + El({(m, t): c})
        return r


def merge(a, b):
    d = dict(a)
    for n, k in b:
        d[n] = d.get(n, 0) + k
    return tuple(sorted((n, k) for n, k in d.items() if k))


def el(c):
    return El({((), ()): c})


def rat(q):
    return el((F(q), F(0), F(0), F(0)))


def sym(n):
    return El({(((n, 1),), ()): ONE})


def expo(x):
    """e^x for x = i * (rational linear form in the parameters and pi)."""
    e, z = [], 0
    for (m, ex), c in x.d.items():
        if ex or c[0] or c[1] or c[3]:
            raise Unread("exponent")
        if len(m) != 1 or m[0][1] != 1:
            raise Unread("exponent")
        if m[0][0] == PI:
            q = c[2] * 4
            if q.denominator != 1:
                raise Unread("fraction of pi")
            z = int(q) % 8
        else:
            e.append((m[0][0], c[2]))
    c = [F(0)] * 4
    c[z % 4] = F(-1 if z >= 4 else 1)
    return El({((), tuple(sorted(e))): tuple(c)})


def root(q):
    """Square root of a rational that is r^2 or 2 r^2."""
    def sq(n):
        r = int(n ** 0.5 + 0.5)
        return r if r * r == n else None
    if q < 0:
        raise Unread("root")
    for f, c in ((1, ONE), (2, ROOT2)):
        v = q / f
        a, b = sq(v.numerator), sq(v.denominator)
        if a is not None and b is not None:
            return rat(F(a, b)) * el(c)
    raise Unread("root")


# -- matrices: tuple of rows --------------------------------------------------------------------
def eye(n):
    return tuple(tuple(rat(int(i == j)) for j in range(n)) for i in range(n))


def mmul(a, b):
    if len(a[0]) != len(b):
        raise Unread("shapes")
    return tuple(tuple(total(r[k] * b[k][j] for k in range(len(b))) for j in range(len(b[0])))
                 for r in a)


def total(xs):
    t = El({})
    for x in xs:
        t = t + x
    return t


def scale(x, a):
    return tuple(tuple(x * e for e in r) for r in a)


def dagger(a):
    return tuple(tuple(a[i][j].conj() for i in range(len(a))) for j in range(len(a[0])))


def msubs(a, name, f):
    return tuple(tuple(e.subs(name, f) for e in r) for r in a)


# -- reading a factory --------------------------------------------------------------------------
class Reader:
    def __init__(self, prog, mod):
        self.prog, self.mod, self.depth = prog, mod, 0

    def lib(self, n):
        """Dotted name an expression denotes, imports resolved."""
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        head = self.mod.imports.get(n.id, n.id)
        return ".".join([head] + parts[::-1])

    def factory(self, name, args):
        f = None
        for k, g in self.prog.funcs.items():
            if g.mod is self.mod and g.cls is None and g.name == name:
                f = g
        if f is None or not isinstance(f.node, ast.FunctionDef) or f.node.decorator_list:
            raise Unread(name)
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg or a.kwonlyargs or len(ps) < len(args):
            raise Unread("signature of " + name)
        env = dict(zip(ps, args))
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            if p not in env:
                env[p] = self.ev(d, {})
        if len(env) != len(ps):
            raise Unread("signature of " + name)
        self.depth += 1
        if self.depth > 8:
            raise Unread("recursion")
        try:
            for s in f.node.body:
                if isinstance(s, ast.Return) and s.value is not None:
                    return self.ev(s.value, env)
                if isinstance(s, (ast.Expr, ast.Pass)) and isinstance(
                        getattr(s, "value", None), (ast.Constant, type(None))):
                    continue
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    v = self.ev(s.value, env)
                    for t in ts:
                        self.bind(t, v, env)
                    continue
                raise Unread(type(s).__name__)
        finally:
            self.depth -= 1
        raise Unread("no return")

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, list) and \
                len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                self.bind(a, b, env)
        else:
            raise Unread("target")

    def ev(self, n, env):
        """El, matrix (tuple of rows) or list."""
        if isinstance(n, ast.Constant):
            return self.const(n.value)
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            c = self.mod.consts.get(n.id)
            if isinstance(c, ast.AST):
                return self.ev(c, {})
            return self.known(self.lib(n))
        if isinstance(n, ast.Attribute):
            nm = self.lib(n)
            try:
                return self.known(nm)
            except Unread:
                pass
            v = self.ev(n.value, env)
            if isinstance(v, tuple) and n.attr == "T":
                return tuple(zip(*v))
            if isinstance(v, tuple) and n.attr == "H":
                return dagger(v)
            raise Unread(n.attr)
        if isinstance(n, (ast.List, ast.Tuple)):
            return [self.ev(e, env) for e in n.elts]
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, env)
            if isinstance(n.op, ast.USub):
                return scale(rat(-1), v) if isinstance(v, tuple) else -self.el(v)
            if isinstance(n.op, ast.UAdd):
                return v
            raise Unread("operator")
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env))
        if isinstance(n, ast.Call):
            return self.call(n, env)
        raise Unread(type(n).__name__)

    def el(self, v):
        if not isinstance(v, El):
            raise Unread("operand")
        return v

    def const(self, v):
        if isinstance(v, bool):
            raise Unread("constant")
        if isinstance(v, int):
            return rat(v)
        if isinstance(v, float):
            return rat(self.short(v))
        if isinstance(v, complex):
            return rat(self.short(v.real)) + rat(self.short(v.imag)) * el(IMAG)
        raise Unread("constant")

    def short(self, x):
        f = F(x) if x == x and abs(x) < 1e9 else None
        if f is None or f.denominator > 4096:
            raise Unread("decimal constant")
        return f

    def known(self, nm):
        if nm in ("numpy.pi", "math.pi", "sympy.pi", "cmath.pi"):
            return sym(PI)
        if nm in ("sympy.I", "sympy.core.numbers.I"):
            return el(IMAG)
        if nm in ("sympy.S.One", "sympy.S.Zero", "sympy.S.Half"):
            return rat({"One": 1, "Zero": 0, "Half": F(1, 2)}[nm[8:]])
        raise Unread(str(nm))

    def binop(self, op, a, b):
        A, B = isinstance(a, tuple), isinstance(b, tuple)
        if isinstance(op, (ast.Add, ast.Sub)):
            if A and B and len(a) == len(b) and len(a[0]) == len(b[0]):
                f = (lambda x, y: x + y) if isinstance(op, ast.Add) else (lambda x, y: x - y)
                return tuple(tuple(f(x, y) for x, y in zip(r, q)) for r, q in zip(a, b))
            a, b = self.el(a), self.el(b)
            return a + b if isinstance(op, ast.Add) else a - b
        if isinstance(op, (ast.Mult, ast.MatMult)):
            if A and B:
                return mmul(a, b)
            if isinstance(op, ast.MatMult):
                raise Unread("operand")
            if A:
                return scale(self.el(b), a)
            return scale(self.el(a), b) if B else self.el(a) * self.el(b)
        if isinstance(op, ast.Div):
            i = self.el(b).inv()
            return scale(i, a) if A else self.el(a) * i
        if isinstance(op, ast.Pow):
            q = self.el(b).rational()
            if q is None:
                raise Unread("power")
            if q.denominator == 1 and 0 <= abs(q) <= 8:
                base = a
                if q < 0:
                    base = self.el(a).inv()
                r = eye(len(a)) if A else rat(1)
                for _ in range(abs(int(q))):
                    r = mmul(r, base) if A else r * base
                return r
            if q.denominator == 2 and not A and abs(q) <= 4:
                v = self.el(a).rational()
                if v is None or v <= 0:
                    raise Unread("power")
                r = rat(1)
                for _ in range(abs(q.numerator)):
                    r = r * root(v)
                return r.inv() if q < 0 else r
        raise Unread("operator")

    def call(self, n, env):
        if any(isinstance(a, ast.Starred) for a in n.args):
            raise Unread("call")
        nm = self.lib(n.func)
        if nm and nm.split(".")[0] in ("numpy", "sympy", "math", "cmath") and not n.keywords:
            last = nm.rsplit(".", 1)[1]
            args = [self.ev(a, env) for a in n.args]
            if last in ("exp", "cos", "sin", "sqrt", "conjugate", "Integer", "Rational",
                        "sympify", "S", "Float") and args and all(
                            isinstance(a, El) for a in args):
                x = args[0]
                if nm.split(".")[0] != "sympy" and any(
                        e or any(n != PI for n, _ in m) for a in args for m, e in a.d):
                    raise Unread("%s of a symbol" % nm)
                if len(args) == 2 and last == "Rational":
                    return x * args[1].inv()
                if len(args) == 1:
                    if last == "exp":
                        return expo(x)
                    if last in ("cos", "sin"):
                        p, m = expo(x * el(IMAG)), expo(-x * el(IMAG))
                        return (p + m) * rat(F(1, 2)) if last == "cos" else \
                            (p - m) * (rat(2) * el(IMAG)).inv()
                    if last == "sqrt":
                        q = x.rational()
                        if q is None:
                            raise Unread("root")
                        return root(q)
                    if last == "conjugate":
                        return x.conj()
                    return x
            if last in ("simplify", "expand", "trigsimp", "nsimplify") and len(args) == 1 \
                    and last != "nsimplify":
                return args[0]
            if last in ("Matrix", "ImmutableMatrix", "ImmutableDenseMatrix", "MutableDenseMatrix"):
                return self.matrix(args)
            if last in ("eye", "identity") and len(args) == 1:
                return eye(self.size(args[0]))
            if last == "zeros" and len(args) == 1:
                k = self.size(args[0])
                return tuple(tuple(rat(0) for _ in range(k)) for _ in range(k))
            if last == "diag":
                return self.diag(args)
            raise Unread(nm)
        if n.keywords:
            raise Unread("call")
        args = [self.ev(a, env) for a in n.args]
        if isinstance(n.func, ast.Name) and n.func.id not in env:
            return self.factory(n.func.id, args)
        if isinstance(n.func, ast.Attribute):
            v = self.ev(n.func.value, env)
            if isinstance(v, tuple) and not args:
                if n.func.attr in ("simplify", "copy", "as_immutable", "expand"):
                    if n.func.attr == "simplify":
                        raise Unread("in place")
                    return v
                if n.func.attr in ("conjugate", "C"):
                    return tuple(tuple(e.conj() for e in r) for r in v)
                if n.func.attr == "transpose":
                    return tuple(zip(*v))
                if n.func.attr == "adjoint":
                    return dagger(v)
        raise Unread("call")

    def size(self, x):
        q = x.rational() if isinstance(x, El) else None
        if q is None or q.denominator != 1 or not 0 < q <= 16:
            raise Unread("size")
        return int(q)

    def matrix(self, args):
        if len(args) == 1 and isinstance(args[0], tuple):
            return args[0]
        if len(args) == 3 and isinstance(args[2], list):
            r, c = self.size(args[0]), self.size(args[1])
            if len(args[2]) != r * c:
                raise Unread("matrix")
            rows = [args[2][i * c:(i + 1) * c] for i in range(r)]
        elif len(args) == 1 and isinstance(args[0], list):
            rows = args[0]
        else:
            raise Unread("matrix")
        if not rows or not all(isinstance(r, list) and len(r) == len(rows[0]) and r and
                               all(isinstance(e, El) for e in r) for r in rows):
            raise Unread("matrix")
        return tuple(tuple(r) for r in rows)

    def diag(self, args):
        if len(args) == 1 and isinstance(args[0], list):
            args = args[0]
        if not args:
            raise Unread("diag")
        blocks = [a if isinstance(a, tuple) else ((self.el(a),),) for a in args]
        size = sum(len(b) for b in blocks)
        out = [[rat(0)] * size for _ in range(size)]
        o = 0
        for b in blocks:
            if len(b) != len(b[0]):
                raise Unread("diag")
            for i, r in enumerate(b):
                for j, e in enumerate(r):
                    out[o + i][o + j] = e
            o += len(b)
        return tuple(tuple(r) for r in out)


# -- the gate table -----------------------------------------------------------------------------
class Gate:
    __slots__ = ("name", "mod", "factory", "arity", "params", "n", "herm", "line", "table")


def module(prog, end):
    for m in prog.modules.values():
        if m.rel.endswith(end):
            return m
    return None


def gates(prog):
    """The rows of the gate table that can be read."""
    tab = module(prog, "circuits/_builtin_gates.py")
    out = {}
    if tab is None:
        return out
    for s in tab.tree.body:
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and
                isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call)):
            continue
        c = s.value
        fn = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        if fn == "MatrixFactoryGate":
            order = ["name", "matrix_factory", "params", "num_qubits", "is_hermitian"]
        elif fn == "make_parametric_gate_prototype":
            order = ["name", "matrix_factory", "num_qubits", "is_hermitian"]
        else:
            continue
        v = dict(zip(order, c.args))
        v.update({k.arg: k.value for k in c.keywords})
        f = v.get("matrix_factory")
        h, n = v.get("is_hermitian"), v.get("num_qubits")
        if not isinstance(f, ast.Attribute) or not isinstance(f.value, ast.Name) or \
                not isinstance(n, ast.Constant) or \
                not (h is None or isinstance(h, ast.Constant)):
            continue
        mod = prog.modules.get(prog.canon(tab.imports.get(f.value.id, "")))
        if mod is None:
            continue
        g = Gate()
        g.name, g.mod, g.factory, g.n = s.targets[0].id, mod, f.attr, n.value
        g.herm, g.line, g.table = bool(h and h.value), s.lineno, tab.rel
        node = next((q.node for q in prog.funcs.values()
                     if q.mod is mod and q.cls is None and q.name == f.attr), None)
        if not isinstance(node, ast.FunctionDef):
            continue
        g.params = [a.arg for a in node.args.posonlyargs + node.args.args]
        if fn == "MatrixFactoryGate" and g.params:
            continue
        out[g.name] = g
    return out


def matrix(prog, g, names=None):
    names = names or ["p%d" % i for i in range(len(g.params))]
    m = Reader(prog, g.mod).factory(g.factory, [sym(n) for n in names])
    if not isinstance(m, tuple):
        raise Unread("not a matrix")
    return m


def where(g):
    return "%s:%d" % (g.table, g.line)


ADDITIVE = ("RX", "RY", "RZ", "RH", "PHASE", "CPHASE", "XX", "YY", "ZZ", "XY")


def literal(rows):
    v = {0: rat(0), 1: rat(1), -1: rat(-1), 1j: el(IMAG), -1j: -el(IMAG)}
    return tuple(tuple(v[x] for x in r) for r in rows)


FIXED = {
    "X": [[0, 1], [1, 0]], "Y": [[0, -1j], [1j, 0]], "Z": [[1, 0], [0, -1]],
    "I": [[1, 0], [0, 1]],
    "CNOT": [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]],
    "CZ": [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1]],
    "SWAP": [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
    "Delay": [[1, 0], [0, 1]],
}
RELATIONS = [("S S = Z", ("S", "S"), "Z"), ("T T = S", ("T", "T"), "S"),
             ("SX SX = X", ("SX", "SX"), "X"), ("H Z H = X", ("H", "Z", "H"), "X")]


@rule("C02")
def algebra(X, tier):
    prog = X.cur
    G = gates(prog)
    M = {}

    def decide(oid, loc, f, what):
        try:
            ok = f()
        except Unread as e:
            return Ob(oid, UNDECIDED, loc, ["not interpreted: %s" % e])
        return Ob(oid, HOLDS if ok else VIOLATED, loc, [] if ok else [what])

    for name, g in sorted(G.items()):
        try:
            M[name] = m = matrix(prog, g)
        except Unread as e:
            yield Ob("gate %s matrix" % name, UNDECIDED, where(g), ["not interpreted: %s" % e])
            continue
        k = 2 ** g.n if isinstance(g.n, int) and 0 <= g.n < 6 else -1
        yield decide("gate %s dimension" % name, where(g),
                     lambda: len(m) == k and len(m[0]) == k,
                     "matrix is %dx%d but the gate declares %s qubit(s)" %
                     (len(m), len(m[0]), g.n))
        yield decide("gate %s unitary" % name, where(g),
                     lambda: len(m) == len(m[0]) and mmul(m, dagger(m)) == eye(len(m)),
                     "%s times its conjugate transpose is not the identity" % g.factory)
        if g.herm:
            yield decide("gate %s self-adjoint" % name, where(g), lambda: m == dagger(m),
                         "flagged self-adjoint but %s differs from its conjugate transpose"
                         % g.factory)
        if name in ADDITIVE and len(g.params) == 1:
            yield decide("gate %s group" % name, where(g),
                         lambda: mmul(m, msubs(m, "p0", {"p1": F(1)})) ==
                         msubs(m, "p0", {"p0": F(1), "p1": F(1)}),
                         "%s(a) %s(b) is not %s(a+b)" % (name, name, name))
            yield decide("gate %s at zero" % name, where(g),
                         lambda: msubs(m, "p0", {}) == eye(len(m)),
                         "%s(0) is not the identity" % name)
        if name in FIXED:
            yield decide("gate %s matrix" % name, where(g), lambda: m == literal(FIXED[name]),
                         "%s is not the matrix of %s" % (g.factory, name))
    for what, left, right in RELATIONS:
        if all(n in M for n in left + (right,)):
            def f():
                p = M[left[0]]
                for n in left[1:]:
                    p = mmul(p, M[n])
                return p == M[right]
            yield decide("relation %s" % what, where(G[left[0]]), f, "%s does not hold" % what)


def same_matrix(X, key):
    """Do the reference's and the current version of a matrix factory agree in the ring?"""
    f, g = X.cur.funcs.get(key), X.ref.funcs.get(key)
    if f is None or g is None or not f.mod.rel.endswith("circuits/_matrices.py"):
        return False
    try:
        ms = []
        for p, h in ((X.cur, f), (X.ref, g)):
            k = len(h.node.args.posonlyargs + h.node.args.args)
            ms.append((k, Reader(p, h.mod).factory(h.name, [sym("p%d" % i) for i in range(k)])))
        return ms[0] == ms[1] and isinstance(ms[0][1], tuple)
    except (Unread, AttributeError):
        return False


# -- C18 ----------------------------------------------------------------------------------------
@rule("C18")
def rotations(X, tier):
    prog = X.cur
    G = gates(prog)
    for k, f in sorted(prog.funcs.items()):
        if f.cls is None or f.cls.name != "U3GateToRotation" or f.name != "production":
            continue
        loc = "%s:%d" % (f.mod.rel, f.node.lineno)
        try:
            yield phase(prog, G, f, k, loc)
        except Unread as e:
            yield Ob("%s phase" % k, UNDECIDED, loc, ["not interpreted: %s" % e])


def phase(prog, G, f, k, loc):
    params = None
    seqs = []
    made = 0
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and \
                isinstance(n.value, ast.Attribute) and n.value.attr == "params":
            params = [getattr(e, "id", None) for e in n.targets[0].elts]
        if isinstance(n, ast.Call) and gate_name(f.mod, n.func) in G:
            made += 1
        if isinstance(n, (ast.List, ast.Tuple)) and n.elts and all(
                isinstance(e, ast.Call) and gate_name(f.mod, e.func) in G for e in n.elts):
            seqs.append(n.elts)
    if params is None or len(params) != 3 or len(seqs) != 1 or made != len(seqs[0]) or \
            "U3" not in G:
        raise Unread("production")
    names = dict(zip(params, ("theta", "phi", "lambda")))
    ms = []
    for c in seqs[0]:
        g = G[gate_name(f.mod, c.func)]
        if c.keywords or len(c.args) != len(g.params):
            raise Unread("gate arguments")
        r = Reader(prog, f.mod)
        env = {p: sym(q) for p, q in names.items()}
        ms.append(Reader(prog, g.mod).factory(g.factory, [r.ev(a, env) for a in c.args]))
    u = Reader(prog, G["U3"].mod).factory(G["U3"].factory,
                                          [sym(n) for n in ("theta", "phi", "lambda")])
    for order in (ms, ms[::-1]):
        p = order[0]
        for m in order[1:]:
            p = mmul(p, m)
        r = mmul(p, dagger(u))
        q = r[0][0]
        if len(r) == 2 and r == scale(q, eye(2)) and len(q.d) == 1:
            if q == rat(1):
                return Ob("%s phase" % k, HOLDS, loc)
            if not any(isinstance(n, ast.Attribute) and n.attr == "controlled"
                       for n in ast.walk(f.node)):
                return Ob("%s phase" % k, HOLDS, loc)
            ((_, e), c), = q.d.items()
            txt = "+".join("%s*%s" % (w, n) for n, w in e).replace("+-", "-")
            if c != ONE:
                txt += "+const"
            return Ob("%s-controlled-phase-exp(i*(%s))" % (f.cls.name, txt), VIOLATED, loc,
                      ["the rotations multiply to U3 times a phase; for a controlled U3 every "
                       "rotation is controlled, so the phase is relative and the circuit's "
                       "action changes"])
    raise Unread("the rotations are not proportional to U3")


def gate_name(mod, n):
    if isinstance(n, ast.Name):
        q = mod.imports.get(n.id, "")
        return n.id if q.startswith("orquestra") or q.startswith(".") or q else None
    if isinstance(n, ast.Attribute):
        return n.attr
    return None

"""Abstract evaluator: Python functions -> gated value graphs (see core)."""
from __future__ import annotations

import ast

import core as C
from core import (FALSE, NIL, NONE, ONE, TRUE, UNDEF, ZERO, T, add, and_, cat, const,
                  div, eq, fresh, glob, ite_c, item, length, lst, map_leaves, mk, mul,
                  neg, not_, num, or_, power, raw, s, seq, sub, subst, to_cond, tup, var)
from loader import Cls, Func, Program

FALL = raw("leaf", "fall")
RET = raw("leaf", "ret")
BRK = raw("leaf", "brk")
CNT = raw("leaf", "cnt")


def raise_leaf(exc):
    return raw("leaf", "raise:" + exc)


Unsupported = C.Unsupported


class Closure:
    n = 0

    def __init__(self, node, frame, self_term=None, func=None, partial=None, fn=None):
        Closure.n += 1
        self.uid = Closure.n
        self.node = node
        self.frame = frame
        self.func = func            # loader.Func
        self.self_term = self_term
        self.partial = partial      # (callee term, args, kwargs)
        self.fn = fn                # python callable(interp, state, args) -> term
        CLOS[self.uid] = self
        self.term = raw("clo", self.uid)


CLOS: dict = {}


class Frame:
    n = 0

    def __init__(self, mod, cls=None, func=None, parent=None):
        Frame.n += 1
        self.id = Frame.n
        self.mod = mod
        self.cls = cls
        self.func = func
        self.parent = parent
        self.locals = set()


class State:
    __slots__ = ("env", "heap", "mem", "trace", "pend", "pst")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.mem = {}
        self.trace = NIL
        self.pend = FALL
        self.pst = {}

    def copy(self):
        o = State()
        o.env = dict(self.env)
        o.heap = dict(self.heap)
        o.mem = dict(self.mem)
        o.trace = self.trace
        o.pend = FALL
        o.pst = {}
        return o

    def assign(self, o):
        self.env = o.env
        self.heap = o.heap
        self.mem = o.mem
        self.trace = o.trace


def flat_subscript(n):
    """a[i, j][k] read as a[i, j, k] (arrays; no slices)."""
    v = n.value
    if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Tuple) and \
            len(v.slice.elts) >= 2 and not isinstance(n.slice, (ast.Slice, ast.Tuple)) and \
            not any(isinstance(e, (ast.Slice, ast.Starred)) for e in v.slice.elts):
        m = ast.Subscript(v.value, ast.Tuple(v.slice.elts + [n.slice], ast.Load()), n.ctx)
        ast.copy_location(m, n)
        ast.copy_location(m.slice, n)
        return m
    return n


def merge(c, a, b):
    """State that is a when c else b."""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    o = State()
    for name in ("env", "heap", "mem"):
        x, y = getattr(a, name), getattr(b, name)
        z = getattr(o, name)
        for k in x.keys() | y.keys():
            p = x.get(k)
            q = y.get(k)
            if name == "mem":
                p = p if p is not None else k
                q = q if q is not None else k
            elif name == "heap" and not (k.op == "var" and k.a[0][0] == "&"):
                p = p if p is not None else k
                q = q if q is not None else k
            if p is None:
                z[k] = q
            elif q is None:
                z[k] = p
            else:
                z[k] = p if p is q else ite_c(c, p, q)
    o.trace = ite_c(c, a.trace, b.trace)
    return o


def assume(st, atom, val):
    """Drop the contents of local objects that the outcome of a test excludes."""
    for r, v in list(st.heap.items()):
        if v.op == "ite":
            st.heap[r] = C.cofactor_any(v, atom, val)
    return st


def restrict(t, c):
    """t simplified under the assumption that the condition c holds."""
    bot = raw("bot")
    x = ite_c(c, t, bot)

    def go(y):
        if y.op != "ite":
            return y
        p, q = go(y.a[1]), go(y.a[2])
        if p is bot:
            return q
        if q is bot:
            return p
        return ite_c(C._atom(y.a[0]), p, q)
    r = go(x)
    return t if r is bot else r


class R:
    """Result of executing statements: decision tree over leaf markers + states."""
    __slots__ = ("tree", "st")

    def __init__(self, tree, st):
        self.tree = tree
        self.st = st


def reach(tree, leaf):
    return map_leaves(tree, lambda x: TRUE if x is leaf else FALSE)


def graft(tree, sub_):
    return map_leaves(tree, lambda x: sub_ if x is FALL else x)


def join_states(dst, tree_old, src, tree_new):
    """dst: states of old tree; src: states of the subtree grafted at FALL."""
    for k, v in src.items():
        if k is FALL:
            continue
        if k in dst:
            # tree_new (grafted) tells which; old leaf reached directly in tree_old
            c_old = reach(tree_old, k)
            dst[k] = merge(c_old, dst[k], v)
        else:
            dst[k] = v


IGNORED_CALLS = {"print", "warnings.warn", "warnings.simplefilter",
                 "warnings.filterwarnings", "logging.warning"}
EXCS = {"ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError",
        "NotImplementedError", "AssertionError", "AttributeError", "Exception",
        "StopIteration", "ZeroDivisionError", "Warning", "OverflowError",
        "LookupError", "ArithmeticError", "BaseException"}
EXC_PARENT = {"KeyError": {"LookupError"}, "IndexError": {"LookupError"},
              "ZeroDivisionError": {"ArithmeticError"},
              "OverflowError": {"ArithmeticError"},
              "NotImplementedError": {"RuntimeError"},
              "UnicodeDecodeError": {"ValueError"}}

# external functions with known positional parameter names
SIGS = {
    "numpy.array": ("object", "dtype"), "numpy.asarray": ("a", "dtype"),
    "numpy.isclose": ("a", "b", "rtol", "atol"),
    "numpy.allclose": ("a", "b", "rtol", "atol"),
    "numpy.zeros": ("shape", "dtype"), "numpy.ones": ("shape", "dtype"),
    "numpy.sum": ("a", "axis"), "numpy.kron": ("a", "b"),
    "numpy.transpose": ("a", "axes"), "numpy.reshape": ("a", "newshape"),
    "numpy.eye": ("N", "M"), "numpy.prod": ("a", "axis"),
    "numpy.mean": ("a", "axis"), "numpy.clip": ("a", "a_min", "a_max"),
    "math.isclose": ("a", "b"), "enumerate": ("iterable", "start"),
    "sum": ("iterable", "start"), "sorted": ("iterable",),
    "open": ("file", "mode"), "int": ("x", "base"), "round": ("number", "ndigits"),
    "rapidjson.dump": ("obj", "stream"), "rapidjson.dumps": ("obj",), "rapidjson.load": ("stream",),
    "json.load": ("fp",), "json.loads": ("s",), "json.dump": ("obj", "fp"),
    "json.dumps": ("obj",), "getattr": ("object", "name", "default"),
    "functools.reduce": ("function", "iterable", "initial"),
    "itertools.islice": None, "itertools.product": None,
    "numpy.random.choice": ("a", "size", "replace", "p"),
    "numpy.linalg.norm": ("x", "ord", "axis"),
    "scipy.sparse.coo_matrix": ("arg1", "shape"),
    "numpy.full": ("shape", "fill_value"), "itertools.groupby": ("iterable", "key"),
    "numpy.isclose": ("a", "b", "rtol", "atol"), "dict.fromkeys": ("iterable", "value"),
    "itertools.islice": None, "zip": None, "isinstance": None,
    "numpy.linspace": ("start", "stop", "num"), "numpy.diag": ("v", "k"),
    "numpy.outer": ("a", "b"), "numpy.argsort": ("a", "axis"), "numpy.any": ("a", "axis"),
    "numpy.all": ("a", "axis"), "numpy.cumsum": ("a", "axis"),
    "numpy.random.multinomial": ("n", "pvals", "size"), "numpy.random.default_rng": ("seed",),
    "numpy.random.RandomState": ("seed",), "sympy.lambdify": ("args", "expr"),
    "re.match": ("pattern", "string", "flags"), "re.split": ("pattern", "string", "maxsplit"),
    "re.sub": ("pattern", "repl", "string"), "warnings.warn": ("message", "category"),
    "numpy.vdot": ("a", "b"), "sympy.Symbol": ("name",), "sympy.sympify": ("a",),
    "sympy.eye": ("n",), "random.sample": ("population", "k"),
    "random.choices": ("population", "weights"), "numpy.zeros_like": ("a", "dtype"),
    "numpy.repeat": ("a", "repeats", "axis"), "numpy.tile": ("A", "reps"),
    "numpy.concatenate": ("arrays", "axis"), "numpy.stack": ("arrays", "axis"),
    "numpy.squeeze": ("a", "axis"), "numpy.where": None, "numpy.maximum": None,
    "scipy.sparse.csc_matrix": ("arg1", "shape"), "scipy.sparse.csr_matrix": ("arg1", "shape"),
    "scipy.linalg.expm": ("A",), "collections.Counter": None, "numpy.random.seed": ("seed",),
    "scipy.sparse.kron": ("A", "B", "format"), "numpy.kron": ("a", "b"),
    "numpy.round": ("a", "decimals"), "numpy.around": ("a", "decimals"),
}
METH_SIGS = {"get": ("key", "default"), "choice": ("a", "size", "replace", "p"),
             "reshape": None, "subs": None, "split": ("sep", "maxsplit"),
             "astype": ("dtype",), "sum": ("axis",), "to_bytes": None,
             "count": ("x",), "setdefault": ("key", "default")}

ALIASES = {
    "numpy.conjugate": "numpy.conj", "numpy.absolute": "numpy.abs",
    "numpy.bool_": "numpy.bool", "numpy.complex_": "numpy.complex128",
    "math.fabs": "abs", "numpy.round": "numpy.around",
    "numpy.concatenate": "numpy.concatenate", "builtins.sum": "sum",
    "collections.OrderedDict": "dict", "numpy.multiply": "operator.mul",
    "numpy.add": "operator.add", "numpy.subtract": "operator.sub",
    "numpy.divide": "operator.truediv", "numpy.true_divide": "operator.truediv",
    "numpy.power": "operator.pow", "math.pow": "operator.pow",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "re.I": "re.IGNORECASE",
    "re.M": "re.MULTILINE", "re.S": "re.DOTALL", "re.X": "re.VERBOSE",
    "numpy.negative": "operator.neg", "numpy.matmul": "operator.matmul",
    "numpy.dot": "operator.matmul", "operator.__mul__": "operator.mul",
    "operator.__add__": "operator.add", "math.pi": "numpy.pi",
    "math.inf": "numpy.inf", "math.e": "numpy.e", "cmath.exp": "numpy.exp",
    "math.exp": "numpy.exp", "math.log": "numpy.log", "math.sqrt": "numpy.sqrt",
    "math.cos": "numpy.cos", "math.sin": "numpy.sin", "math.log2": "numpy.log2",
    "math.ceil": "numpy.ceil", "math.floor": "numpy.floor",
    "math.prod": "numpy.prod", "json.decoder.JSONDecodeError": "json.JSONDecodeError",
    "sympy.matrices.Matrix": "sympy.Matrix", "sympy.core.Symbol": "sympy.Symbol",
    "numpy.complex64": "numpy.complex64", "abs": "abs", "numpy.size": "len",
    "sympy.cos": "sympy.cos", "typing.cast": "typing.cast",
}

BINOP = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**",
         ast.FloorDiv: "//", ast.Mod: "%", ast.MatMult: "@", ast.BitAnd: "&",
         ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}

DTYPES = {glob("numpy.complex128"): glob("complex"), glob("numpy.float64"): glob("float"),
          glob("numpy.int64"): glob("int"), glob("numpy.bool"): glob("bool")}

MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear",
            "update", "setdefault", "popitem", "add", "discard", "fill",
            "difference_update", "intersection_update", "appendleft", "popleft"}


def is_ref(t):
    return t.op == "var" and t.a[0][0] == "&"


def refs_in(t):
    return [v for v in t.fv if v[0] == "&"]


def is_range(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "range"


def listish(t):
    return t.op in ("list", "tuple", "dict", "set") or t.op == "call" and t.a[0].op == "glob" \
        and t.a[0].a[0] in ("sorted", "list", "tuple", "set")


class Interp:
    MAXDEPTH = 14

    def __init__(self, prog: Program, opaque, hints=None):
        """opaque: predicate(key) -> bool: repo functions kept uninterpreted."""
        self.prog = prog
        self.opaque = opaque
        self.hints = hints or prog
        self.stack = []
        self.loc = {}
        self.cur = None
        self.steps = 0
        self.maxsteps = 400000
        self.inlined = set()
        self.trivial = _trivial_props(self.hints)
        self.fieldmap = {}
        for key, f in self.hints.funcs.items():
            if "~" + key not in C.CALL_ANN and f.node.returns is not None and \
                    not isinstance(f.node.returns, ast.Constant) and not any(
                        isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                r = ast.unparse(f.node.returns)
                a = self.ann_full(f.node.returns, f.mod)
                if a is not None and "Optional" not in r and "ndarray" not in r:
                    C.CALL_ANN["~" + key] = a

    # ------------------------------------------------------------------
    # top level
    # ------------------------------------------------------------------
    def summary(self, f: Func, params=None, budget=400000):
        """Canonical outcome term of a function.

        params: list of parameter names of the reference function; extra trailing
        parameters of f that have defaults are replaced by them."""
        self.steps = 0
        C.BUDGET[0] = budget
        st = State()
        fr = Frame(f.mod, f.cls, f)
        self.stack = [f.key]
        self.inlined = set()
        C.NULLABLE.clear()
        self.bind_params_symbolic(f, fr, st, params)
        C.NULLABLE.update(self.nullable(f, fr, st))
        res = self.run_body(f, fr, st)
        out = self.finish(res, fr)
        return out

    def const_summary(self, mod, name):
        self.steps = 0
        C.BUDGET[0] = 400000
        st = State()
        fr = Frame(mod)
        self.stack = ["const " + name]
        v = self.val(mod.consts[name], fr, st)
        return self.escape(v, fr, st)

    def finish(self, res, fr):
        def leaf(x):
            if x is FALL or x is RET:
                stt = res.st[x]
                v = stt.env.get((fr.id, "$ret"), NONE) if x is RET else NONE
                if fr.func is not None and getattr(fr.func, "is_gen", False):
                    g = stt.env.get((fr.id, "$gen"), NIL)
                    v = mk("gen", g)
                v = self.escape(v, fr, stt)
                return v, self.effects(stt, fr)
            stt = res.st[x]
            if fr.func is not None and fr.func.name == "__init__":
                # the partially built object is discarded with the exception
                return mk("raise", x.a[0][6:], mk("eff", NIL))
            return mk("raise", x.a[0][6:], self.effects(stt, fr))
        # evaluate each leaf once; results may themselves be decision trees
        memo = {}

        def go(x):
            if x.op == "ite":
                if x in memo:
                    return memo[x]
                r = ite_c(C._atom(x.a[0]), go(x.a[1]), go(x.a[2]))
                memo[x] = r
                return r
            if x not in memo:
                y = leaf(x)
                memo[x] = mk("ret", *y) if isinstance(y, tuple) else y
            return memo[x]

        cnt = [0]
        vals = {}

        def walk(x, facts):
            """As go, with every result specialised to the path that leads to it."""
            cnt[0] += 1
            if cnt[0] > 400:
                raise OverflowError
            if x.op == "ite":
                at = x.a[0]
                return ite_c(C._atom(at), walk(x.a[1], facts + ((at, True),)),
                             walk(x.a[2], facts + ((at, False),)))
            if x not in vals:
                vals[x] = leaf(x)
            y = vals[x]
            if not isinstance(y, tuple):
                return y
            v, e = y
            for at, val in facts:
                v = C.cofactor_any(v, at, val)
                e = C.cofactor_any(e, at, val)
            return mk("ret", v, e)
        try:
            return walk(res.tree, ())
        except OverflowError:
            return go(res.tree)

    def effects(self, st, fr):
        ws = []
        for k, v in st.mem.items():
            v = self.escape(v, fr, st)
            if v is not k:
                ws.append(mk("w", k, v))
        for k, v in st.heap.items():
            if is_ref(k):
                continue
            v2 = self.escape(v, fr, st)
            if v2 is not k:
                ws.append(mk("m", k, v2))
        ws.sort(key=lambda t: t.d)
        tr = self.escape(st.trace, fr, st)
        return mk("eff", tr, *ws)

    def bind_params_symbolic(self, f, fr, st, params):
        pos, va, kwo, kwa = f.params()
        hf = self.hints.funcs.get(f.key) if self.hints is not self.prog else f
        ann = {}
        els = {}
        if hf is not None:
            hp, hva, hko, hkw = hf.params()
            for p in hp + hko:
                ann[p.arg] = self.ann_ty(p.annotation, hf.mod)
                els[p.arg] = self.ann_full(p.annotation, hf.mod)
        names = [p.arg for p in pos + kwo]
        for j, p in enumerate(pos + kwo):
            name = p.arg
            if params is not None and name not in params:
                if j < len(params) and params[j] not in names:
                    # renamed parameter: identified by its position
                    ty = ann.get(params[j]) or self.ann_ty(p.annotation, f.mod)
                    if not (j == 0 and f.cls is not None and
                            f.kind in ("method", "property", "classmethod")):
                        st.env[(fr.id, name)] = var(params[j], ty, els.get(params[j]))
                        continue
                d = self.default_of(f, name)
                if d is not None:
                    st.env[(fr.id, name)] = self.val(d, Frame(f.mod, f.cls), st)
                    continue
            ty = ann.get(name) if hf is not None else self.ann_ty(p.annotation, f.mod)
            if ty is None and p.annotation is None:
                ty = self.used_as_int(hf or f).get(name)
            if j == 0 and f.cls is not None and f.kind in ("method", "property"):
                st.env[(fr.id, name)] = var("self", "cls:" + f.cls.key)
                continue
            if j == 0 and f.kind == "classmethod":
                st.env[(fr.id, name)] = glob("~" + f.cls.key)
                continue
            st.env[(fr.id, name)] = var(name, ty, els.get(name) if hf is not None else
                                        self.ann_full(p.annotation, f.mod))
        if va is not None:
            st.env[(fr.id, va.arg)] = var("*" + va.arg, "tuple")
        if kwa is not None:
            st.env[(fr.id, kwa.arg)] = var("**" + kwa.arg, "dict")

    def used_as_int(self, f):
        """Parameters without annotation that are counted with (range(p), p // q, -p // q)."""
        memo = self.__dict__.setdefault("_uint", {})
        if f.key not in memo:
            out = memo[f.key] = {}
            for m in ast.walk(f.node):
                if isinstance(m, ast.BinOp) and isinstance(m.op, ast.FloorDiv):
                    ops = [m.left, m.right]
                elif isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and \
                        m.func.id == "range":
                    ops = m.args
                else:
                    continue
                for z in ops:
                    if isinstance(z, ast.UnaryOp) and isinstance(z.op, ast.USub):
                        z = z.operand
                    if isinstance(z, ast.Name):
                        out[z.id] = "int"
        return memo[f.key]

    def default_of(self, f, name):
        a = f.node.args
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        for p, d in zip(pos[len(pos) - nd:], a.defaults):
            if p.arg == name:
                return d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg == name:
                return d
        return None

    def nullable(self, f, fr, st):
        hf = self.hints.funcs.get(f.key) if self.hints is not self.prog else f
        out = set()
        if hf is None:
            return out
        hp, hva, hko, hkw = hf.params()
        opt = {p.arg for p in hp + hko if p.annotation is not None and any(
            isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else
                                                          x.attr) == "Optional" or
            isinstance(x, ast.Constant) and x.value is None for x in ast.walk(p.annotation))}
        for (i, n), v in st.env.items():
            if i == fr.id and isinstance(v, T) and v.op == "var" and v.a[0] in opt \
                    and v.ty in ("int", "num"):
                out.add(v)
        return out

    def ann_ty(self, node, mod):
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.ann_ty(ast.parse(node.value, mode="eval").body, mod)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, ast.Subscript):
            b = mod.resolve(node.value) or ""
            last = b.split(".")[-1]
            if last in ("List", "list"):
                return "list"
            if last in ("Tuple", "tuple"):
                return "tuple"
            if last in ("Dict", "dict", "Mapping", "DefaultDict", "Counter"):
                return "dict"
            if last in ("Set", "set"):
                return "set"
            if last == "Optional":
                return self.ann_ty(node.slice, mod)
            if last == "Union":
                el = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
                tys = {self.ann_ty(e, mod) for e in el
                       if not (isinstance(e, ast.Constant) and e.value is None)}
                if len(tys) == 1:
                    return tys.pop()
                if tys <= {"int", "num", "bool"}:
                    return "num"
                return None
            return None
        q = mod.resolve(node)
        if q is None:
            return None
        last = q.split(".")[-1]
        if q in ("int", "bool", "str", "list", "tuple", "dict", "set"):
            return q
        if q in ("typing.List", "typing.Dict", "typing.Tuple", "typing.Set"):
            return last.lower()
        if q in ("float", "complex") or q in ("sympy.Expr", "sympy.Symbol",
                                              "numbers.Number", "numpy.float64"):
            return "num"
        if q == "numpy.ndarray":
            return "arr"
        if last == "Parameter":
            return "num"
        r = self.prog.lookup(q) if q.startswith("orquestra") else None
        if isinstance(r, Cls):
            return "cls:" + r.key
        if isinstance(r, tuple):
            return self.ann_ty(r[1].consts[r[2]], r[1])
        return None

    def ann_full(self, node, mod):
        """(type, types of the elements) of an annotation; values only."""
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return None
        t = self.ann_ty(node, mod)
        if t is None or t.startswith("cls:"):
            return None
        if isinstance(node, ast.Subscript):
            last = (mod.resolve(node.value) or "").split(".")[-1]
            el = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if last == "Optional":
                return self.ann_full(node.slice, mod)
            if last == "Union":
                fs = {self.ann_full(e, mod) for e in el if not (
                    isinstance(e, ast.Constant) and e.value is None)}
                return fs.pop() if len(fs) == 1 else (t, ())
            return (t, tuple("..." if isinstance(e, ast.Constant) and e.value is ... else
                             self.ann_full(e, mod) for e in el))
        q = mod.resolve(node)
        r = self.prog.lookup(q) if q and q.startswith("orquestra") else None
        if isinstance(r, tuple):
            return self.ann_full(r[1].consts[r[2]], r[1])
        return (t, ())

    # ------------------------------------------------------------------
    # heap / values
    # ------------------------------------------------------------------
    def newref(self, content, st):
        ty = content.ty if content.ty in ("list", "dict", "set", "arr") else None
        C._fresh[0] += 1
        r = var("&%d" % C._fresh[0], ty)
        st.heap[r] = content
        return r

    def deref(self, t, st):
        h = st.heap
        for _ in range(60):
            if t in h:
                n = h[t]
                if n is t:
                    return t
                t = n
                continue
            rs = refs_in(t)
            if not rs:
                break
            m = {}
            for k in h:
                if k.op == "var" and k.a[0] in rs:
                    m[k] = h[k]
            if not m:
                break
            t = subst(t, m)
        return t

    def escape(self, t, fr, st):
        """Deep value for comparison / opaque use: refs and closures resolved."""
        t = self.deref(t, st)
        cl = _find_clo(t)
        if cl:
            m = {c: self.clo_to_lam(c, fr, st) for c in cl}
            t = subst(t, m)
            t = self.deref(t, st)
        return t

    def clo_to_lam(self, c, fr, st):
        clo = CLOS[c.a[0]]
        if clo.fn is not None:
            vs = [fresh(None, "p")]
            body = clo.fn(self, st.copy(), vs)
            return C._c_lam(vs, body)
        node = clo.node
        if clo.partial is not None:
            fn, args, kws = clo.partial
            return raw("partial", self.escape(fn, fr, st),
                       *[self.escape(a, fr, st) for a in args],
                       *[raw("kw", k, self.escape(v, fr, st)) for k, v in kws])
        a = node.args
        ps = a.posonlyargs + a.args
        if a.vararg or a.kwarg:
            v = fresh("tuple", "p")
            key = ("lamrec", clo.uid)
            if key in self.stack:
                return glob("<rec>")
            self.stack.append(key)
            s2 = st.copy()
            r = self.call_closure(clo, [("star", C.it(v))], [], fr, s2)
            self.stack.pop()
            return C._c_lam([v], self.escape(r, fr, s2))
        vs = []
        args = []
        off = 1 if clo.self_term is not None else 0
        for p in ps[off:]:
            if self.default_of_node(a, p.arg) is not None:
                continue
            v = fresh(None, "p")
            vs.append(v)
            args.append(v)
        key = ("lamrec", clo.uid)
        if key in self.stack:
            return glob("<rec>")
        self.stack.append(key)
        s2 = st.copy()
        r = self.call_closure(clo, args, [], fr, s2)
        r = self.escape(r, fr, s2)
        if s2.pend is not FALL:
            r = map_leaves(s2.pend, lambda x: r if x is FALL else x)
        self.stack.pop()
        return C.CONS["lam"](vs, r)

    def default_of_node(self, a, name):
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        for p, d in zip(pos[len(pos) - nd:], a.defaults):
            if p.arg == name:
                return d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg == name:
                return d
        return None

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def run_body(self, f, fr, st):
        if getattr(f, "is_gen", False):
            st.env[(fr.id, "$gen")] = NIL
        node = f.node
        return self.block(node.body, fr, st)

    def block(self, stmts, fr, st):
        tree = FALL
        states = {FALL: st}
        for n in stmts:
            if FALL not in states:
                break
            cur = states[FALL]
            r = self.stmt(n, fr, cur)
            if r is None:
                continue
            if r.tree is FALL and set(r.st) == {FALL}:
                states[FALL] = r.st[FALL]
                continue
            old = tree
            tree = graft(tree, r.tree)
            del states[FALL]
            join_states(states, old, r.st, r.tree)
            live = set(C.leaves_of(tree))
            if FALL in live and FALL in r.st:
                states[FALL] = r.st[FALL]
            for k in list(states):
                if k not in live:
                    del states[k]
        return R(tree, states)

    def wrap_pend(self, st, r):
        """Prepend exceptions raised while evaluating the statement's expressions."""
        if st.pend is FALL:
            return r
        pend, pst = st.pend, st.pst
        st.pend, st.pst = FALL, {}
        states = dict(pst)
        tree = graft(pend, r.tree)
        join_states(states, pend, r.st, r.tree)
        if FALL in r.st:
            states[FALL] = r.st[FALL]
        live = set(C.leaves_of(tree))
        return R(tree, {k: v for k, v in states.items() if k in live})

    def stmt(self, n, fr, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("too large")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(type(n).__name__)
        r = m(n, fr, st)
        if r is None:
            r = R(FALL, {FALL: st})
        return self.wrap_pend(st, r)

    def s_Expr(self, n, fr, st):
        if isinstance(n.value, ast.Constant):
            return None
        if isinstance(n.value, ast.Yield):
            v = self.ev(n.value.value, fr, st) if n.value.value else NONE
            k = (fr.id, "$gen")
            st.env[k] = cat(st.env.get(k, NIL), seq(self.escape(v, fr, st)))
            return None
        if isinstance(n.value, ast.YieldFrom):
            v = self.val(n.value.value, fr, st)
            k = (fr.id, "$gen")
            st.env[k] = cat(st.env.get(k, NIL), C.it(v))
            return None
        n0 = st.trace
        v = self.ev(n.value, fr, st, stmt=True)
        self.discarded(v, fr, st, n0)

    def discarded(self, v, fr, st, trace0):
        """Uninterpreted calls whose value is thrown away happen for their effect."""
        if st.trace is not trace0:
            return
        v = self.escape(v, fr, st)
        if any(x.op in ("call", "meth") for x in C.leaves_of(v)):
            def f(x):
                return seq(mk("do", x)) if x.op in ("call", "meth") else NIL
            st.trace = cat(st.trace, map_leaves(v, f))

    def s_Pass(self, n, fr, st):
        return None

    def s_Import(self, n, fr, st):
        for a in n.names:
            st.env[(fr.id, a.asname or a.name.split(".")[0])] = self.g(
                a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, n, fr, st):
        base = fr.mod._base(n)
        for a in n.names:
            st.env[(fr.id, a.asname or a.name)] = self.g(
                self.prog.canon(base + "." + a.name))

    def s_FunctionDef(self, n, fr, st):
        c = Closure(n, fr)
        st.env[(fr.id, n.name)] = c.term

    def s_ClassDef(self, n, fr, st):
        raise Unsupported("local class")

    def s_Global(self, n, fr, st):
        raise Unsupported("global")

    def s_Nonlocal(self, n, fr, st):
        for x in n.names:
            fr.locals.discard(x)
        fr.nonlocals = getattr(fr, "nonlocals", set()) | set(n.names)

    def s_Return(self, n, fr, st):
        v = self.ev(n.value, fr, st) if n.value is not None else NONE
        st.env[(fr.id, "$ret")] = v
        return R(RET, {RET: st})

    def s_Break(self, n, fr, st):
        return R(BRK, {BRK: st})

    def s_Continue(self, n, fr, st):
        return R(CNT, {CNT: st})

    def s_Raise(self, n, fr, st):
        name = "reraise"
        if n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Call):
                e = e.func
            q = fr.mod.resolve(e)
            if q is None or not q.split(".")[-1][:1].isupper():
                v = self.val(n.exc, fr, st)
                if v.op == "call" and v.a[0].op == "glob":
                    q = v.a[0].a[0]
                elif v.op == "excval":
                    q = "reraise"
                else:
                    q = "?"
            name = q.split(".")[-1]
        lf = raise_leaf(name)
        return R(lf, {lf: st})

    def s_Assert(self, n, fr, st):
        c = to_cond(self.val(n.test, fr, st))
        lf = raise_leaf("AssertionError")
        if c is TRUE:
            return None
        return R(ite_c(c, FALL, lf), {FALL: st, lf: st.copy()})

    def s_Delete(self, n, fr, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop((fr.id, t.id), None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr, st)
                k = self.index(t.slice, fr, st)
                self.mutate(o, lambda c: mk("delitem", c, k), st)
            else:
                raise Unsupported("del attr")

    def s_Assign(self, n, fr, st):
        v = self.ev(n.value, fr, st)
        if len(n.targets) > 1:
            v = self.boxed(v, st)
        for t in n.targets:
            self.assign(t, v, fr, st)

    def s_AnnAssign(self, n, fr, st):
        if n.value is None:
            return None
        v = self.ev(n.value, fr, st)
        ty = self.ann_ty(n.annotation, fr.mod)
        self.assign(n.target, v, fr, st)

    def boxed(self, v, st):
        """Give a freshly created mutable value an identity."""
        if v.op in ("var", "const", "num", "glob", "clo", "attr", "item", "bv", "poly",
                    "mono", "tuple", "fmt", "len", "lam", "key", "val", "gen"):
            return v
        if v.op == "ite":
            if any(is_ref(x) or x.op in ("var", "attr", "item", "clo")
                   for x in C.leaves_of(v)):
                if v.ty in ("int", "num", "bool", "str", "tuple"):
                    return v
                # a new object on some paths, an existing one on others
                return map_leaves(v, lambda x: self.boxed(x, st)
                                  if x.op in ("list", "dict", "set", "call") else x)
            if v.ty in ("int", "num", "bool", "str", "tuple"):
                return v
            return self.newref(v, st)
        if v.ty in ("int", "num", "bool", "str", "tuple"):
            return v
        if v.op in ("list", "dict", "set", "call", "meth", "copy", "deepcopy", "bin",
                    "setitem", "slice", "setattr"):
            return self.newref(v, st)
        return v

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            st.env[self.slot(t.id, fr)] = self.boxed(v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.deref(v, st)
            star = [j for j, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                if v.ty in ("dict", "set") and v.op != "ite":
                    v = mk("list", C.it(v))
                j = star[0]
                after = len(t.elts) - j - 1
                for q, e in enumerate(t.elts[:j]):
                    self.assign(e, item(v, num(q)), fr, st)
                rest = self.slice_of(v, num(j), num(-after) if after else NONE, NONE)
                self.assign(t.elts[j].value, mk("list", C.it(rest)), fr, st)
                for q, e in enumerate(reversed(t.elts[j + 1:])):
                    self.assign(e, item(v, num(-1 - q)), fr, st)
            else:
                vals = self.unpack(v, len(t.elts))
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, st)
            self.setattr_(o, t.attr, self.boxed(v, st), st, fr)
        elif isinstance(t, ast.Subscript):
            t = flat_subscript(t)
            o = self.ev(t.value, fr, st)
            k = self.index(t.slice, fr, st)
            self.setitem_(o, k, self.boxed(v, st), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st)
        else:
            raise Unsupported("assign " + type(t).__name__)

    def slot(self, name, fr):
        if name in getattr(fr, "nonlocals", ()):
            f = fr.parent
            while f is not None:
                return (f.id, name)
        return (fr.id, name)

    def unpack(self, v, n):
        if v.op == "ite" and C._leaves(v, 20) <= 12:
            outs = []
            for j in range(n):
                outs.append(map_leaves(v, lambda x, j=j: self.unpack(x, n)[j]))
            return outs
        sq = None
        if v.op in ("list", "tuple", "gen"):
            sq = v.a[0]
        if sq is not None:
            if sq.op == "seq" and len(sq.a) == n:
                return list(sq.a)
            return [C.sitem(sq, num(j)) for j in range(n)]
        return [item(v, num(j)) for j in range(n)]

    def setattr_(self, o, name, v, st, fr):
        if o.op == "ite":
            base = st.copy()
            cur = st
            for at in C.leaves_of(o):
                c = map_leaves(o, lambda x: TRUE if x is at else FALSE)
                s2 = cur.copy()
                self.setattr_(at, name, v, s2, fr)
                cur.assign(merge(c, s2, cur.copy()))
            return
        if is_ref(o):
            st.heap[o] = mk("setattr", st.heap[o], s(name), v)
            return
        # property setters
        k = self.attr_raw(o, name)
        st.mem[k] = v

    def setitem_(self, o, k, v, st):
        def f(c):
            if c.op == "dict":
                return mk("dict", cat(c.a[0], seq(tup(k, v))))
            if c.op == "list" and c.a[0].op == "seq" and C.isint(k) \
                    and -len(c.a[0].a) <= k.a[0] < len(c.a[0].a):
                es = list(c.a[0].a)
                es[int(k.a[0])] = v
                return lst(*es)
            return mk("setitem", c, k, v)
        self.mutate(o, f, st)

    def mutate(self, o, f, st):
        """In-place change of object o: content := f(content)."""
        if o.op == "ite":
            ls = C.leaves_of(o)
            for x in ls:
                c = map_leaves(o, lambda y, x=x: TRUE if y is x else FALSE)
                s2 = st.copy()
                for r_, v_ in list(s2.heap.items()):
                    if v_.op == "ite":
                        s2.heap[r_] = restrict(v_, c)
                self.mutate(x, f, s2)
                m = merge(c, s2, st)
                st.assign(m)
            return
        if o in st.heap:
            old = st.heap[o]
            if o is not old and not is_ref(o) or True:
                old = self.deref(old, st) if not is_ref(o) else old
                if old.op == "var" and is_ref(old):
                    self.mutate(old, f, st)
                    return
                if old.op == "ite":
                    new = map_leaves(old, f)
                else:
                    new = f(old)
                st.heap[o] = new
            return
        if isinstance(o, T) and o.op in ("list", "dict", "set", "call"):
            raise Unsupported("mutation of an unnamed object")
        if self.writeback(o, f, st):
            return
        st.heap[o] = f(o)

    def writeback(self, o, f, st):
        """o is a part of a local container: store the changed part in the container."""
        if o.op not in ("item", "val") or len(o.a) != 2:
            return False
        base, k = o.a
        if o.op == "val":
            k = C.key_at(base, k)
        owners = [r for r in st.heap if is_ref(r) and self.deref(r, st) is base]
        if len(owners) == 1:
            self.setitem_(owners[0], k, map_leaves(o, f), st)
            return True
        if owners:
            return False

        def up(c):
            if c.op == "dict":
                return mk("dict", cat(c.a[0], seq(tup(k, f(o)))))
            return mk("setitem", c, k, f(o))
        if base.op in ("item", "val"):
            return self.writeback(base, up, st)
        for r in list(st.heap):
            if is_ref(r):
                c = self.deref(r, st)
                if c.op == "list" and c.a[0].op == "seq" and \
                        sum(1 for x in c.a[0].a if x is base) == 1:
                    j = [x is base for x in c.a[0].a].index(True)
                    self.setitem_(r, num(j), up(base), st)
                    return True
        return False

    def s_AugAssign(self, n, fr, st):
        op = BINOP[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr, st)
            rhs = self.val(n.value, fr, st)
            if is_ref(old) or old in st.heap:
                c = self.deref(old, st)
                if c.op == "list" and op == "+":
                    self.mutate(old, lambda x: mk("list", cat(x.a[0], C.it(rhs)))
                                if x.op == "list" else self.binop("+", x, rhs), st)
                    return
                if c.ty in ("arr", "set", "list"):
                    self.mutate(old, lambda x: self.binop(op, x, rhs), st)
                    return
                st.env[self.slot(t.id, fr)] = self.boxed(self.binop(op, c, rhs), st)
                return
            if old.op == "var" and old.ty in ("list", "arr", "set", "dict"):
                self.mutate(old, lambda x: self.binop(op, x, rhs), st)
                return
            st.env[self.slot(t.id, fr)] = self.boxed(self.binop(op, old, rhs), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, st)
            rhs = self.val(n.value, fr, st)
            old = self.getattr_(o, t.attr, fr, st)
            c = self.deref(old, st)
            if c.op == "list" and op == "+":
                self.mutate(old, lambda x: mk("list", cat(x.a[0], C.it(rhs)))
                            if x.op == "list" else self.binop("+", x, rhs), st)
                return
            if c.ty == "list" and op == "+":
                self.mutate(old, lambda x: self.binop("+", x, rhs), st)
                return
            self.setattr_(o, t.attr, self.binop(op, c, rhs), st, fr)
        elif isinstance(t, ast.Subscript):
            t = flat_subscript(t)
            o = self.ev(t.value, fr, st)
            k = self.index(t.slice, fr, st)
            rhs = self.val(n.value, fr, st)
            old = item(self.deref(o, st), k)
            old = self.deref(old, st)
            self.setitem_(o, k, self.binop(op, old, rhs), st)
        else:
            raise Unsupported("augassign")

    def s_If(self, n, fr, st):
        c = to_cond(self.val(n.test, fr, st))
        if st.pend is not FALL:
            pend, pst = st.pend, st.pst
            st.pend, st.pst = FALL, {}
            r = self.branch(c, n.body, n.orelse, fr, st)
            st2 = State()
            st2.pend, st2.pst = pend, pst
            return self.wrap_pend(st2, r)
        return self.branch(c, n.body, n.orelse, fr, st)

    def branch(self, c, body, orelse, fr, st):
        if c is TRUE:
            return self.block(body, fr, st)
        if c is FALSE:
            return self.block(orelse, fr, st)
        a = self.block(body, fr, st.copy())
        b = self.block(orelse, fr, st.copy())
        return self.join(c, a, b)

    def join(self, c, a, b):
        tree = ite_c(c, a.tree, b.tree)
        states = {}
        for k in set(a.st) | set(b.st):
            if k in a.st and k in b.st:
                ca = and_(c, reach(a.tree, k))
                cb = and_(not_(c), reach(b.tree, k))
                states[k] = merge_dc(c, a.st[k], b.st[k], ca, cb)
            else:
                states[k] = a.st.get(k) or b.st.get(k)
        return R(tree, states)

    def s_With(self, n, fr, st):
        for w in n.items:
            v = self.ev(w.context_expr, fr, st)
            if w.optional_vars is not None:
                v = self.escape(v, fr, st)
                self.assign(w.optional_vars, mk("enter", v), fr, st)
        return self.block(n.body, fr, st)

    def s_Try(self, n, fr, st):
        s0 = st.copy()
        r = self.block(n.body, fr, st)
        hs = []
        for h in n.handlers:
            names = self.handler_names(h, fr)
            hs.append((names, h))
        tree, states = r.tree, dict(r.st)
        # else clause
        if n.orelse and FALL in states:
            r2 = self.block(n.orelse, fr, states[FALL])
            old = tree
            tree = graft(tree, r2.tree)
            del states[FALL]
            join_states(states, old, r2.st, r2.tree)
            if FALL in r2.st:
                states[FALL] = r2.st[FALL]
        # explicit raises caught here
        for lf in list(states):
            if not lf.a[0].startswith("raise:"):
                continue
            exc = lf.a[0][6:]
            for names, h in hs:
                if "*" in names or exc in names or EXC_PARENT.get(exc, set()) & names:
                    hr = self.run_handler(h, fr, states[lf].copy(), exc)
                    hst = states.pop(lf)
                    old = tree
                    tree = map_leaves(tree, lambda x: hr.tree if x is lf else x)
                    cl = reach(old, lf)
                    for k, v in hr.st.items():
                        if k in states:
                            states[k] = merge(cl, v, states[k])
                        else:
                            states[k] = v
                    break
        # implicit exceptions
        tok = self.try_token(s0, r, fr)
        if tok is not None:
            for names, h in reversed(hs):
                c = self.throw_cond(names, tok)
                if c is FALSE:
                    continue
                hs0 = self.maybe_state(s0, r, fr)
                hr = self.run_handler(h, fr, hs0, "|".join(sorted(names)))
                j = self.join(c, hr, R(tree, states))
                tree, states = j.tree, j.st
        if n.finalbody:
            for k in list(states):
                fr_ = self.block(n.finalbody, fr, states[k])
                if fr_.tree is FALL:
                    states[k] = fr_.st[FALL]
                else:
                    raise Unsupported("finally with exits")
        return R(tree, states)

    def handler_names(self, h, fr):
        if h.type is None:
            return {"*"}
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = set()
        for t in ts:
            q = fr.mod.resolve(t) or "?"
            q = q.split(".")[-1]
            out.add("*" if q in ("Exception", "BaseException") else q)
        return out

    def run_handler(self, h, fr, st, exc):
        if h.name:
            st.env[(fr.id, h.name)] = raw("excval", exc)
        r = self.block(h.body, fr, st)
        # re-raise keeps the exception
        lf = raise_leaf("reraise")
        if lf in r.st and "|" not in exc and exc != "*":
            nl = raise_leaf(exc)
            r = R(map_leaves(r.tree, lambda x: nl if x is lf else x),
                  {(nl if k is lf else k): v for k, v in r.st.items()})
        return r

    def try_token(self, s0, r, fr):
        parts = []
        for k, stt in sorted(r.st.items(), key=lambda kv: kv[0].d):
            if k.a[0].startswith("raise:"):
                continue
            vals = []
            for key, v in stt.env.items():
                if s0.env.get(key) is not v and v.op != "clo":
                    if isinstance(key[1], str):
                        vals.append((v, self.escape(v, fr, stt)))
            for key, v in stt.mem.items():
                if s0.mem.get(key) is not v:
                    vals.append((v, self.escape(v, fr, stt)))
            for key, v in stt.heap.items():
                if s0.heap.get(key) is not v and (not is_ref(key) or key in s0.heap):
                    vals.append((v, self.escape(v, fr, stt)))
            if stt.trace is not s0.trace:
                vals.append((stt.trace, self.escape(stt.trace, fr, stt)))
            parts += [v for _, v in vals]
        # discarded calls
        parts += [self.escape(x, fr, s0) for x in getattr(self, "_discard", [])]
        parts = [p for p in dict.fromkeys(parts) if not C.isconst(p)]
        core = set()
        for p in parts:
            throw_core(p, core)
        big = [p for p in sorted(core, key=lambda t: t.d) if p.op not in ("var", "glob")]
        big = [p for p in big if not pure_path(p)] or big
        if big:
            # a part of another value is computed on the way to it
            inner = set()
            todo = list(big)
            while todo:
                p = todo.pop()
                sub_ = set()
                for y in p.a:
                    if isinstance(y, T):
                        throw_core(y, sub_)
                todo += [y for y in sub_ if y not in inner and y not in todo]
                inner |= sub_
            parts = [p for p in big if p not in inner]
            hard = [p for p in parts if not harmless(p)]
            parts = hard or parts
        if not parts:
            return None
        parts.sort(key=lambda t: t.d)
        return parts[0] if len(parts) == 1 else raw("seq", *parts)

    def throw_cond(self, names, tok):
        if "KeyError" in names and tok.op == "item" and names <= {"KeyError", "IndexError"}:
            return not_(C.in_(tok.a[1], tok.a[0]))
        return mk("throws", ",".join(sorted(names)), tok)

    def maybe_state(self, s0, r, fr):
        o = s0.copy()
        for k, stt in r.st.items():
            if k.a[0].startswith("raise:"):
                continue
            for name in ("mem", "heap"):
                x, y = getattr(o, name), getattr(stt, name)
                for key, v in y.items():
                    if name == "heap" and is_ref(key) and key not in s0.heap:
                        continue
                    if x.get(key) is not v:
                        old = x.get(key, key)
                        x[key] = mk("maybe", old, self.escape(v, fr, stt))
        return o

    # ------------------------------------------------------------------
    # loops
    # ------------------------------------------------------------------
    def s_For(self, n, fr, st):
        src = self.iterable(self.val(n.iter, fr, st), fr, st)
        S = C.it(src)
        if S.op in ("fm", "cat", "ite", "seq") and src.op not in ("list", "tuple", "gen"):
            pass

        def body(s2, elem):
            self.assign(n.target, elem, fr, s2)
            return self.block(n.body, fr, s2)
        r = self.over(S, st, body, fr)
        # orelse: executed when no break
        brk = r.st.pop(BRK, None)
        tree = r.tree
        if n.orelse:
            if FALL in r.st:
                r2 = self.block(n.orelse, fr, r.st[FALL])
                old = tree
                tree = graft(tree, r2.tree)
                states = {k: v for k, v in r.st.items() if k is not FALL}
                join_states(states, old, r2.st, r2.tree)
                if FALL in r2.st:
                    states[FALL] = r2.st[FALL]
                r = R(tree, states)
        if brk is not None:
            cb = reach(tree, BRK)
            tree = map_leaves(tree, lambda x: FALL if x is BRK else x)
            states = dict(r.st)
            states[FALL] = merge(cb, brk, states[FALL]) if FALL in states else brk
            r = R(tree, states)
        return r

    def over(self, S, st, body, fr):
        """Run body for every element of sequence S; leaves FALL, BRK, RET, raise."""
        op = S.op
        if op == "seq":
            return self.sequence([lambda s2, e=e: body(s2, e) for e in S.a], st)
        if op == "cat":
            return self.sequence([lambda s2, p=p: self.over(p, s2, body, fr)
                                  for p in S.a], st)
        if op == "ite":
            c = C._atom(S.a[0])
            a = self.over(S.a[1], st.copy(), body, fr)
            b = self.over(S.a[2], st.copy(), body, fr)
            return self.join(c, a, b)
        if op == "fm":
            vs, (n, b) = C.open_binder(S)
            i = vs[0]

            def fbody(s2, j):
                return self.over(subst(b, {i: j}), s2, body, fr)
            return self.loop(n, st, fbody, fr)
        if op == "it":
            x = S.a[0]
            return self.loop(length(x), st, lambda s2, j: body(s2, item(x, j)), fr)
        return self.loop(C.slen(S), st, lambda s2, j: body(s2, C.sitem(S, j)), fr)

    def sequence(self, fs, st):
        tree = FALL
        states = {FALL: st}
        for f in fs:
            if FALL not in states:
                break
            r = f(states[FALL])
            # continue == fall inside the loop body
            if CNT in r.st:
                r = self.cnt_to_fall(r)
            old = tree
            tree = graft(tree, r.tree)
            del states[FALL]
            join_states(states, old, r.st, r.tree)
            if FALL in r.st:
                states[FALL] = r.st[FALL]
        return R(tree, states)

    def cnt_to_fall(self, r):
        cc = reach(r.tree, CNT)
        tree = map_leaves(r.tree, lambda x: FALL if x is CNT else x)
        states = dict(r.st)
        sc = states.pop(CNT)
        states[FALL] = merge(cc, sc, states[FALL]) if FALL in states else sc
        return R(tree, states)

    def snapshot(self, st):
        d = {}
        for k, v in st.env.items():
            d[("env", k)] = v
        for k, v in st.heap.items():
            d[("heap", k)] = v
        for k, v in st.mem.items():
            d[("mem", k)] = v
        d[("trace", None)] = st.trace
        return d

    def put(self, st, key, v):
        kind, k = key
        if kind == "trace":
            st.trace = v
        else:
            getattr(st, kind)[k] = v

    def changed(self, st, r, fr, since=None, going_on=False):
        """Places written by a loop body (going_on: in iterations that do not leave)."""
        base = self.snapshot(st)
        W = set()
        for k, s2 in r.st.items():
            if k.a[0].startswith("raise:") or going_on and k is not FALL:
                continue
            for key, v in self.snapshot(s2).items():
                if key[0] == "heap" and is_ref(key[1]) and (
                        key not in base or since is not None and
                        int(key[1].a[0][1:]) > since):
                    continue
                if base.get(key) is not v:
                    if self.loop_local(key, since):
                        continue
                    W.add(key)
        return W

    def loop_local(self, key, since):
        """Is the memory key named by variables created after fresh counter ``since``?"""
        if since is None or key[0] not in ("heap", "mem") or not isinstance(key[1], T):
            return False
        for v in key[1].fv:
            if "~" in v and int(v.rsplit("~", 1)[1]) > since:
                return True
        return False

    def leaks(self, r, cv, i, n, out, fr, since):
        """Writes of a loop body to places named by the loop's own variables."""
        fall = r.st.get(FALL)
        if fall is None:
            return
        shapes = {v.a[0]: sh for (v, sh, i0) in cv.values()}
        for kind in ("heap", "mem"):
            for k, v in list(getattr(fall, kind).items()):
                if not self.loop_local((kind, k), since) or v is k:
                    continue
                root = k
                while root.op in ("item", "attr", "val", "key", "list", "dict", "set",
                                  "setitem", "tuple") and root.a and isinstance(root.a[0], T):
                    root = root.a[0]
                if root.op == "var" and shapes.get(root.a[0]) in ("list", "dict", "set"):
                    raise Unsupported("write to a part of a carried container")
                val = self.escape(v, fr, fall)
                cs = {c for (c, sh, i0) in cv.values()
                      if c.a[0] in k.fv or c.a[0] in val.fv}
                vs = [i] + first_uses(cs, k, val)
                rest = sorted(x for x in (k.fv | val.fv) if "~" in x and
                              int(x.rsplit("~", 1)[1]) > since and
                              x not in {z.a[0] for z in vs})
                if rest:
                    raise Unsupported("unresolved loop variable")
                kk = raw("each", n, C.CONS["lam"](vs, k))
                getattr(out, kind)[kk] = raw("eachval", n, C.CONS["lam"](vs, tup(k, val)))

    def init_of(self, key, st):
        kind, k = key
        if kind == "trace":
            return st.trace
        d = getattr(st, kind)
        if k in d:
            return d[k]
        if kind == "mem":
            return k
        if kind == "heap":
            return k
        return UNDEF

    def carried(self, key, init, st, s2):
        """Fresh carried variable of the right shape; returns (var, value to store)."""
        v0 = self.deref(init, st) if key[0] != "env" else init
        if key[0] == "env" and is_ref(init) and self.sole(key[1], init, st):
            c0 = self.deref(init, st)
            if c0.op in ("list", "dict", "set"):
                # `x = x + [..]`: a new container per iteration, nobody else holds it
                v = fresh(None, "c")
                return v, self.newref(raw(c0.op, v), s2), c0.op
        if key[0] == "trace":
            v = fresh(None, "c")
            return v, v, "seq"
        if key[0] == "env" and isinstance(key[1], tuple) and key[1][1] in ("$gen", "$out"):
            v = fresh(None, "c")
            return v, v, "seq"
        if v0.op in ("list", "dict", "set"):
            v = fresh(None, "c")
            return v, raw(v0.op, v), v0.op
        ty = v0.ty
        if ty is not None and ty.startswith("cls:"):
            ty = None
        if ty in ("int", "bool") and v0.op in ("num", "const"):
            ty = "int" if ty == "int" else "bool"
        v = fresh(ty, "c")
        return v, v, "val"

    def sole(self, slot, r, st):
        """Is the variable the only holder of the object r?"""
        nm = r.a[0]
        for k, v in st.env.items():
            if k != slot and nm in v.fv:
                return False
        for d in (st.heap, st.mem):
            for k, v in d.items():
                if k is not r and (nm in v.fv or nm in k.fv):
                    return False
        return nm not in st.trace.fv

    def loop(self, n, st, body, fr):
        if C.isint(n) and 0 <= n.a[0] <= C.UNROLL:
            return self.sequence([lambda s2, j=j: body(s2, num(j))
                                  for j in range(int(n.a[0]))], st)
        since = C._fresh[0]
        i = fresh("int", "i")
        C.RANGE[i.a[0]] = n
        r = body(st.copy(), i)
        if CNT in r.st:
            r = self.cnt_to_fall(r)
        W = self.changed(st, r, fr, since, True)
        for _ in range(4):
            s2 = st.copy()
            cv = {}
            for key in W:
                init = self.init_of(key, st)
                if init is UNDEF:
                    continue
                v, store, shape = self.carried(key, init, st, s2)
                cv[key] = (v, shape, init)
                self.put(s2, key, store)
            base = s2.copy()
            r = body(s2, i)
            if CNT in r.st:
                r = self.cnt_to_fall(r)
            W2 = self.changed(base, r, fr, since, True) | W
            if W2 == W:
                break
            W = W2
        if FALL in r.st and len(r.st) > 1:
            # counters of a loop with exits: expressed by the iteration number
            fall = self.snapshot(r.st[FALL])
            steps = {}
            for key, (v, sh, i0) in cv.items():
                x = fall.get(key)
                if sh == "val" and C.numy(v) and x is not None and x is not v \
                        and x.op != "ite" and C.numy(x) and C.isint(sub(x, v)):
                    steps[key] = add(i0, mul(sub(x, v), i))
            if steps:
                s2 = st.copy()
                cv2 = {}
                for key, (v, sh, i0) in cv.items():
                    if key in steps:
                        self.put(s2, key, steps[key])
                        continue
                    v, store, shape = self.carried(key, i0, st, s2)
                    cv2[key] = (v, shape, i0)
                    self.put(s2, key, store)
                cv = cv2
                base = s2.copy()
                r = body(s2, i)
                if CNT in r.st:
                    r = self.cnt_to_fall(r)
        W = W | self.changed(base, r, fr, since)
        res = self.close_loop(n, i, st, r, cv, W, fr)
        if FALL in res.st:
            self.leaks(r, cv, i, n, res.st[FALL], fr, since)
        return res

    def close_loop(self, n, i, st, r, cv, W, fr, while_cond=None):
        cvars = {v.a[0]: key for key, (v, sh, init) in cv.items()}
        cset = set(cvars)
        fall = r.st.get(FALL)
        exits = [k for k in C.leaves_of(r.tree) if k is not FALL]
        new = {}
        if fall is not None:
            for key in W:
                x = self.snapshot(fall).get(key)
                if x is None:
                    x = self.init_of(key, st)
                new[key] = C.in_range(self.deref_new(x, st, fall, fr), i, n)
        simple = all(not (cset & reach(r.tree, k).fv) for k in exits)
        search = self.search_vals(n, i, st, r, cv, W, fr, new) if \
            BRK in exits and simple and fall is not None else None
        if BRK in exits and search is None or not simple:
            return self.flag_loop(n, i, st, r, cv, W, fr, new)
        out = st.copy()
        if fall is not None:
            self.solve(n, i, st, out, cv, new, fr)
        tree = FALL
        states = {FALL: out}
        for k in sorted(exits, key=lambda x: x.d):
            c = reach(r.tree, k)
            anyc = C.anyv(i, n, c)
            if anyc is FALSE:
                continue
            es = st.copy()
            src = r.st[k]
            if k is RET:
                rk = (fr.id, "$ret")
                rv = self.escape(src.env.get(rk, NONE), fr, src)
                if cset & rv.fv:
                    return self.flag_loop(n, i, st, r, cv, W, fr, new)
                rv = C.CONS["first"]([i], n, c, rv)
                es.env[rk] = rv
            if k is BRK:
                for key, x in search.items():
                    self.store(es, key, C.CONS["first"]([i], n, c, x),
                               cv[key][1] if key in cv else "val",
                               cv[key][2] if key in cv else None)
            for key in W:
                if k is BRK:
                    break
                if key[0] in ("mem", "trace") or key[0] == "heap" and not is_ref(key[1]):
                    x = self.snapshot(src).get(key)
                    if x is not None:
                        init = self.init_of(key, st)
                        xx = self.escape(x, fr, src)
                        if key in cv and xx is cv[key][0]:
                            # unchanged in the exiting iteration
                            pass
                        self.put(es, key, mk("midloop", self.escape(init, fr, st), n,
                                             C.CONS["lam"]([i] + [cv[q][0] for q in
                                                                  sorted(cv, key=repr)
                                                                  if cv[q][0].a[0] in xx.fv],
                                                           xx)))
            tree = ite_c(anyc, k, tree)
            if k in states:
                states[k] = merge(anyc, es, states[k])
            else:
                states[k] = es
        if fall is None and C.isint(n) is False:
            # body never falls through: loop runs at most once
            pass
        live = set(C.leaves_of(tree))
        return R(tree, {k: v for k, v in states.items() if k in live})

    def search_vals(self, n, i, st, r, cv, W, fr, new):
        """A loop that only looks for the first i with a condition: key -> value in that
        iteration (None when an iteration that goes on changes carried state)."""
        cset = {v.a[0] for (v, sh, i0) in cv.values()}
        src = r.st[BRK]
        out = {}
        m = {}
        for key in W:
            if key in cv:
                v, sh, i0 = cv[key]
                x = new[key]
                if sh in ("list", "dict", "set"):
                    x = self.strip(x, sh)
                    m[v] = self.deref(i0, st).a[0]
                else:
                    m[v] = i0
                if x is not v:
                    return None
            elif key in new and cset & new[key].fv:
                return None
        for key in W:
            x = self.snapshot(src).get(key)
            if x is None:
                x = self.init_of(key, st)
            x = self.deref_new(x, st, src, fr)
            if key in cv and cv[key][1] in ("list", "dict", "set"):
                x = self.strip(x, cv[key][1])
                if x is None:
                    return None
            x = subst(x, m)
            if cset & x.fv:
                return None
            out[key] = x
        return out

    def deref_new(self, x, st, s2, fr):
        """Resolve objects created inside the loop body."""
        for _ in range(40):
            rs = [v for v in x.fv if v[0] == "&"]
            m = {}
            for k in s2.heap:
                if is_ref(k) and k.a[0] in rs and k not in st.heap:
                    m[k] = s2.heap[k]
            if not m:
                break
            x = subst(x, m)
        cl = _find_clo(x)
        if cl and x.op != "clo":
            x = subst(x, {c: self.clo_to_lam(c, fr, s2) for c in cl})
        return x

    def content(self, x, sh):
        return x

    def solve(self, n, i, st, out, cv, new, fr):
        """Closed forms of the loop-carried variables after n iterations."""
        names = {v.a[0]: key for key, (v, sh, init) in cv.items()}
        # heap content of carried containers: strip shape
        body = {}
        init = {}
        for key, x in new.items():
            if key not in cv:
                # first assigned inside the loop
                dep = set(names) & x.fv
                if not dep:
                    self.put(out, key, self.last_value(n, i, x))
                else:
                    body[key] = x
                    init[key] = UNDEF
                continue
            v, sh, i0 = cv[key]
            if sh in ("list", "dict", "set"):
                nx = self.strip(x, sh)
                if nx is None:
                    # shape lost: treat as opaque value
                    nx = x
                    body[key] = subst(x, {})
                    init[key] = self.deref(i0, st)
                    cv[key] = (v, "lost:" + sh, i0)
                    continue
                body[key] = nx
                init[key] = self.deref(i0, st).a[0]
            else:
                body[key] = x
                init[key] = self.before(i0, st, new)
        # induction variables
        ind = {}
        for key in list(body):
            if key not in cv:
                continue
            v, sh, i0 = cv[key]
            if sh == "val" and C.numy(v) and body[key].op != "ite" and body[key] is not v:
                d = sub(body[key], v)
                if not (set(names) & d.fv) and i.a[0] not in d.fv:
                    ind[v] = add(init[key], mul(d, i))
        if ind:
            for key in list(body):
                if key in cv and cv[key][0] in ind:
                    d = sub(body[key], cv[key][0])
                    self.put(out, key, add(init[key], mul(d, n)))
                    del body[key]
                else:
                    body[key] = subst(body[key], ind)
        # re-examine non-carried ones
        for key in list(body):
            if key not in cv and not (set(names) & body[key].fv):
                self.put(out, key, self.last_value(n, i, body[key]))
                del body[key]
        self.uniques(body, init, cv)
        live = {cv[k][0].a[0]: k for k in body if k in cv}
        for key in body:
            x = body[key]
            if isinstance(x, tuple):
                # elements appended when first seen
                _, s0, X = x
                S = C.CONS["fm"]([i], n, X)
                self.store(out, key, cat(init[key], C.newof(s0, S)), cv[key][1], cv[key][2])
                continue
            deps = set(live) & x.fv
            if key in cv:
                v, sh, i0 = cv[key]
                me = v.a[0]
                if deps <= {me}:
                    res = self.closed(n, i, v, sh, init[key], x)
                    self.store(out, key, res, sh, i0)
                    continue
            res, sh2 = self.joint(n, i, key, body, init, cv, live)
            self.store(out, key, res, cv[key][1] if key in cv else "val",
                       cv[key][2] if key in cv else None)

    def uniques(self, body, init, cv):
        """Lists that collect the elements not seen before."""
        byv = {cv[k][0]: k for k in body if k in cv}
        sets = {}
        for k in body:
            if k in cv and cv[k][1] in ("set", "dict"):
                y = self.drop_member(body[k], cv[k][0], cv[k][1])
                if y is not None:
                    body[k] = y
                d = self.suffix(body[k], cv[k][0]) if cv[k][1] == "set" else None
                if d is not None:
                    sets[cv[k][0]] = d
        res = {}
        for k in body:
            if k not in cv or cv[k][1] != "list":
                continue
            v = cv[k][0]
            r = self.fresh_part(body[k], v)
            if r is None:
                continue
            s, X = r
            if any(w.a[0] in X.fv for w in byv):
                continue
            if s is v:
                res[k] = ("new", init[k], X)
            elif s in sets and set_like(sets[s], X):
                res[k] = ("new", init[byv[s]], X)
        body.update(res)

    def drop_member(self, x, v, sh):
        """if e not in set(v): v + [e]  ->  v + [e]"""
        if x.op != "ite":
            return None
        at, p, q = x.a
        if at.op == "in" and p is v and at.a[1] is raw(sh, v) and q.op == "cat" and \
                len(q.a) == 2 and q.a[0] is v and q.a[1].op == "seq" and len(q.a[1].a) == 1:
            e = q.a[1].a[0]
            if sh == "set" and e is at.a[0]:
                return q
            if sh == "dict" and item(e, ZERO) is at.a[0] and item(e, ONE) is NONE:
                return q
        if x.op == "ite" and v.a[0] not in at.fv:
            a = p if p is v else self.drop_member(p, v, sh)
            b = q if q is v else self.drop_member(q, v, sh)
            if a is not None and b is not None:
                return ite_c(C._atom(at), a, b)
        return None

    def fresh_part(self, x, v):
        """x = v + new elements of X not in s: (s, X)"""
        if x.op == "ite" and x.a[0].op == "in" and x.a[1] is v:
            at, _, q = x.a
            s = at.a[1]
            if s.op in ("set", "list") and s.a[0].op == "var" and q.op == "cat" and \
                    len(q.a) == 2 and q.a[0] is v and q.a[1] is raw("seq", at.a[0]):
                return s.a[0], q.a[1]
        if x.op == "ite" and v.a[0] not in x.a[0].fv:
            a = (None, NIL) if x.a[1] is v else self.fresh_part(x.a[1], v)
            b = (None, NIL) if x.a[2] is v else self.fresh_part(x.a[2], v)
            if a is not None and b is not None and (a[0] is b[0] or None in (a[0], b[0])):
                return a[0] or b[0], ite_c(C._atom(x.a[0]), a[1], b[1])
        if x.op == "cat" and len(x.a) == 2 and x.a[0] is v and x.a[1].op == "it" and \
                x.a[1].a[0].op == "newof":
            s, L = x.a[1].a[0].a
            if s.op == "set" and s.a[0].op == "var":
                return s.a[0], L.a[0]
        return None

    def before(self, x, st, W):
        """Value of x before the loop (objects the loop changes are read there)."""
        for k in W:
            if k[0] == "heap" and is_ref(k[1]) and k[1].a[0] in x.fv:
                return self.deref(x, st)
        return x

    def last_value(self, n, i, x):
        if i.a[0] not in x.fv:
            # value after at least one iteration; loops that define and later use a
            # variable are assumed to run
            return x
        return subst(x, {i: sub(n, ONE)})

    def strip(self, x, sh):
        if x.op == "ite":
            a, b = self.strip(x.a[1], sh), self.strip(x.a[2], sh)
            if a is None or b is None:
                return None
            return ite_c(C._atom(x.a[0]), a, b)
        if x.op == sh:
            if sh == "set" and x.a[0].op == "cat":
                # order of a set's content is immaterial: carried variable first
                def okey(t):
                    m = {w: var("%s") for w in subvars(t) if "~" in w.a[0]}
                    return (t.op != "var", subst(t, m).d if m else t.d, t.d)
                return raw("cat", *sorted(x.a[0].a, key=okey))
            return x.a[0]
        return None

    def store(self, out, key, res, sh, i0):
        if sh in ("list", "dict", "set"):
            res = self.wrap_shape(sh, res)
            if key[0] == "env" and i0 is not None and is_ref(i0):
                res = self.newref(res, out)
        self.put(out, key, res)

    def wrap_shape(self, sh, S):
        if S.op == "ite":
            return ite_c(C._atom(S.a[0]), self.wrap_shape(sh, S.a[1]),
                         self.wrap_shape(sh, S.a[2]))
        return mk(sh, S)

    def closed(self, n, i, v, sh, init, x):
        me = v.a[0]
        if x is v:
            return init
        if me not in x.fv:
            if sh in ("list", "dict", "set", "seq"):
                return self.last_value(n, i, x) if i.a[0] in x.fv else x
            return C.CONS["fold"]([i, v], n, init, x) if i.a[0] in x.fv or True else x
        if sh in ("list", "dict", "set", "seq"):
            d = self.suffix(x, v)
            if d is not None:
                return cat(init, C.CONS["fm"]([i], n, d))
            d = self.prefix(x, v)
            if d is not None:
                return cat(C.rev(C.CONS["fm"]([i], n, C.rev(d))), init)
        if sh == "val":
            ls = C.leaves_of(x)
            if all(l is v or l is TRUE for l in ls):
                c = map_leaves(x, lambda l: TRUE if l is TRUE else FALSE)
                if me not in c.fv:
                    return ite_c(C.anyv(i, n, c), TRUE, init)
            if all(l is v or l is FALSE for l in ls):
                c = map_leaves(x, lambda l: TRUE if l is FALSE else FALSE)
                if me not in c.fv:
                    return ite_c(C.anyv(i, n, c), FALSE, init)
            if C.numy(v) or all(C.numy(l) for l in ls):
                ok = True

                def delta(l):
                    return sub(l, v)
                d = map_leaves(x, delta)
                if me not in d.fv:
                    return add(init, C.summ(i, n, d))
            if len([l for l in ls if l is not v]) == 1:
                k = [l for l in ls if l is not v][0]
                if C.isconst(k):
                    c = map_leaves(x, lambda l: TRUE if l is k else FALSE)
                    if me not in c.fv:
                        return ite_c(C.anyv(i, n, c), k, init)
            for w in ("max", "min"):
                if x.op == w + "of" and any(y is v for y in x.a):
                    rest = [y for y in x.a if y is not v]
                    if all(me not in y.fv for y in rest):
                        return mk(w + "of", init, mk(w + "seq", mk("list", C.CONS["fm"](
                            [i], n, seq(*rest)))))
            # unknown-typed addition: init + x0 + x1 ...
        return C.CONS["fold"]([i, v], n, init, x)

    def suffix(self, x, v):
        if x.op == "ite":
            a, b = self.suffix(x.a[1], v), self.suffix(x.a[2], v)
            if a is None or b is None or v.a[0] in x.a[0].fv:
                return None
            return ite_c(C._atom(x.a[0]), a, b)
        if x is v:
            return NIL
        if x.op == "cat" and x.a[0] is v:
            d = cat(*x.a[1:])
            return d if v.a[0] not in d.fv else None
        return None

    def prefix(self, x, v):
        if x is v:
            return NIL
        if x.op == "cat" and x.a[-1] is v:
            d = cat(*x.a[:-1])
            return d if v.a[0] not in d.fv else None
        return None

    def joint(self, n, i, key, body, init, cv, live):
        need = [key]
        seen = {key}
        j = 0
        while j < len(need):
            for nm in body[need[j]].fv:
                k2 = live.get(nm)
                if k2 is not None and k2 not in seen:
                    seen.add(k2)
                    need.append(k2)
            j += 1
        ph = var("%C", None)
        pi = var("%I", "int")
        phm = {cv[k][0]: ph for k in need if k in cv}
        phm[i] = pi

        def order(k):
            return (k is not key, subst(body[k], phm).d, init[k].d)
        need.sort(key=order)
        acc = fresh(None, "acc")
        m = {}
        for p, k in enumerate(need):
            if k in cv:
                m[cv[k][0]] = raw("accitem", acc, p, cv[k][0].a[1])
        bodies = tup(*[subst(body[k], m) for k in need]) if True else None
        bt = raw("tuple", raw("seq", *[subst(body[k], m) for k in need]))
        it_ = raw("tuple", raw("seq", *[init[k] for k in need]))
        f = C.CONS["fold"]([i, acc], n, it_, bt)
        return raw("folditem", f, 0), None

    def flag_loop(self, n, i, st, r, cv, W, fr, new):
        """Loops with break / state-dependent exits: flagged fold."""
        cset = {v.a[0] for (v, sh, i0) in cv.values()}
        flag = fresh("int", "c")
        codes = {}
        leafs = [k for k in C.leaves_of(r.tree)]
        for k in sorted(leafs, key=lambda x: x.a[0]):
            if k is not FALL:
                codes[k] = len(codes) + 1
        order = sorted(codes, key=lambda k: codes[k])
        nf = map_leaves(r.tree, lambda k: num(codes.get(k, 0)))
        cont = eq(flag, ZERO)
        newv = {}
        allkeys = set(W)
        for key in list(allkeys):
            val = None
            for k in leafs:
                s2 = r.st[k]
                x = self.snapshot(s2).get(key)
                if x is None:
                    x = self.init_of(key, st)
                x = self.deref_new(x, st, s2, fr)
                if k is RET and key == ("env", (fr.id, "$ret")):
                    x = self.escape(x, fr, s2)
                c = reach(r.tree, k)
                val = x if val is None else ite_c(c, x, val)
            newv[key] = val
        cv2 = dict(cv)
        fk = ("env", (fr.id, "$flag%d" % flag_uid()))
        cv2[fk] = (flag, "val", ZERO)
        for key in list(newv):
            if key not in cv2:
                i0 = self.init_of(key, st)
                if i0 is UNDEF:
                    cv2[key] = (fresh(None, "c"), "val", UNDEF)
                else:
                    v, _, sh = self.carried(key, i0, st, st.copy())
                    cv2[key] = (v, sh, i0)
        out = st.copy()
        body = {}
        init = {}
        for key, x in newv.items():
            v, sh, i0 = cv2[key]
            if sh in ("list", "dict", "set"):
                nx = self.strip(x, sh)
                if nx is None:
                    raise Unsupported("container shape lost in loop")
                x = nx
                init[key] = self.deref(i0, st).a[0]
            else:
                init[key] = self.before(i0, st, W)
            body[key] = ite_c(cont, x, v)
        body[fk] = ite_c(cont, nf, flag)
        init[fk] = ZERO
        live = {cv2[k][0].a[0]: k for k in body}
        res = {}
        for key in body:
            f, _ = self.joint(n, i, key, body, init, cv2, live)
            res[key] = f
            sh = cv2[key][1]
            if key is not fk:
                self.store(out, key, f, sh, cv2[key][2])
        ff = raw("folditem", res[fk].a[0], res[fk].a[1]) if res[fk].op == "folditem" else res[fk]
        tree = FALL
        states = {}
        for k in order:
            c = eq(raw("intval", ff), num(codes[k]))
            tree = ite_c(c, k, tree)
            states[k] = out.copy()
        states[FALL] = out
        return R(tree, states)

    def s_While(self, n, fr, st):
        if n.orelse:
            raise Unsupported("while-else")
        # pass 1: which variables change
        W = set()
        since = C._fresh[0]
        for _ in range(5):
            s2 = st.copy()
            cv = {}
            for key in W:
                init = self.init_of(key, st)
                if init is UNDEF:
                    continue
                v, store, sh = self.carried(key, init, st, s2)
                cv[key] = (v, sh, init)
                self.put(s2, key, store)
            base = s2.copy()
            c = to_cond(self.val(n.test, fr, s2))
            r = self.block(n.body, fr, s2)
            if CNT in r.st:
                r = self.cnt_to_fall(r)
            W2 = self.changed(base, r, fr, since) | W
            if W2 == W:
                break
            W = W2
        # counting loop?
        exits = [k for k in C.leaves_of(r.tree) if k is not FALL]
        i = fresh("int", "i")
        if FALL in r.st:
            fall = r.st[FALL]
            ind = {}
            for key, (v, sh, i0) in cv.items():
                if sh != "val":
                    continue
                x = self.deref_new(self.snapshot(fall)[key], st, fall, fr)
                if (C.numy(v) or C.isnum(i0)) and x.op != "ite" and C.numy(x):
                    d = sub(x, v)
                    if C.isint(d) and d.a[0] != 0:
                        ind[v] = add(i0, mul(d, i))
            if ind and c.op == "ite" and c.a[1] in (TRUE, FALSE) and c.a[2] in (TRUE, FALSE):
                c2 = subst(c, ind)
                k = self.bound(c2, i)
                cs = {v.a[0] for v, _, _ in cv.values()}
                if k is not None and not (k.fv & cs) and BRK not in exits:
                    body = lambda s3, j: self.block(n.body, fr, s3)
                    return self.loop(k, st, body, fr)
        res = self.while_generic(n, c, i, st, r, cv, W, fr)
        if FALL in res.st:
            self.leaks(r, cv, i, raw("while?", c) if not subvars_since(c, since) else NONE,
                       res.st[FALL], fr, since)
        return res

    def bound(self, c, i):
        """c is `i < K` (i int from 0) -> number of iterations K."""
        if c.op != "ite":
            return None
        at = c.a[0]
        if at.op == "lt":
            p, q = at.a
            d = sub(p, q)
            posv = c.a[1] is TRUE
            m = C._monos(d)
            ci = m.get(((i, 1),))
            if ci is None or any(i.a[0] in x.fv for k in m for x, e in k if x is not i):
                return None
            m2 = dict(m)
            del m2[((i, 1),)]
            rest = C._from_monos(m2)
            # posv: ci*i + rest < 0 ; else >= 0
            if posv and ci == 1:
                return neg(rest)
            if not posv and ci == -1:
                return add(rest, ONE)
        return None

    def while_generic(self, n, c, i, st, r, cv, W, fr):
        flag = fresh("int", "c")
        leafs = C.leaves_of(r.tree)
        codes = {}
        for k in sorted(leafs, key=lambda x: x.a[0]):
            if k is not FALL:
                codes[k] = len(codes) + 1
        body, init = {}, {}
        cv2 = dict(cv)
        lost = {}
        for key in sorted(W, key=repr):
            val = None
            for k in leafs:
                s2 = r.st[k]
                x = self.snapshot(s2).get(key)
                if x is None:
                    x = self.init_of(key, st)
                x = self.deref_new(x, st, s2, fr)
                val = x if val is None else ite_c(reach(r.tree, k), x, val)
            if key not in cv2:
                cv2[key] = (fresh(None, "c"), "val", UNDEF)
            v, sh, i0 = cv2[key]
            if sh in ("list", "dict", "set"):
                nx = self.strip(val, sh)
                if nx is None:
                    val = subst(val, {raw(sh, v): v})
                    cv2[key] = (v, "lost:" + sh, i0)
                    lost[raw(sh, v)] = v
                    init[key] = self.deref(i0, st)
                else:
                    val = nx
                    init[key] = self.deref(i0, st).a[0]
            else:
                init[key] = self.before(i0, st, W)
            body[key] = val
        cond = c
        if lost:
            cond = subst(cond, lost)
            body = {k: subst(x, lost) for k, x in body.items()}
        fk = None
        if codes:
            fk = ("env", (fr.id, "$flag%d" % flag_uid()))
            cv2[fk] = (flag, "val", ZERO)
            body[fk] = map_leaves(r.tree, lambda k: num(codes.get(k, 0)))
            init[fk] = ZERO
            cond = and_(eq(flag, ZERO), c)
        live = {cv2[k][0].a[0]: k for k in body}
        out = st.copy()
        res = {}
        for key in body:
            need = [key]
            seen = {key}
            extra = [live[nm] for nm in cond.fv if nm in live]
            for k2 in extra:
                if k2 not in seen:
                    seen.add(k2)
                    need.append(k2)
            j = 0
            while j < len(need):
                for nm in body[need[j]].fv:
                    k2 = live.get(nm)
                    if k2 is not None and k2 not in seen:
                        seen.add(k2)
                        need.append(k2)
                j += 1
            ph = var("%C", None)
            phm = {cv2[k][0]: ph for k in need}
            need.sort(key=lambda k: (k is not key, subst(body[k], phm).d, init[k].d))
            acc = fresh(None, "acc")
            m = {cv2[k][0]: raw("accitem", acc, p, cv2[k][0].a[1])
                 for p, k in enumerate(need)}
            w = C.CONS["while"]([acc], raw("tuple", raw("seq", *[init[k] for k in need])),
                                subst(cond, m),
                                raw("tuple", raw("seq", *[subst(body[k], m) for k in need])))
            f = raw("folditem", w, 0)
            res[key] = f
            sh = cv2[key][1]
            if key is not fk:
                self.store(out, key, f, sh, cv2[key][2])
        tree = FALL
        states = {FALL: out}
        for k in sorted(codes, key=lambda k: codes[k]):
            if k is BRK:
                continue
            cc = eq(raw("intval", res[fk]), num(codes[k]))
            tree = ite_c(cc, k, tree)
            states[k] = out.copy()
        if c is TRUE:
            # infinite loop: leaves only through its exits
            tree = map_leaves(tree, lambda x: x)
        return R(tree, states)

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def val(self, n, fr, st):
        v = self.ev(n, fr, st)
        return self.deref(v, st)

    def ev(self, n, fr, st, stmt=False):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("too large")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(type(n).__name__)
        if stmt and isinstance(n, ast.Call):
            v = self.e_Call(n, fr, st, stmt=True)
        else:
            v = m(n, fr, st)
        if v not in self.loc:
            self.loc[v] = (fr.mod.rel, getattr(n, "lineno", 0))
        return v

    def e_Constant(self, n, fr, st):
        return const(n.value)

    def e_Name(self, n, fr, st):
        return self.lookup(n.id, fr, st)

    def lookup(self, name, fr, st):
        f = fr
        while f is not None:
            k = (f.id, name)
            if k in st.env:
                return st.env[k]
            f = f.parent
        q = fr.mod.resolve_name(name)
        if q is None:
            return raw("unbound", name)
        return self.g(q)

    def g(self, q):
        """Term of a resolved global name."""
        q = ALIASES.get(q, q)
        if q == "numpy.newaxis":
            return NONE
        r = self.prog.lookup(q) if q.startswith("orquestra") else None
        if isinstance(r, tuple) and r[0] == "const":
            key = self.prog.fkey(r[1], r[2])
            if self.opaque("const " + key):
                return glob("~" + key)
            k = "const " + key
            if k in self.stack or len(self.stack) > self.MAXDEPTH:
                return glob("~" + key)
            self.stack.append(k)
            try:
                s2 = State()
                fr = Frame(r[1])
                v = self.escape(self.val(r[1].consts[r[2]], fr, s2), fr, s2)
            finally:
                self.stack.pop()
            self.inlined.add(k)
            return v
        if isinstance(r, Func):
            return glob("~" + r.key if not hasattr(r, "regkey") else "~" + r.regkey)
        if isinstance(r, Cls):
            return glob("~" + r.key)
        if q.startswith("orquestra.quantum.") and q not in self.prog.modules:
            k = self.prog.key_of(q)
            return glob(k)
        return glob(q)

    def e_Tuple(self, n, fr, st):
        return self.display("tuple", n, fr, st)

    def e_List(self, n, fr, st):
        return self.display("list", n, fr, st)

    def e_Set(self, n, fr, st):
        return self.display("set", n, fr, st)

    def display(self, op, n, fr, st):
        parts = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                parts.append(C.it(self.val(e.value, fr, st)))
            else:
                v = self.ev(e, fr, st)
                parts.append(raw("seq", self.boxed(v, st) if op != "set" else self.deref(v, st)))
        return mk(op, cat(*parts)) if not any(
            isinstance(x, T) and x.op == "ite" for p in parts for x in p.a) else \
            mk(op, cat(*[seq(*p.a) if p.op == "seq" else p for p in parts]))

    def e_Dict(self, n, fr, st):
        parts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.val(v, fr, st)
                parts.append(C.it(mk("items", d)))
            else:
                kk = self.val(k, fr, st)
                vv = self.boxed(self.ev(v, fr, st), st)
                parts.append(seq(tup(kk, vv)))
        return mk("dict", cat(*parts))

    def e_JoinedStr(self, n, fr, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(s(v.value))
            else:
                x = self.val(v.value, fr, st)
                if v.conversion == 114:
                    x = mk("call", glob("repr"), x)
                if v.format_spec is not None:
                    sp = self.val(v.format_spec, fr, st)
                    x = self.fspec(x, sp)
                parts.append(self.strv(x))
        return mk("fmt", *parts)

    def fspec(self, x, sp):
        if sp.op == "const" and sp.a[1] == "":
            return x
        return mk("fspec", self.escape_simple(x), sp)

    def escape_simple(self, x):
        return x

    def strv(self, x):
        if x.ty == "str":
            return x
        if C.isint(x):
            return s(str(int(x.a[0])))
        return mk("fmt", x)

    def e_FormattedValue(self, n, fr, st):
        return self.val(n.value, fr, st)

    def e_IfExp(self, n, fr, st):
        c = to_cond(self.val(n.test, fr, st))
        return self.choose(c, lambda s2: self.ev(n.body, fr, s2),
                           lambda s2: self.ev(n.orelse, fr, s2), st)

    def choose(self, c, f, g, st):
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        s1, s2 = st.copy(), st.copy()
        x = f(s1)
        y = g(s2)
        self.merge_into(st, c, s1, s2)
        return ite_c(c, x, y)

    def merge_into(self, st, c, s1, s2):
        if s1.pend is not FALL or s2.pend is not FALL:
            self.add_pend(st, R(ite_c(c, s1.pend, s2.pend),
                                {**{k: v for k, v in s2.pst.items()},
                                 **{k: v for k, v in s1.pst.items()}}))
        st.assign(merge(c, s1, s2))

    def add_pend(self, st, r):
        """r.tree has FALL and raise leaves."""
        old = st.pend
        st.pend = graft(old, r.tree)
        for k, v in r.st.items():
            if k is FALL:
                continue
            if k in st.pst:
                st.pst[k] = merge(reach(old, k), st.pst[k], v)
            else:
                st.pst[k] = v

    def e_BoolOp(self, n, fr, st):
        isand = isinstance(n.op, ast.And)

        def go(vals, s2):
            v = self.ev(vals[0], fr, s2)
            if len(vals) == 1:
                return v
            c = to_cond(self.deref(v, s2))
            if isand:
                return self.choose(c, lambda s3: go(vals[1:], s3),
                                   lambda s3: FALSE if v.ty == "bool" or C._is_bool_tree(v) else v, s2)
            return self.choose(c, lambda s3: TRUE if v.ty == "bool" or C._is_bool_tree(v) else v,
                               lambda s3: go(vals[1:], s3), s2)
        return go(n.values, st)

    def e_UnaryOp(self, n, fr, st):
        v = self.val(n.operand, fr, st)
        if isinstance(n.op, ast.Not):
            return not_(v)
        if isinstance(n.op, ast.USub):
            if C.numy(v) or C.isnum(v) or True:
                return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return mk("invert", v)

    def e_BinOp(self, n, fr, st):
        a = self.val(n.left, fr, st)
        b = self.val(n.right, fr, st)
        return self.binop(BINOP[type(n.op)], a, b)

    def binop(self, op, a, b):
        if a.op == "ite" or b.op == "ite":
            r = C.lift("bin", (a, b), lambda x, y: self.binop(op, x, y))
            if r is not None:
                return r
        na, nb = C.numy(a), C.numy(b)
        if op == "+":
            for k in ("list", "tuple"):
                if a.op == k and b.op == k:
                    return mk(k, cat(a.a[0], b.a[0]))
                if a.op == k and (b.ty == k or b.ty is None) and not nb:
                    return mk(k, cat(a.a[0], C.it(b)))
                if b.op == k and (a.ty == k or a.ty is None) and not na:
                    return mk(k, cat(C.it(a), b.a[0]))
                if a.ty == k and b.ty == k:
                    return mk(k, cat(C.it(a), C.it(b)))
            if a.ty == "str" or b.ty == "str":
                return mk("fmt", a, b)
            if na and nb or C.isnum(a) or C.isnum(b):
                return add(a, b)
            if (na or nb) and not (a.ty in C.CONTAINER or b.ty in C.CONTAINER):
                return add(a, b)
            return mk("bin", "+", a, b)
        if op == "-":
            if a.ty == "set" or b.ty == "set" or a.op == "set" or b.op == "set":
                return mk("bin", "-", a, b)
            if na and nb or C.isnum(a) or C.isnum(b) or na or nb:
                return sub(a, b)
            return mk("bin", "-", a, b)
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if x.op in ("list", "tuple") and y.op not in ("list", "tuple"):
                    S = x.a[0]
                    return mk(x.op, C.fm(y, lambda i: S))
                if x.ty == "str" and C.numy(y):
                    return mk("strrep", x, y)
            if na and nb or C.isnum(a) or C.isnum(b):
                return mul(a, b)
            if na or nb:
                return mul(a, b)
            if a is b and a.op == "call" and a.a[0].op == "glob" and \
                    a.a[0].a[0].startswith("numpy."):
                return mk("bin", "**", a, C.num(2))
            return mk("bin", "*", a, b)
        if op == "/":
            if nb or C.isnum(b):
                return div(a, b)
            if na:
                return mk("bin", "/", a, b)
            return mk("bin", "/", a, b)
        if op == "**":
            return power(a, b) if (na or C.isnum(a)) else (
                ONE if False else mk("bin", "**", a, b))
        if op == "//":
            return mk("floordiv", a, b)
        if op == "%":
            if a.ty == "str":
                return mk("bin", "%", a, b)
            return mk("mod", a, b)
        if op == "@":
            return mk("matmul", a, b)
        if op in ("&", "|", "^"):
            if a.ty == "bool" and b.ty == "bool" or \
                    C._is_bool_tree(a) and C._is_bool_tree(b):
                if op == "&":
                    return and_(a, b)
                if op == "|":
                    return or_(a, b)
            if op == "&" and False:
                pass
            if op == "|" and (a.op == "set" or b.op == "set" or a.ty == "set" and b.ty == "set"):
                return mk("set", cat(C.it(a) if a.op != "set" else a.a[0],
                                     C.it(b) if b.op != "set" else b.a[0]))
            nm = {"&": "bitand", "|": "bitor", "^": "bitxor"}[op]
            if a.ty in ("int", "set", "bool", None) and b.ty in ("int", "set", "bool", None) \
                    and not (a.ty is None and b.ty is None):
                a, b = sorted((a, b), key=lambda t: t.d)
            if C.isint(a) and C.isint(b):
                x, y = int(a.a[0]), int(b.a[0])
                return num({"&": x & y, "|": x | y, "^": x ^ y}[op])
            return mk(nm, a, b)
        if op == "<<":
            if C.numy(a):
                return mul(a, power(num(2), b))
            return mk("shl", a, b)
        if op == ">>":
            if C.numy(a) and C.isint(b):
                return mk("floordiv", a, power(num(2), b))
            return mk("shr", a, b)
        raise Unsupported("op " + op)

    def e_Compare(self, n, fr, st):
        left = self.val(n.left, fr, st)
        res = TRUE
        for op, c in zip(n.ops, n.comparators):
            right = self.val(c, fr, st)
            r = self.cmp(op, left, right)
            if isinstance(op, (ast.Eq, ast.NotEq)) and \
                    (is_range(c) and listish(left) or is_range(n.left) and listish(right)):
                # ranges are modelled as lists but never equal one
                r = FALSE if isinstance(op, ast.Eq) else TRUE
            res = and_(res, r)
            left = right
        return res

    def cmp(self, op, a, b):
        t = type(op)
        if t in (ast.Eq, ast.NotEq):
            r = self.eqv(a, b)
            return r if t is ast.Eq else not_(r)
        if t is ast.Lt:
            return C.lt(a, b)
        if t is ast.Gt:
            return C.lt(b, a)
        if t is ast.LtE:
            return self.le(a, b)
        if t is ast.GtE:
            return self.le(b, a)
        if t is ast.Is:
            return C.is_(a, b)
        if t is ast.IsNot:
            return not_(C.is_(a, b))
        if t is ast.In:
            return C.in_(a, b)
        if t is ast.NotIn:
            return not_(C.in_(a, b))
        raise Unsupported("compare")

    def eqv(self, a, b):
        return eq(a, b)

    def le(self, a, b):
        if C.numy(a) or C.numy(b) or C.isnum(a) or C.isnum(b):
            return not_(C.lt(b, a))
        return mk("cmpx", "<=", a, b)

    def e_NamedExpr(self, n, fr, st):
        v = self.boxed(self.ev(n.value, fr, st), st)
        f = fr
        while getattr(f, "comp", False):
            f = f.parent
        st.env[(f.id, n.target.id)] = v
        return v

    def e_Starred(self, n, fr, st):
        raise Unsupported("starred")

    def e_Lambda(self, n, fr, st):
        return Closure(n, fr).term

    def e_Await(self, n, fr, st):
        raise Unsupported("await")

    def e_Yield(self, n, fr, st):
        raise Unsupported("yield expression")

    # -- comprehensions --------------------------------------------------
    def comp(self, n, fr, st, elem):
        """Sequence of elem(frame, state) values over the generators of n."""
        cf = Frame(fr.mod, fr.cls, fr.func, fr)
        cf.comp = True
        first = self.iterable(self.val(n.generators[0].iter, fr, st), fr, st)
        S0 = C.it(first)
        base = st.copy()
        work = st.copy()
        bad = [False]

        def gen(k, S):
            g = n.generators[k]

            def f(e):
                self.assign(g.target, e, cf, work)
                conds = [to_cond(self.val(c, cf, work)) for c in g.ifs]
                c = and_(*conds) if conds else TRUE
                if c is FALSE:
                    return NIL
                if k + 1 < len(n.generators):
                    inner = gen(k + 1, C.it(self.iterable(
                        self.val(n.generators[k + 1].iter, cf, work), cf, work)))
                else:
                    v = elem(cf, work)
                    v = self.deref_inner(v, base, work, cf)
                    inner = seq(v)
                return ite_c(c, inner, NIL)
            return C.bindseq(S, f)
        res = gen(0, S0)
        if work.pend is FALL and work.trace is base.trace and self.same_world(base, work):
            return res
        # effects or exceptions inside: use the loop machinery
        rk = (cf.id, "$out")
        st.env[rk] = NIL

        def loops(k, S, s2):
            g = n.generators[k]

            def body(s3, e):
                self.assign(g.target, e, cf, s3)
                conds = TRUE
                for cnd in g.ifs:
                    conds = and_(conds, to_cond(self.val(cnd, cf, s3)))
                rp = State()
                rp.pend, rp.pst = s3.pend, s3.pst
                s3.pend, s3.pst = FALL, {}
                s4 = s3.copy()
                if k + 1 < len(n.generators):
                    S2 = C.it(self.iterable(self.val(n.generators[k + 1].iter, cf, s4), cf, s4))
                    r = self.wrap_pend(s4, loops(k + 1, S2, s4))
                else:
                    v = elem(cf, s4)
                    v = self.deref_inner(v, base, s4, cf)
                    s4.env[rk] = cat(s4.env[rk], seq(v))
                    r = self.wrap_pend(s4, R(FALL, {FALL: s4}))
                return self.wrap_pend(rp, self.join(conds, r, R(FALL, {FALL: s3})))
            return self.over_gen(S, s2, body, cf, rk)
        r = loops(0, S0, st.copy())
        fall = r.st.get(FALL)
        if r.tree is not FALL:
            self.add_pend(st, R(r.tree, {k: v for k, v in r.st.items() if k is not FALL}))
        if fall is not None:
            st.assign(fall)
        out = st.env.pop(rk, NIL)
        return out

    def over_gen(self, S, st, body, cf, rk):
        return self.over(S, st, body, cf)

    def deref_inner(self, v, base, work, fr):
        v = self.deref_new(v, base, work, fr)
        cl = _find_clo(v)
        if cl:
            v = subst(v, {c: self.clo_to_lam(c, fr, work) for c in cl})
        return v

    def same_world(self, a, b):
        for k, v in b.mem.items():
            if a.mem.get(k) is not v:
                return False
        for k, v in b.heap.items():
            if is_ref(k) and k not in a.heap:
                continue
            if a.heap.get(k) is not v:
                return False
        for k, v in b.env.items():
            if k in a.env and a.env[k] is not v:
                return False
        return True

    def e_ListComp(self, n, fr, st):
        return mk("list", self.comp(n, fr, st, lambda cf, s2: self.ev(n.elt, cf, s2)))

    def e_SetComp(self, n, fr, st):
        return mk("set", self.comp(n, fr, st, lambda cf, s2: self.ev(n.elt, cf, s2)))

    def e_GeneratorExp(self, n, fr, st):
        return mk("gen", self.comp(n, fr, st, lambda cf, s2: self.ev(n.elt, cf, s2)))

    def e_DictComp(self, n, fr, st):
        return mk("dict", self.comp(n, fr, st, lambda cf, s2: tup(
            self.val(n.key, cf, s2), self.ev(n.value, cf, s2))))

    # -- attributes, subscripts -------------------------------------------
    def e_Attribute(self, n, fr, st):
        q = None
        if isinstance(n.value, (ast.Name, ast.Attribute)):
            q = self.static_name(n, fr, st)
        if q is not None:
            return self.g(q)
        o = self.ev(n.value, fr, st)
        return self.getattr_(o, n.attr, fr, st)

    def static_name(self, n, fr, st):
        """Module-level dotted names (numpy.linalg.norm, Class.attr)."""
        x = n
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        f = fr
        while f is not None:
            if (f.id, x.id) in st.env:
                v = st.env[(f.id, x.id)]
                if v.op == "glob" and not v.a[0].startswith("~"):
                    path = []
                    y = n
                    while isinstance(y, ast.Attribute):
                        path.append(y.attr)
                        y = y.value
                    return self.prog.canon(".".join([v.a[0]] + path[::-1]))
                return None
            f = f.parent
        base = fr.mod.resolve_name(x.id)
        if base is None:
            return None
        r = self.prog.lookup(base) if base.startswith("orquestra") else None
        if isinstance(r, (tuple, Func)):
            return None
        if isinstance(r, Cls):
            return None
        if base.startswith("orquestra") and base not in self.prog.modules:
            return None
        return fr.mod.resolve(n)

    def attr_raw(self, o, name):
        if name.startswith("_") and name in self.trivial:
            name = self.trivial[name]
        return raw("attr", o, name)

    def getattr_(self, o, name, fr, st):
        if o.op == "ite":
            if C._leaves(o, 40) <= 24:
                return map_leaves(o, lambda x: self.getattr_(x, name, fr, st))
        if is_ref(o):
            return self.getattr_(st.heap[o], name, fr, st)
        if o.op == "setattr":
            if o.a[1].a[1] == name:
                return o.a[2]
            return self.getattr_(o.a[0], name, fr, st)
        if o.op == "glob":
            if o.a[0].startswith("~"):
                c = self.prog.classes.get(o.a[0][1:])
                if c is not None and name in ("__name__",):
                    return s(c.name)
                if c is not None:
                    f = c.find(name)
                    if f is not None:
                        if f.kind == "classmethod":
                            return raw("bound", glob("~" + f.key), o)
                        return glob("~" + f.key)
                return glob(o.a[0] + "." + name)
            return self.g(self.prog.canon(o.a[0] + "." + name))
        k = self.attr_raw(o, name)
        if k in st.mem:
            return st.mem[k]
        if o.op == "call" and o.a[0].op == "glob" and o.a[0].a[0].startswith("~"):
            v = self.field_of(o, name)
            if v is not None:
                return v
        if name == "ndim":
            return length(self.getattr_(o, "shape", fr, st))
        if name == "T" :
            return self.transposed(self.escape(o, fr, st))
        if name == "H":
            return mk("call", glob("numpy.conj"), self.transposed(self.escape(o, fr, st)))
        if name == "__class__":
            return self.typeof(o)
        # properties that are not opaque: inline
        f = self.find_method(o, name, fr)
        if f is not None and f.kind == "property" and not self.opaque(f.key):
            return self.call_func(f, [o], [], fr, st)
        o2 = self.escape(o, fr, st) if refs_in(o) or o in st.heap else o
        if o2 is not o:
            k = self.attr_raw(o2, name)
        if o2.op in ("num",) and name in ("real",):
            return o2
        return k

    def field_of(self, call, name):
        """Attribute of a freshly constructed object whose field is a constructor arg."""
        ck = call.a[0].a[0][1:]
        c = self.prog.classes.get(ck)
        if c is None:
            return None
        fm_ = self.fieldmap.get(ck)
        if fm_ is None:
            fm_ = {}
            if c.is_dataclass:
                for j, (fn, _, _) in enumerate(c.all_fields()):
                    fm_[fn] = j
            else:
                init = c.find("__init__")
                if init is not None:
                    pos, va, kwo, kwa = init.params()
                    pn = [p.arg for p in pos[1:]] + [p.arg for p in kwo]
                    asg = {}
                    for x in ast.walk(init.node):
                        tg = []
                        if isinstance(x, ast.Assign):
                            tg = [(t, x.value) for t in x.targets]
                        elif isinstance(x, ast.AnnAssign):
                            tg = [(x.target, x.value)]
                        for t, vv in tg:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                                    and t.value.id == "self":
                                asg.setdefault(t.attr, []).append(vv)
                    for a, vs in asg.items():
                        if len(vs) == 1 and isinstance(vs[0], ast.Name) and vs[0].id in pn:
                            fm_[a] = pn.index(vs[0].id)
            self.fieldmap[ck] = fm_
        if name in fm_:
            j = fm_[name]
            args = call.a[1:]
            if all(isinstance(x, T) and x.op not in ("kw", "star") for x in args) \
                    and j < len(args):
                return args[j]
        return None

    def typeof(self, o):
        if o.op == "var" and o.ty and o.ty.startswith("cls:") and o.a[0] == "self":
            ck = o.ty[4:]
            if not any(ck != c.key and any(b.key == ck for b in c.mro())
                       for c in self.prog.classes.values()):
                return glob("~" + ck)
        return mk("call", glob("type"), o)

    def find_method(self, o, name, fr):
        ty = o.ty if o.op in ("var", "bv") else None
        if ty and ty.startswith("cls:"):
            c = self.prog.classes.get(ty[4:])
            if c is not None:
                f = c.find(name)
                if f is not None:
                    return f
        if o.op == "call" and o.a[0].op == "glob" and o.a[0].a[0].startswith("~"):
            c = self.prog.classes.get(o.a[0].a[0][1:])
            if c is not None:
                f = c.find(name)
                if f is not None:
                    return f
        fs = self.prog.methods_by_name.get(name, [])
        if len(fs) == 1 and not self.hints.methods_by_name.get(name):
            return fs[0]        # method that only exists here: statically unique
        return None

    def index(self, n, fr, st):
        if isinstance(n, ast.Slice):
            lo = self.val(n.lower, fr, st) if n.lower else NONE
            hi = self.val(n.upper, fr, st) if n.upper else NONE
            sp = self.val(n.step, fr, st) if n.step else NONE
            return raw("sl", lo, hi, sp)
        if isinstance(n, ast.Tuple):
            return tup(*[self.index(e, fr, st) for e in n.elts])
        v = self.val(n, fr, st)
        return self.escape(v, fr, st)

    def shallow(self, t, st):
        """Content of an object, with the objects it contains left as references."""
        for _ in range(60):
            if t in st.heap and st.heap[t] is not t:
                t = st.heap[t]
            else:
                return t
        return t

    def e_Subscript(self, n, fr, st):
        n = flat_subscript(n)
        o0 = self.ev(n.value, fr, st)
        o = self.deref(o0, st)
        if not isinstance(n.slice, ast.Slice) and is_ref(o0):
            c = self.shallow(o0, st)
            if refs_in(c) and all(x.op in ("list", "dict", "tuple")
                                  for x in C.leaves_of(c)):
                k = self.index(n.slice, fr, st)
                r = map_leaves(c, lambda x: item(x, k))
                if is_ref(r):
                    return r
                return self.deref(r, st)
        if o.op == "glob" and not o.a[0].startswith("~") and \
                o.a[0].split(".")[0] in ("typing",):
            return o
        if isinstance(n.slice, ast.Slice):
            k = self.index(n.slice, fr, st)
            return self.slice_of(o, *k.a)
        k = self.index(n.slice, fr, st)
        if o.op == "var" and o.ty and o.ty.startswith("cls:"):
            f = self.find_method(o, "__getitem__", fr)
            if f is not None and not self.opaque(f.key) and f.key not in self.stack:
                return self.call_func(f, [o, k], [], fr, st)
        if o.op == "attr" and o.a[1] == "shape" and k is ZERO and o.a[0].ty == "arr":
            return length(o.a[0])
        r = item(o, k)
        if k.op == "key" and r.op == "val":
            return r
        return r

    def slice_of(self, o, lo, hi, step):
        if o.op == "ite":
            r = C.lift("slice", (o, lo, hi, step), self.slice_of)
            if r is not None:
                return r
        if step is ONE:
            step = NONE
        if lo is ZERO and (step is NONE):
            lo = NONE
        n = length(o) if o.op not in ("var",) or True else None
        if hi is n:
            hi = NONE
        if lo is NONE and hi is NONE and step is NONE:
            if o.ty in ("list", "tuple", "str"):
                if o.ty == "list":
                    return mk("list", C.it(o))
                return o
            return mk("copy", o)
        for k in ("list", "tuple"):
            if o.op == k and o.a[0].op == "seq" and all(
                    x is NONE or C.isint(x) for x in (lo, hi, step)):
                f = lambda x: None if x is NONE else int(x.a[0])
                return mk(k, seq(*o.a[0].a[slice(f(lo), f(hi), f(step))]))
        if o.ty in ("list", "tuple") and lo is NONE and hi is NONE and step is num(-1):
            return mk(o.ty, C.rev(C.it(o), o))
        return mk("slice", o, lo, hi, step)

    # -- calls --------------------------------------------------------------
    def e_Call(self, n, fr, st, stmt=False):
        args = []
        kws = []
        fn = n.func
        # method call?
        recv = None
        if isinstance(fn, ast.Attribute):
            q = None
            if isinstance(fn.value, (ast.Name, ast.Attribute)):
                q = self.static_name(fn, fr, st)
            if q is None:
                if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                        and fn.value.func.id == "super":
                    a, k = self.args(n, fr, st)
                    return self.super_call(fn.attr, a, k, fr, st)
                recv = self.ev(fn.value, fr, st)
                a, k = self.args(n, fr, st)
                return self.call_method(recv, fn.attr, a, k, fr, st)
            callee = self.g(q)
        else:
            callee = self.ev(fn, fr, st)
        if callee.op == "glob" and callee.a[0] in IGNORED_CALLS:
            return NONE
        a, k = self.args(n, fr, st)
        return self.call(callee, a, k, fr, st)

    def args(self, n, fr, st):
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                S = C.it(self.val(x.value, fr, st))
                for P in (S.a if S.op == "cat" else (S,)):
                    if P.op == "seq":
                        args.extend(P.a)
                    else:
                        args.append(("star", P))
            else:
                args.append(self.ev(x, fr, st))
        kws = []
        for k in n.keywords:
            if k.arg is None:
                d = self.val(k.value, fr, st)
                if d.op == "dict" and d.a[0].op == "seq" and all(
                        item(e, ZERO).op == "const" for e in d.a[0].a):
                    for e in d.a[0].a:
                        kws.append((item(e, ZERO).a[1], item(e, ONE)))
                else:
                    kws.append(("**", d))
            else:
                kws.append((k.arg, self.ev(k.value, fr, st)))
        return args, kws

    def call(self, callee, args, kws, fr, st):
        if callee.op == "ite":
            ls = C.leaves_of(callee)
            if len(ls) <= 8:
                def go(t, s2):
                    if t.op == "ite":
                        return self.choose(C._atom(t.a[0]), lambda s3: go(t.a[1], s3),
                                           lambda s3: go(t.a[2], s3), s2)
                    return self.call(t, args, kws, fr, s2)
                return go(callee, st)
        if is_ref(callee):
            callee = st.heap[callee]
        if callee.op == "clo":
            clo = CLOS[callee.a[0]]
            if clo.partial is not None:
                f2, a2, k2 = clo.partial
                kk = dict(k2)
                kk.update(dict(kws))
                return self.call(f2, list(a2) + list(args), list(kk.items()), fr, st)
            if clo.fn is not None:
                return clo.fn(self, st, [self.deref(a, st) for a in args])
            return self.call_closure(clo, args, kws, fr, st)
        if callee.op == "bound":
            return self.call(callee.a[0], [callee.a[1]] + list(args), kws, fr, st)
        if callee.op == "attr":
            # bound method value called later
            return self.call_method(callee.a[0], callee.a[1], args, kws, fr, st)
        if callee.op == "lam":
            vs, (body,) = C.open_binder(callee)
            if len(vs) == len(args) and not kws and not any(isinstance(a, tuple) for a in args):
                return subst(body, dict(zip(vs, [self.escape(a, fr, st) for a in args])))
        if callee.op == "glob":
            name = callee.a[0]
            if name.startswith("~"):
                return self.call_repo(name[1:], args, kws, fr, st)
            return self.call_ext(name, args, kws, fr, st)
        if callee.op == "call" and callee.a[0] is glob("type") and len(callee.a) == 2:
            o = callee.a[1]
            ck = o.ty[4:] if o.op == "var" and o.ty and o.ty.startswith("cls:") else None
            c = self.prog.classes.get(ck)
            if c is not None:
                return self.construct(c, args, kws, fr, st, callee)
        return self.opaque_call("call", (self.escape(callee, fr, st),), args, kws, fr, st)

    def escape_args(self, args, kws, fr, st):
        out = []
        for a in args:
            if isinstance(a, tuple):
                out.append(raw("star", self.escape(a[1], fr, st)))
            else:
                out.append(self.escape(a, fr, st))
        kk = sorted(((k, self.escape(v, fr, st)) for k, v in kws), key=lambda p: p[0])
        return out, kk

    def opaque_call(self, op, head, args, kws, fr, st):
        a, k = self.escape_args(args, kws, fr, st)
        return self.mkcall(op, head, a, k)

    def mkcall(self, op, head, a, k):
        # lift decision nodes out of keyword arguments as well
        if any(v.op == "ite" for _, v in k):
            vals = [v for _, v in k]
            names = [q for q, _ in k]
            na = len(a)
            r = C.lift("call", tuple(a) + tuple(vals),
                       lambda *xs: self.mkcall(op, head, list(xs[:na]),
                                               list(zip(names, xs[na:]))))
            if r is not None:
                return r
        return mk(op, *head, *a, *[raw("kw", q, v) for q, v in k])

    # closures
    def call_closure(self, clo, args, kws, fr, st):
        node = clo.node
        key = ("clo", id(node))
        if len(self.stack) > self.MAXDEPTH + 6 or self.stack.count(key) >= 1:
            return self.opaque_call("call", (glob("<rec>"),), args, kws, fr, st)
        nf = Frame(clo.frame.mod, clo.frame.cls, None, clo.frame)
        if isinstance(node, ast.FunctionDef):
            nf.func = _FakeFunc(node)
        full = list(args)
        if clo.self_term is not None:
            full = [clo.self_term] + full
        if not self.bind(node.args, full, kws, nf, clo.frame, st):
            return self.opaque_call("call", (glob("<closure>"),), args, kws, fr, st)
        self.stack.append(key)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, nf, st)
            return self.inline_body(node, nf, st)
        finally:
            self.stack.pop()

    def bind(self, a, args, kws, nf, deff, st):
        """Bind call arguments to parameters in frame nf.  False if impossible."""
        pos = [p.arg for p in a.posonlyargs + a.args]
        kwo = [p.arg for p in a.kwonlyargs]
        vals = {}
        rest = []
        args = list(args)
        # a star argument of unknown length
        for j, x in enumerate(args):
            if isinstance(x, tuple):
                S = x[1]
                if j >= len(pos) or a.vararg and j >= len(pos):
                    rest.append(("S", S))
                    continue
                if a.vararg is None and j == len(args) - 1 and not kws:
                    need = [p for p in pos[j:]]
                    for q, p in enumerate(need):
                        vals[p] = C.sitem(S, num(q))
                    continue
                if a.vararg is not None and j == len(args) - 1:
                    need = pos[j:]
                    for q, p in enumerate(need):
                        vals[p] = C.sitem(S, num(q))
                    sl = mk("slice", raw("tuple", S), num(len(need)), NONE, NONE) \
                        if need else None
                    rest.append(("S", C.it(sl) if sl is not None else S))
                    continue
                return False
            if j < len(pos):
                vals[pos[j]] = x
            else:
                rest.append(("E", x))
        extra = []
        for k, v in kws:
            if k in pos or k in kwo:
                vals[k] = v
            elif k == "**":
                return False
            else:
                extra.append((k, v))
        if rest and a.vararg is None:
            return False
        if extra and a.kwarg is None:
            return False
        for p in pos + kwo:
            if p not in vals:
                d = self.default_of_node(a, p)
                if d is None:
                    return False
                vals[p] = self.ev(d, deff, st)
        for p, v in vals.items():
            st.env[(nf.id, p)] = self.boxed(v, st)
        if a.vararg is not None:
            parts = [seq(x) if t == "E" else x for t, x in rest]
            st.env[(nf.id, a.vararg.arg)] = mk("tuple", cat(*parts))
        if a.kwarg is not None:
            st.env[(nf.id, a.kwarg.arg)] = mk("dict", seq(*[tup(s(k), v) for k, v in extra]))
        return True

    def inline_body(self, node, nf, st):
        """Execute a function body in place; returns its value, updates st."""
        s2 = st.copy()
        isgen = getattr(nf.func, "is_gen", False)
        if isgen:
            s2.env[(nf.id, "$gen")] = NIL
        r = self.block(node.body, nf, s2)
        ends = [k for k in (FALL, RET) if k in r.st]
        raises = {k: v for k, v in r.st.items() if k not in (FALL, RET)}
        if BRK in raises or CNT in raises:
            raise Unsupported("break outside loop")
        if raises:
            self.add_pend(st, R(map_leaves(r.tree, lambda x: FALL if x is RET else x), raises))
        rk = (nf.id, "$ret")
        if not ends:
            return UNDEF
        for k in ends:
            if k is FALL:
                r.st[k].env[rk] = NONE
        if len(ends) == 2:
            m = merge(reach(r.tree, RET), r.st[RET], r.st[FALL])
        else:
            m = r.st[ends[0]]
        st.assign(m)
        v = st.env.get(rk, NONE)
        if isgen:
            v = mk("gen", st.env.get((nf.id, "$gen"), NIL))
        return v

    # repo functions
    def call_repo(self, key, args, kws, fr, st):
        f = self.prog.funcs.get(key)
        if f is not None:
            if f.kind == "classmethod" and not (args and not isinstance(args[0], tuple)
                                                and args[0].op == "glob"):
                args = [glob("~" + f.cls.key)] + list(args)
            return self.call_func(f, args, kws, fr, st)
        c = self.prog.classes.get(key)
        if c is not None:
            return self.construct(c, args, kws, fr, st)
        return self.opaque_call("call", (glob("~" + key),), args, kws, fr, st)

    def call_func(self, f, args, kws, fr, st):
        key = getattr(f, "regkey", f.key)
        if key in self.prog.registry or ("~" + key) in self.prog.registry or \
                self.opaque(key) or key in self.stack or len(self.stack) > self.MAXDEPTH:
            return self.named_call(f, key, args, kws, fr, st)
        for d in f.decos:
            last = d.split(".")[-1]
            if last not in ("staticmethod", "classmethod", "property", "lru_cache", "cache",
                            "wraps", "cached_property", "overload"):
                return self.named_call(f, key, args, kws, fr, st)
        nf = Frame(f.mod, f.cls, f)
        if not self.bind(f.node.args, args, kws, nf, Frame(f.mod, f.cls), st):
            return self.named_call(f, key, args, kws, fr, st)
        self.stack.append(key)
        self.inlined.add(key)
        try:
            return self.inline_body(f.node, nf, st)
        finally:
            self.stack.pop()

    def canon_args(self, a, args, kws, deff, fr, st, skip=0):
        """Order arguments by parameter, fill defaults.  None if not resolvable."""
        pos = [p.arg for p in a.posonlyargs + a.args][skip:]
        kwo = [p.arg for p in a.kwonlyargs]
        out = []
        vals = {}
        if args and isinstance(args[-1], tuple) and not any(
                isinstance(x, tuple) for x in args[:-1]) and not kws and a.vararg is None \
                and not a.defaults and len(args) <= len(pos):
            # exactly the remaining parameters
            S = args[-1][1]
            args = list(args[:-1]) + [C.sitem(S, num(q)) for q in range(len(pos) - len(args) + 1)]
        if any(isinstance(x, tuple) for x in args) or any(k == "**" for k, _ in kws):
            return None
        for j, x in enumerate(args):
            if j < len(pos):
                vals[pos[j]] = x
            elif a.vararg is not None:
                vals.setdefault("*", []).append(x)
            else:
                return None
        extra = []
        for k, v in kws:
            if k in pos or k in kwo:
                vals[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                return None
        res = []
        for p in pos + kwo:
            if p in vals:
                res.append(vals[p])
            else:
                d = self.default_of_node(a, p)
                if d is None:
                    return None
                res.append(self.ev(d, deff, st))
        res += vals.get("*", [])
        return res, extra

    def named_call(self, f, key, args, kws, fr, st):
        skip = 0
        a = f.node.args
        if f.cls is not None and f.kind in ("method", "property", "classmethod") and args:
            recv = args[0]
            if isinstance(recv, T):
                if f.kind == "classmethod":
                    r = self.canon_args(a, args[1:], kws, Frame(f.mod, f.cls), fr, st, 1)
                    args2, kws2 = (r if r else (args[1:], kws))
                    v = self.opaque_call("call", (glob("~" + key),), args2, kws2, fr, st)
                    return v
                return self.call_method(recv, f.name, args[1:], kws, fr, st, noinline=True)
        r = self.canon_args(a, args, kws, Frame(f.mod, f.cls), fr, st)
        if r is not None:
            # defaults that the reference signature does not have are dropped later
            args, kws = r
            args = self.trim(f, key, args)
        v = self.opaque_call("call", (glob("~" + key),), args, kws, fr, st)
        self.event_if(f.name, key, v, args, st, fr)
        return v

    def trim(self, f, key, args):
        """Drop trailing arguments equal to defaults unknown to the reference."""
        hf = self.hints.funcs.get(key)
        if hf is None or self.hints is self.prog:
            return args
        hp, hva, hko, _ = hf.params()
        p, va, ko, _ = f.params()
        if va is None and hva is None and len(p) + len(ko) > len(hp) + len(hko):
            names = [x.arg for x in p + ko]
            hn = {x.arg for x in hp + hko}
            if len(names) == len(args):
                return [x for nme, x in zip(names, args) if nme in hn]
        return args

    def construct(self, c, args, kws, fr, st, head=None):
        head = glob("~" + c.key) if head is None else head
        if c.is_dataclass and c.find("__init__") is None:
            fields = c.all_fields()
            names = [x[0] for x in fields]
            if not any(isinstance(x, tuple) for x in args) and not any(k == "**" for k, _ in kws):
                vals = dict(zip(names, args))
                ok = len(args) <= len(names)
                for k, v in kws:
                    if k not in names:
                        ok = False
                    vals[k] = v
                if ok:
                    out = []
                    for fn, ann, d in fields:
                        if fn in vals:
                            out.append(vals[fn])
                        elif d is not None:
                            out.append(self.ev(d, Frame(c.mod, c), st))
                        else:
                            out = None
                            break
                    if out is not None:
                        return self.opaque_call("call", (head,), out, [], fr, st)
        else:
            init = c.find("__init__")
            if init is not None:
                r = self.canon_args(init.node.args, args, kws, Frame(init.mod, init.cls), fr, st, 1)
                if r is not None:
                    a2 = r[0]
                    hf = self.hints.funcs.get(init.key)
                    if hf is not None and hf is not init:
                        pn = [x.arg for x in init.node.args.args[1:] + init.node.args.kwonlyargs]
                        hn = {x.arg for x in hf.node.args.args[1:] + hf.node.args.kwonlyargs}
                        if len(pn) == len(a2):
                            a2 = [x for q, x in zip(pn, a2) if q in hn]
                    return self.opaque_call("call", (head,), a2, r[1], fr, st)
            if init is None and not args and not kws:
                return raw("call", head)
        return self.opaque_call("call", (head,), args, kws, fr, st)

    EFFECTFUL = set()

    def event_if(self, name, key, v, args, st, fr):
        if name in EFFECT_NAMES or key in EFFECT_NAMES:
            dirty = [mk("w", self.escape(k, fr, st), self.escape(x, fr, st))
                     for k, x in st.mem.items() if x is not k]
            dirty.sort(key=lambda t: t.d)
            st.trace = cat(st.trace, seq(mk("ev", v, mk("eff", NIL, *dirty))))

    def super_call(self, name, args, kws, fr, st):
        c = fr.cls
        selfk = None
        f0 = fr.func
        fr0 = fr
        while f0 is None or isinstance(f0, _FakeFunc):
            fr0 = fr0.parent
            f0 = fr0.func
        selfname = f0.node.args.args[0].arg
        me = st.env.get((fr0.id, selfname))
        for b in c.mro()[1:]:
            if name in b.methods:
                f = b.methods[name]
                key = f.key
                if name == "__init__" or not self.opaque(key):
                    nf = Frame(f.mod, f.cls, f)
                    if key in self.stack:
                        break
                    if self.bind(f.node.args, [me] + list(args), kws, nf,
                                 Frame(f.mod, f.cls), st):
                        self.stack.append(key)
                        try:
                            return self.inline_body(f.node, nf, st)
                        finally:
                            self.stack.pop()
                return self.opaque_call("call", (glob("~" + key),), [me] + list(args), kws,
                                        fr, st)
        if name == "__init__":
            return NONE
        return self.opaque_call("meth", ("super." + name, me), args, kws, fr, st)

    def call_method(self, recv, name, args, kws, fr, st, noinline=False):
        d = self.deref(recv, st) if is_ref(recv) else recv
        if d.op == "call" and d.a[0] is glob("super") and len(d.a) == 1:
            return self.super_call(name, args, kws, fr, st)
        if recv.op == "ite" and C._leaves(recv, 20) <= 10:
            def go(t, s2):
                if t.op == "ite":
                    return self.choose(C._atom(t.a[0]),
                                       lambda s3: go(t.a[1], assume(s3, t.a[0], True)),
                                       lambda s3: go(t.a[2], assume(s3, t.a[0], False)), s2)
                return self.call_method(t, name, args, kws, fr, s2, noinline)
            return go(recv, st)
        # functions stored on classes / static methods through instances
        if recv.op == "glob" and recv.a[0].startswith("~"):
            c = self.prog.classes.get(recv.a[0][1:])
            if c is not None:
                f = c.find(name)
                if f is not None:
                    if f.kind == "classmethod":
                        return self.call_func(f, [recv] + list(args), kws, fr, st)
                    if f.kind == "static":
                        return self.call_func(f, args, kws, fr, st)
                    # Class.method(obj, ...)
                    if args:
                        return self.call_method(args[0], name, args[1:], kws, fr, st)
                return self.opaque_call("call", (glob(recv.a[0] + "." + name),), args, kws,
                                        fr, st)
            if name == "register":
                raise Unsupported("dynamic registration")
            return self.opaque_call("call", (glob(recv.a[0] + "." + name),), args, kws, fr, st)
        content = self.deref(recv, st)
        if not noinline:
            k = self.attr_raw(recv, name)
            if k in st.mem:
                return self.call(st.mem[k], args, kws, fr, st)
            f = self.find_method(recv if not is_ref(recv) else content, name, fr)
            if f is not None and f.kind in ("method", "static", "classmethod") \
                    and not self.opaque(f.key) and f.key not in self.stack \
                    and not self.overridden(f, name):
                if f.kind == "static":
                    return self.call_func(f, args, kws, fr, st)
                a0 = glob("~" + f.cls.key) if f.kind == "classmethod" else recv
                return self.call_func(f, [a0] + list(args), kws, fr, st)
            if f is not None and f.kind == "static":
                return self.named_call(f, f.key, args, kws, fr, st)
        r = self.builtin_method(recv, content, name, args, kws, fr, st)
        if r is not None:
            return r
        # canonical argument order from the (unique) repo signature
        args2, kws2 = args, kws
        sig = self.meth_sig(recv, content, name, fr)
        if sig is not None:
            r = self.canon_args(sig.node.args, args, kws, Frame(sig.mod, sig.cls), fr, st, 1)
            if r is not None:
                args2, kws2 = r
                hf = self.hints.funcs.get(sig.key)
                if hf is not None and hf is not sig:
                    pn = [x.arg for x in sig.node.args.args[1:] + sig.node.args.kwonlyargs]
                    hn = {x.arg for x in hf.node.args.args[1:] + hf.node.args.kwonlyargs}
                    if len(pn) == len(args2):
                        args2 = [x for q, x in zip(pn, args2) if q in hn]
        elif name in METH_SIGS and METH_SIGS[name]:
            args2, kws2 = self.ext_args(METH_SIGS[name], args, kws)
        elif kws:
            args2, kws2 = self.named_args(name, args, kws)
        rv = self.escape(recv, fr, st)
        v = self.opaque_call("meth", (name, rv), args2, kws2, fr, st)
        self.event_if(name, name, v, args2, st, fr)
        return v

    def overridden(self, f, name):
        """Is method f overridden in a subclass of its class (dynamic dispatch)?"""
        for c in self.prog.classes.values():
            if c is f.cls or name not in c.methods:
                continue
            if f.cls in c.mro():
                return True
        return False

    def meth_sig(self, recv, content, name, fr):
        f = self.find_method(content, name, fr)
        if f is not None:
            return f
        fs = [f for f in self.prog.methods_by_name.get(name, []) if f.kind == "method"]
        if not fs:
            return None
        if name in ("get", "copy", "index", "count", "pop", "append", "keys", "items"):
            return None
        sigs = {ast.dump(ast.arguments(**{**{k: getattr(f.node.args, k) for k in
                ("posonlyargs", "vararg", "kwonlyargs", "kwarg")},
                "args": [ast.arg(arg=x.arg) for x in f.node.args.args],
                "defaults": f.node.args.defaults, "kw_defaults": f.node.args.kw_defaults}))
                for f in fs}
        if len(sigs) == 1:
            return fs[0]
        return None

    def named_args(self, name, args, kws):
        """Keyword arguments every repository method of that name takes at one position."""
        fs = [f for f in self.prog.methods_by_name.get(name, ()) if f.kind == "method"]
        while kws:
            k = len(args)
            at = {x.arg: j for f in fs for j, x in enumerate(f.node.args.args[1:])}
            ok = [q for q, _ in kws if at.get(q) == k and all(
                [x.arg for x in f.node.args.args[1:]].index(q) == k for f in fs
                if q in [x.arg for x in f.node.args.args])]
            if len(ok) != 1:
                break
            args = list(args) + [v for q, v in kws if q == ok[0]]
            kws = [(q, v) for q, v in kws if q != ok[0]]
        return args, kws

    def iterable(self, v, fr, st):
        """The object a loop over v iterates: __iter__ of a class of the repository."""
        if v.op == "var" and v.ty and v.ty.startswith("cls:"):
            f = self.find_method(v, "__iter__", fr)
            if f is not None and not self.opaque(f.key) and f.key not in self.stack:
                return self.call_func(f, [v], [], fr, st)
        if v.op == "slice" and v.a[1] is NONE and v.a[3] is NONE and v.a[2].op == "var" and \
                C.RANGE.get(v.a[2].a[0]) is length(v.a[0]):
            return mk("list", C.fm(v.a[2], lambda j: seq(item(v.a[0], j))))
        return v

    def ext_args(self, names, args, kws):
        if not names or any(isinstance(a, tuple) for a in args):
            return args, kws
        args = list(args)
        kws = dict(kws)
        while len(args) < len(names) and names[len(args)] in kws:
            args.append(kws.pop(names[len(args)]))
        return args, list(kws.items())

    # builtin methods of containers / strings / arrays -----------------------
    def builtin_method(self, recv, c, name, args, kws, fr, st):
        A = [self.deref(a, st) if isinstance(a, T) else a for a in args]
        ty = c.ty
        if name == "union" and not kws and (c.op == "set" or ty == "set"):
            return mk("set", cat(self.sseq(c), *[
                C.bindseq(a[1], lambda e: C.it(e)) if isinstance(a, tuple) else
                (x.a[0] if x.op == "set" else C.it(x)) for a, x in zip(args, A)]))
        if name == "transpose" and len(args) == 1 and isinstance(args[0], tuple) and not kws:
            S = args[0][1]
            if S is C.rev(C.CONS["fm"]([i0 := C.fresh("int")], length(raw("list", S)),
                                       seq(i0))):
                return self.transposed(c)       # (of all axes, or an error)
        if any(isinstance(a, tuple) for a in args) and name not in ("format",):
            return None
        if name in MUTATORS:
            r = self.mutator(recv, c, name, args, A, kws, st, fr)
            if r is not None:
                return r
        if name == "items" and not A:
            return mk("items", c)
        if name == "keys" and not A:
            return mk("keys", c)
        if name == "values" and not A:
            return mk("values", c)
        if name == "copy" and not A:
            if c.op == "list":
                return c
            if c.op in ("dict", "set"):
                return c
            if ty == "list":
                return mk("list", C.it(c))
            if ty == "dict":
                return mk("dict", C.it(mk("items", c)))
            if ty in ("arr", None) and not (c.op == "var" and ty and ty.startswith("cls")):
                fs = self.prog.methods_by_name.get("copy")
                return None
            return None
        if name == "get" and 1 <= len(A) + len(kws) <= 2 and not kws and (
                ty == "dict" or c.op in ("dict",) or ty is None and c.op in (
                    "var", "attr", "item", "bv", "val") and not self.hints.methods_by_name.get(
                    "get")):
            d = A[1] if len(A) > 1 else NONE
            if isinstance(args[-1], T) and len(A) > 1 and d.op in ("list", "dict", "set"):
                d = self.boxed(args[1], st)
                cs = self.shallow(recv, st)
                if cs.op != "dict" or not refs_in(cs):
                    cs = c
                return ite_c(C.in_(A[0], c), item(cs, A[0]), d)
            return ite_c(C.in_(A[0], c), item(c, A[0]), d)
        if name == "join" and ty == "str" and len(A) == 1:
            return self.join_str(c, C.it(A[0]))
        if name == "format" and c.op == "const" and c.a[0] == "str":
            r = self.str_format(c.a[1], args, kws, fr, st)
            if r is not None:
                return r
        if name in ("conj", "conjugate") and not A and not kws and name not in \
                self.hints.methods_by_name:
            return mk("call", glob("numpy.conj"), c)
        if name == "dot" and len(A) == 1:
            return mk("matmul", c, A[0])
        if name == "transpose" and not A:
            return self.transposed(c)
        own = self.hints.methods_by_name
        if name == "adjoint" and not A and not kws and name not in own:
            return mk("call", glob("numpy.conj"), self.transposed(c))
        if name == "pow" and len(A) == 1 and not kws and name not in own:
            return self.binop("**", c, A[0])
        if name == "reshape" and len(A) == 1 and not kws and C.isnum(A[0]) and A[0].a[0] == -1 \
                or name in ("ravel", "flatten") and not A and not kws and name not in own:
            return self.opaque_call("meth", ("flatten", self.escape(recv, fr, st)), [], [], fr, st)
        if name == "astype" and args and args[0] in DTYPES:
            args = [DTYPES[args[0]]] + list(args[1:])
        if name == "astype" and len(A) == 1 and not kws and c.op == "call" and \
                c.a[0] is glob("numpy.array") and len(c.a) == 2:
            return self.opaque_call("call", (glob("numpy.array"),), [c.a[1], args[0]], [], fr, st)
        if name in ("union", "intersection", "symmetric_difference", "difference") and len(A) == 1:
            op = {"union": "|", "intersection": "&", "symmetric_difference": "^",
                  "difference": "-"}[name]
            x, y = c, A[0]
            if y.ty != "set":
                y = mk("set", C.it(y))
            return self.setop(op, x, y)
        if name == "__getitem__" and len(A) == 1:
            return item(c, A[0])
        if name == "__len__" and not A:
            return length(c)
        if name == "__contains__" and len(A) == 1:
            return C.in_(A[0], c)
        if name == "__iter__" and not A:
            return mk("gen", C.it(c))
        if name == "tolist" and not A and c.ty == "list":
            return c
        if name == "sum" and not A and not kws:
            return mk("call", glob("numpy.sum"), c)
        if name == "mean" and not A and not kws:
            return mk("call", glob("numpy.mean"), c)
        if name == "reshape" and len(A) == 1 and A[0].op == "tuple" and A[0].a[0].op == "seq":
            return mk("meth", "reshape", self.escape(recv, fr, st), *A[0].a[0].a)
        if name == "write" and len(A) == 1:
            obj = A[0]
            st.trace = cat(st.trace, seq(mk("write", self.escape(recv, fr, st),
                                            self.escape(obj, fr, st))))
            return NONE
        if name == "count" and len(A) == 1 and c.op in ("list", "tuple") and False:
            return None
        if name == "is_integer" and C.isint(c):
            return TRUE
        if name == "startswith" and len(A) == 1 and A[0].op == "const" and len(A[0].a[1]) == 1:
            return None
        if name == "append" and not A:
            return None
        return None

    def transposed(self, c):
        if c.op == "call" and c.a[0] is glob("numpy.conj") and len(c.a) == 2:
            return mk("call", c.a[0], mk("meth", "transpose", c.a[1]))
        return mk("meth", "transpose", c)

    def setop(self, op, x, y):
        return self.binop(op, x, y)

    def join_str(self, sep, S):
        if S.op == "seq":
            parts = []
            for j, e in enumerate(S.a):
                if j:
                    parts.append(sep)
                parts.append(self.strv(e))
            return mk("fmt", *parts) if parts else s("")
        return mk("join", sep, raw("list", S) if S.op != "ite" else mk("list", S))

    def str_format(self, f, args, kws, fr, st):
        import string
        parts = []
        auto = 0
        kd = dict(kws)
        try:
            for lit, field, spec, conv in string.Formatter().parse(f):
                if lit:
                    parts.append(s(lit))
                if field is None:
                    continue
                if field == "":
                    x = args[auto]
                    auto += 1
                elif field.isdigit():
                    x = args[int(field)]
                elif field in kd:
                    x = kd[field]
                else:
                    return None
                if isinstance(x, tuple):
                    return None
                x = self.escape(x, fr, st)
                if conv == "r":
                    x = mk("call", glob("repr"), x)
                if spec:
                    if "{" in spec:
                        return None
                    x = self.fspec(x, s(spec))
                parts.append(self.strv(x))
        except (ValueError, IndexError):
            return None
        return mk("fmt", *parts)

    def mutator(self, recv, c, name, args, A, kws, st, fr):
        ty = c.ty
        own = is_ref(recv) or recv in st.heap or recv.op in ("attr", "item", "val", "var")
        if recv.op in ("list", "dict", "set", "call"):
            if name in ("append", "extend", "add", "update", "clear"):
                raise Unsupported("mutation of an unnamed object")
            return None
        if not own:
            return None
        # repo classes may define a method of the same name (e.g. Measurements.add_counts)
        if recv.op == "var" and recv.ty and recv.ty.startswith("cls:"):
            return None

        def esc(x):
            return x
        if name == "append" and len(A) == 1:
            el = self.boxed(args[0], st)
            self.mutate(recv, lambda x: mk("list", cat(self.lseq(x), raw("seq", el)))
                        if el.op != "ite" else mk("list", cat(self.lseq(x), seq(el))), st)
            return NONE
        if name == "extend" and len(A) == 1:
            S = C.it(A[0])
            self.mutate(recv, lambda x: mk("list", cat(self.lseq(x), S)), st)
            return NONE
        if name == "insert" and len(A) == 2 and A[0] is ZERO:
            el = args[1]
            self.mutate(recv, lambda x: mk("list", cat(seq(el), self.lseq(x))), st)
            return NONE
        if name == "add" and len(A) == 1 and (ty == "set" or c.op == "set"):
            self.mutate(recv, lambda x: mk("set", cat(self.sseq(x), seq(A[0]))), st)
            return NONE
        if name == "add" and ty != "set":
            return None
        if name == "update" and len(A) == 1 and not kws:
            if c.op == "set":
                self.mutate(recv, lambda x: mk("set", cat(self.sseq(x), C.it(A[0]))), st)
                return NONE
            if c.op == "dict" or ty == "dict":
                d = A[0]
                S = C.it(mk("items", d)) if d.ty == "dict" or d.op == "dict" else C.it(d)
                self.mutate(recv, lambda x: mk("dict", cat(x.a[0], S))
                            if x.op == "dict" else mk("mut", "update", x, d), st)
                return NONE
        if name == "sort" and not A:
            k, kk = self.escape_args([], kws, fr, st)
            self.mutate(recv, lambda x: self.mkcall("call", (glob("sorted"),),
                                                    [self.escape(x, fr, st)], kk), st)
            return NONE
        if name == "reverse" and not A:
            self.mutate(recv, lambda x: mk("list", C.rev(self.lseq(x))), st)
            return NONE
        if name == "clear":
            self.mutate(recv, lambda x: mk(x.ty or "list", NIL)
                        if (x.ty in ("list", "dict", "set") or x.ty is None) else x, st)
            return NONE
        if name in ("pop", "remove", "discard", "popitem", "setdefault", "insert", "update",
                    "difference_update", "intersection_update", "fill", "popleft",
                    "appendleft"):
            if name == "pop" and ty not in ("list", "dict", "set") and c.op not in ("list", "dict"):
                pass
            vals = [self.escape(a, fr, st) for a in args]
            before = self.escape(c, fr, st)
            if name == "pop" and len(A) in (1, 2) and ty == "dict":
                res = item(before, vals[0]) if len(A) == 1 else ite_c(
                    C.in_(vals[0], before), item(before, vals[0]), vals[1])
                self.mutate(recv, lambda x: mk("delitem", x, vals[0]), st)
                return res
            if name == "pop" and not A and c.op == "list":
                sq = c.a[0]
                if sq.op == "seq" and sq.a:
                    self.mutate(recv, lambda x: lst(*sq.a[:-1]), st)
                    return sq.a[-1]
            if name == "setdefault" and len(vals) == 2 and (c.op == "dict" or ty == "dict"):
                d = self.boxed(args[1], st)
                args = [args[0], d]
                res = ite_c(C.in_(vals[0], before), item(before, vals[0]), d)
                k = vals[0]
                inn = C.in_(k, before)
                self.mutate(recv, lambda x: ite_c(inn, x, mk("dict", cat(
                    x.a[0], seq(tup(k, args[1])))) if x.op == "dict" else
                    mk("setitem", x, k, args[1])), st)
                return res
            self.mutate(recv, lambda x: mk("mut", name, x, *vals), st)
            return mk("mutret", name, before, *vals)
        return None

    def lseq(self, x):
        if x.op == "list":
            return x.a[0]
        return C.it(x)

    def sseq(self, x):
        return x.a[0] if x.op == "set" else C.it(x)

    # external functions ------------------------------------------------------
    def call_ext(self, name, args, kws, fr, st):
        name = ALIASES.get(name, name)
        if name in IGNORED_CALLS:
            return NONE
        if name in SIGS:
            args, kws = self.ext_args(SIGS[name], args, kws)
            if "dtype" in (SIGS[name] or ()):
                k = SIGS[name].index("dtype")
                args = [DTYPES.get(x, x) if j == k else x for j, x in enumerate(args)]
        kws = [(q, DTYPES.get(v, v) if q == "dtype" else v) for q, v in kws]
        if name.startswith("str.") and args and not isinstance(args[0], tuple):
            return self.call_method(args[0], name[4:], args[1:], kws, fr, st)
        h = EXT.get(name)
        star = any(isinstance(a, tuple) for a in args)
        if h is not None and not (star and name not in STAR_OK):
            A = [self.deref(a, st) if isinstance(a, T) else a for a in args]
            r = h(self, args, A, dict(kws), fr, st)
            if r is not None:
                return r
        if name.startswith("numpy.") and not kws and len(args) == 1 and not star and \
                name in ("numpy.array", "numpy.asarray"):
            a0 = self.escape(args[0], fr, st)
            if a0.op in ("list", "tuple", "gen") or name == "numpy.array":
                return mk("call", glob("numpy.array"), a0 if a0.op != "tuple" else
                          mk("list", a0.a[0]))
        v = self.opaque_call("call", (glob(name),), args, kws, fr, st)
        return v


def first_uses(vs, *ts):
    """The variables vs in the order of their first occurrence in the terms."""
    out, seen = [], set()
    for t in ts:
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in vs:
                out.append(x)
            st.extend(y for y in reversed(x.a) if isinstance(y, T))
    return out


def harmless(t):
    """Sums and products of plain values."""
    if t.op == "poly":
        return all(harmless(m) for m in t.a)
    if t.op == "mono":
        return all(x.op == "var" and e > 0 for x, e in zip(t.a[1::2], t.a[2::2]))
    return t.op in ("var", "num", "const", "glob")


STRUCT = {"list", "tuple", "dict", "set", "seq", "cat", "it", "gen", "kw", "ret", "ite", "star",
          "eq", "lt", "is", "truth", "isinstance", "w", "accitem", "folditem"}


def throw_core(t, out):
    """The operations a value is computed with, without the containers around them."""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen or C.isconst(x):
            continue
        seen.add(x)
        if x.op in STRUCT:
            st.extend(y for y in x.a if isinstance(y, T))
        elif x.op in ("fm", "any", "fold", "sum", "first"):
            vs, rest = C.open_binder(x)
            m = {v: var("%%e%d" % j, v.a[1]) for j, v in enumerate(vs)}
            st.extend(subst(y, m) for y in rest)
        else:
            out.add(x)


def pure_path(t):
    while t.op in ("attr", "item", "len") and (len(t.a) == 1 or not isinstance(t.a[1], T)
                                               or C.numy(t.a[1]) or C.isconst(t.a[1])):
        t = t.a[0]
    return t.op in ("var", "glob")


def proper_subterms(t):
    seen = set()
    st = [y for y in t.a if isinstance(y, T)]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st.extend(y for y in x.a if isinstance(y, T))
    return seen


def subvars_since(t, since):
    return [v for v in t.fv if "~" in v and int(v.rsplit("~", 1)[1]) > since]


def subvars(t):
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x in seen or not x.fv:
            continue
        seen.add(x)
        if x.op == "var":
            out.add(x)
        stack.extend(y for y in x.a if isinstance(y, T))
    return out


def _find_clo(t):
    """Closures occurring in a term."""
    if not _has_clo(t):
        return []
    out = {}
    seen = set()

    def go(x):
        if x in seen or not _has_clo(x):
            return
        seen.add(x)
        if x.op == "clo":
            out[x] = 1
        for y in x.a:
            if isinstance(y, T):
                go(y)
    go(t)
    return list(out)


_HC = {}


def _has_clo(t):
    r = _HC.get(t)
    if r is None:
        r = t.op == "clo" or any(isinstance(y, T) and _has_clo(y) for y in t.a)
        _HC[t] = r
    return r


_fl = [0]


def set_like(a, b):
    """Do two sequences have the same elements?"""
    return a is b or mk("set", a) is mk("set", b)


def flag_uid():
    _fl[0] += 1
    return _fl[0]


class _FakeFunc:
    def __init__(self, node):
        from loader import _is_gen
        self.node = node
        self.is_gen = _is_gen(node)


def merge_dc(c, a, b, ca, cb):
    """Merge with don't-cares: a is relevant under ca, b under cb."""
    return merge(c, a, b) if True else None


def _trivial_props(prog):
    """_x -> x when exactly one kind of property returns self._x."""
    m = {}
    for c in prog.classes.values():
        for n, f in c.methods.items():
            if f.kind != "property":
                continue
            body = [x for x in f.node.body if not (isinstance(x, ast.Expr)
                                                   and isinstance(x.value, ast.Constant))]
            if len(body) == 1 and isinstance(body[0], ast.Return) \
                    and isinstance(body[0].value, ast.Attribute) \
                    and isinstance(body[0].value.value, ast.Name) \
                    and body[0].value.value.id == "self":
                m[body[0].value.attr] = n
    return {k: v for k, v in m.items() if k.startswith("_")}


# names of repo methods with observable effects (beyond local objects)
EFFECT_NAMES = {"run_and_measure", "run_batch_and_measure", "_run_and_measure",
                "_run_batch_and_measure", "get_wavefunction",
                "_get_wavefunction_from_native_circuit", "save_raw_data",
                "record_raw_measurement_data", "get_measurement_outcome_distribution",
                "add_counts", "get_exact_expectation_values"}
STAR_OK = {"zip", "print", "max", "min", "itertools.chain", "itertools.product", "set.union"}
EXT: dict = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


from evext import *  # noqa: E402,F401,F403

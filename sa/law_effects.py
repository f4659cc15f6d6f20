"""C20: write-effect and aliasing analysis.

Every function of the program is summarised (ev.Interp); the summary lists each place the
function writes: ``w`` (attribute bound) or ``m`` (object mutated in place), interprocedurally
through inlined helpers.  A write whose place is rooted at a parameter, an object reachable
from one, or a module global must be in MUTATORS, the documented mutating operations; anything
else modifies an argument of a value-returning operation.

Aliasing: a value stored in a constructed object or returned must not be a parameter's own
mutable container unless it already is in the reviewed list of views.
"""
from __future__ import annotations

import ast

import core as C
import loader
from laws import HOLDS, Ob, UNDECIDED, VIOLATED, rule

# operations whose documented purpose is to change the receiver: (function, attribute)
MUTATORS = {
    ("Wavefunction.__setitem__", "_amplitude_vector"),
    ("Measurements.add_counts", "bitstrings"),
    ("BaseCircuitRunner.run_and_measure", "n_circuits_executed"),
    ("BaseCircuitRunner.run_and_measure", "n_jobs_executed"),
    ("BaseWavefunctionSimulator.get_wavefunction", "n_circuits_executed"),
    ("BaseWavefunctionSimulator.get_wavefunction", "n_jobs_executed"),
    ("MeasurementTrackingBackend", "raw_data"),
    ("MeasurementTrackingBackend", "n_circuits_executed"),
    ("MeasurementTrackingBackend", "n_jobs_executed"),
    # memo attributes, written with a value that is a function of the rest of the object
    ("PauliSum.circuits", "_circuits"),
    ("PauliSum.is_ising", "_is_ising"),
    ("PauliTerm.circuit", "_circuit"),
}
RUNNERS = ("Runner", "Simulator", "Backend")
CONSTRUCTORS = ("__init__", "__post_init__", "__new__", "__setstate__")
COUNTERS = {"n_circuits_executed", "n_jobs_executed", "_n_circuits_executed",
            "_n_jobs_executed"}


def root_of(t):
    while True:
        if t.op == "var":
            return t
        if t.op in ("attr", "item", "slice") and isinstance(t.a[0], C.T):
            t = t.a[0]
        elif t.op in ("each", "eachval"):
            return None
        else:
            return None


# -- which objects a term may denote -------------------------------------------------------
def elements(t, guard):
    """Terms denoting the elements of a container built in the function."""
    if t in guard:
        return set()
    guard = guard | {t}
    op = t.op
    if op in ("list", "tuple", "set", "dict", "gen"):
        return elements(t.a[0], guard)
    if op == "seq":
        return set(t.a)
    if op == "it":
        out = set()
        for y in resolve(t.a[0], guard):
            out |= {C.raw("item", y, C.ZERO)} if root_of(y) is not None else elements(y, guard)
        return out
    if op == "fm":
        return elements(t.a[-1], guard)
    if op == "cat":
        return set().union(*[elements(x, guard) for x in t.a]) if t.a else set()
    if op == "ite":
        return elements(t.a[1], guard) | elements(t.a[2], guard)
    if op in ("fold", "while"):
        return set().union(*[elements(x, guard) for x in t.a[2:] if isinstance(x, C.T)])
    if op in ("folditem", "accitem"):
        return elements(t.a[0], guard)
    if op == "setitem":
        return elements(t.a[0], guard) | {t.a[2]}
    if op == "meth" and t.a[0] == "copy":
        return elements(t.a[1], guard)
    if op == "tupleval":
        return set(t.a)
    return set()


def resolve(t, guard=frozenset()):
    """Parameter paths and constructor terms an object-valued term may denote."""
    if t in guard:
        return set()
    g2 = guard | {t}
    if t.op == "item":
        out = set()
        for y in resolve(t.a[0], g2):
            if root_of(y) is not None:
                out.add(C.raw("item", y, t.a[1]))
            elif y.op == "dict":
                for e in elements(y, g2):
                    out |= resolve(second(e), g2)
            else:
                for e in elements(y, g2):
                    out |= resolve(e, g2)
        return out
    if t.op == "val":
        out = set()
        for y in resolve(t.a[0], g2):
            if root_of(y) is not None:
                out.add(C.raw("item", y, t.a[1]))
            else:
                for e in elements(y, g2):
                    out |= resolve(second(e), g2)
        return out
    if t.op == "attr":
        out = set()
        for y in resolve(t.a[0], g2):
            out.add(C.raw("attr", y, t.a[1]))
        return out
    if t.op == "ite":
        return resolve(t.a[1], g2) | resolve(t.a[2], g2)
    if t.op == "bv":
        return set()
    if t.op in ("first",):
        return resolve(t.a[-1], g2)
    return {t}


def second(e):
    """Value of a dictionary entry term."""
    try:
        return C.item(e, C.ONE)
    except C.Unsupported:
        return e


def owner(w):
    """Object a write entry modifies, loops stripped."""
    p = w.a[0]
    while p.op in ("each", "eachval") and isinstance(p.a[-1], C.T) and p.a[-1].op == "lam":
        p = p.a[-1].a[-1]
    if w.op == "w" and p.op == "attr":
        return p.a[0], p.a[1], p
    return p, None, p


def attr_of(t):
    """First attribute below the root."""
    names = []
    while t.op in ("attr", "item", "slice"):
        if t.op == "attr":
            names.append(t.a[1])
        t = t.a[0]
    return names[-1] if names else None


def effs(t):
    """All write entries of an outcome term."""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.a[1], x.a[2]]
        elif x.op == "ret":
            st.append(x.a[1])
        elif x.op == "raise":
            st += [y for y in x.a if isinstance(y, C.T)]
        elif x.op == "eff":
            for w in x.a[1:]:
                out.add(w)
    return out


def values(t):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.a[1], x.a[2]]
        elif x.op == "ret":
            out.add(x.a[0])
    return out


def params(X, f):
    return [p.lstrip("|") for p in X.pnames(f) if not p.startswith("*")]


def summ(X, which, f):
    m = X.__dict__.setdefault("law_summ", {})
    if (which, f) not in m:
        m[which, f] = X.summ(which, f, params(X, f))
    return m[which, f]


def allowed(key, attr, place, f):
    name = key.split("/")[-1]
    last = name.split(".")[-1]
    cls = name.split(".")[0] if "." in name else ""
    r = root_of(place)
    selfname = f.node.args.args[0].arg if f.node.args.args else None
    at_self = r is not None and r.a[0] == selfname and f.cls is not None
    if not at_self:
        return False
    if last in CONSTRUCTORS and attr is not None:
        return True
    if f.kind == "setter" or last in ("__setitem__", "__delitem__", "__setattr__"):
        return True
    if (name, attr) in MUTATORS or (cls, attr) in MUTATORS:
        return True
    if cls.endswith(RUNNERS) and attr in COUNTERS:
        return True
    return False


@rule("C20")
def effects(X, tier):
    for k, f in sorted(X.cur.funcs.items()):
        r, _ = summ(X, "cur", f)
        if isinstance(r, str):
            yield from syntactic(X, k, f, r)
            continue
        bad, und = [], []
        for w in sorted(effs(r), key=lambda w: (w.op, w.a[0].d)):
            place = w.a[0]
            root = root_of(place)
            attr = attr_of(place)
            text = "%s %s" % ("mutates" if w.op == "m" else "writes", C.show(place, 6, 120))
            if root is None or root.a[0][:1] in ("&", "%"):
                if in_ref(X, k, f, w):
                    continue
                o, at, p = owner(w)
                try:
                    rs = resolve(o)
                except (C.Unsupported, RecursionError):
                    rs = {o}
                hit = [x for x in rs if root_of(x) is not None and root_of(x).a[0][:1] not in
                       ("&", "%") and not loop(root_of(x))]
                if rs and len(hit) == len(rs):
                    y = sorted(hit, key=lambda t: t.d)[0]
                    r2 = root_of(y)
                    if not allowed(k, at or attr_of(y), y, f):
                        bad.append((k, "%s %s%s" % (text.split(" ")[0], C.show(y, 6, 100),
                                                    "." + at if at else ""), r2.a[0],
                                    C.raw("attr", y, at) if at else y))
                elif rs and not hit and all(fresh(x) for x in rs):
                    pass
                else:
                    und.append(text)
                continue
            if allowed(k, attr, place, f):
                continue
            if w.op == "w" and attr is not None and attr.startswith("_") and \
                    attr not in X.vocab["attrs"]:
                und.append(text + " (private memo attribute)")
                continue
            bad.append((k, text, root.a[0], place))
        if bad:
            for _, text, p, place in bad:
                yield Ob("%s-modifies-%s" % (k, C.show(place, 6, 60).replace(" ", "")),
                         VIOLATED, X.I["cur"].loc.get(place) and "%s:%d" % X.I["cur"].loc[place]
                         or f.loc,
                         ["%s %s: an operation that is not documented to modify its "
                          "arguments" % (k, text)])
        elif und:
            yield Ob("%s effects" % k, UNDECIDED, f.loc, und)
        else:
            yield Ob("%s effects" % k, HOLDS, f.loc)


def loop(v):
    return v.a[0][:2] in ("v~", "i~")


def fresh(t):
    return t.op in ("list", "dict", "set", "tuple", "setitem", "delitem", "mut", "newof") or \
        t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0].lstrip("~_")[:1].isupper()


def in_ref(X, k, f, w):
    g = X.ref.funcs.get(k)
    if g is None:
        return False
    r, _ = summ(X, "ref", g)
    return not isinstance(r, str) and any(e.op == w.op and e.a[0] is w.a[0] for e in effs(r))


MUTATING = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update",
            "add", "discard", "setdefault", "popitem", "subtract", "__setitem__"}


def syntactic(X, k, f, why):
    """Function outside the evaluated language: parameters must not be mutated by name."""
    ps = set(params(X, f))
    rebound = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)
               and isinstance(x.ctx, ast.Store)}
    ps -= rebound
    bad = []
    for x in ast.walk(f.node):
        if isinstance(x, (ast.Subscript, ast.Attribute)) and \
                isinstance(x.ctx, (ast.Store, ast.Del)):
            b = x.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in ps:
                bad.append((x.lineno, "writes below parameter %s" % b.id))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                x.func.attr in MUTATING:
            b = x.func.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in ps:
                bad.append((x.lineno, "calls .%s on parameter %s" % (x.func.attr, b.id)))
    if bad:
        yield Ob("%s-modifies-its-argument" % k, VIOLATED,
                 "%s:%d" % (f.mod.rel, bad[0][0]), [b for _, b in bad])
    else:
        yield Ob("%s effects (syntactic, %s)" % (k, why[:30]), HOLDS, f.loc)


# -- aliasing -----------------------------------------------------------------------------
SCALAR = {"coefficient", "n_qubits", "name", "params", "num_qubits", "power", "exponent"}


def aliases(X, which, f):
    """(kind, slot, path) of parameter-rooted places returned or stored as they are."""
    r, _ = summ(X, which, f)
    if isinstance(r, str):
        return None
    out = set()
    for v in values(r):
        for leaf in C.leaves_of(v) if v.op == "ite" else [v]:
            if leaf.op in ("attr", "item") and root_of(leaf) is not None:
                out.add(("returns", "", leaf))
    for w in effs(r):
        if w.op != "w":
            continue
        for leaf in C.leaves_of(w.a[1]) if w.a[1].op == "ite" else [w.a[1]]:
            if root_of(leaf) is not None:
                out.add(("stores", C.show(w.a[0], 5, 60), leaf))
    return out


COPIES = {"list", "dict", "tuple", "set"}


def copy_of(t):
    """x when t is a shallow or deep copy of x."""
    if t.op in ("list", "tuple") and t.a[0].op == "it":
        return t.a[0].a[0]
    if t.op == "dict" and t.a[0].op == "it":
        y = t.a[0].a[0]
        return y.a[1] if y.op == "meth" and y.a[0] == "items" else y
    if t.op == "call" and t.a[0].op == "glob" and len(t.a) >= 2 and t.a[0].a[0] in (
            "copy.deepcopy", "copy.copy", "numpy.array", "numpy.copy", "list", "dict", "set"):
        return t.a[1]
    if t.op == "meth" and t.a[0] in ("copy", "__copy__", "tolist", "astype"):
        return t.a[1]
    return None


@rule("C20")
def copies(X, tier):
    """A copy the reviewed code makes of a caller-visible container is still made."""
    for k, f in sorted(X.cur.funcs.items()):
        g = X.ref.funcs.get(k)
        if g is None:
            continue
        a, b = aliases(X, "ref", g), aliases(X, "cur", f)
        if a is None or b is None:
            continue
        new = [x for x in b - a if attr_name(x[2]) not in SCALAR]
        rt = {x: None for x in ref_copies(X, g)}
        bad = [x for x in new if (x[0], x[1], x[2]) in rt]
        for kind, slot, leaf in bad:
            yield Ob("%s-shares-%s" % (k, C.show(leaf, 5, 60).replace(" ", "")), VIOLATED, f.loc,
                     ["%s %s %s itself, where a copy is required: later in-place changes of the "
                      "result change the argument" % (k, kind + (" in " + slot if slot else ""),
                                                      C.show(leaf, 5, 80))])
        if not bad:
            yield Ob("%s copies" % k, HOLDS, f.loc)


def attr_name(t):
    return t.a[1] if t.op == "attr" else None


def ref_copies(X, g):
    r, _ = summ(X, "ref", g)
    out = set()
    for v in values(r):
        for leaf in C.leaves_of(v) if v.op == "ite" else [v]:
            c = copy_of(leaf)
            if c is not None:
                out.add(("returns", "", c))
    for w in effs(r):
        if w.op == "w":
            for leaf in C.leaves_of(w.a[1]) if w.a[1].op == "ite" else [w.a[1]]:
                c = copy_of(leaf)
                if c is not None:
                    out.add(("stores", C.show(w.a[0], 5, 60), c))
    return out


@rule("C20")
def one_shot(X, tier):
    """No one-shot iterator is stored in an object or a module constant."""
    n = 0
    for k, f in sorted(X.cur.funcs.items()):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute):
                        n += 1
                        v = x.value
                        if isinstance(v, ast.GeneratorExp) or isinstance(v, ast.Call) and \
                                isinstance(v.func, ast.Name) and v.func.id in (
                                    "map", "filter", "zip", "iter", "reversed", "enumerate"):
                            yield Ob("%s-stores-an-iterator-in-%s" % (k, t.attr), VIOLATED,
                                     "%s:%d" % (f.mod.rel, x.lineno),
                                     ["attribute %s holds an iterator that the first reader "
                                      "exhausts" % t.attr])
    yield Ob("%d attribute stores hold re-iterable values" % n, HOLDS)


def hands_out(X, k):
    """Is a result of k given to code outside the package, directly or by a caller's return?"""
    name = k.split(".")[-1]
    if not name.startswith("_") or name.startswith("__"):
        return True
    for g in X.cur.funcs.values():
        held = set()
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign) and calls_name(n.value, name):
                held |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(g.node):
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and (
                    calls_name(n.value, name) or isinstance(n.value, ast.Name)
                    and n.value.id in held):
                return True
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, (ast.Subscript, ast.Attribute)) and (
                            isinstance(t.value, ast.Name) and t.value.id in held
                            or calls_name(t.value, name) or calls_name(n.value, name)):
                        return True
    return False


def calls_name(n, name):
    return isinstance(n, ast.Call) and (
        isinstance(n.func, ast.Name) and n.func.id == name or
        isinstance(n.func, ast.Attribute) and n.func.attr == name)


@rule("C20")
def memo(X, tier):
    """No memoisation decorator on a function whose result is a mutable object."""
    for k, f in sorted(X.cur.funcs.items()):
        if any("cache" in d for d in f.decos):
            if X.mutable_result(f) or k not in X.ref.funcs or not any(
                    "cache" in d for d in X.ref.funcs[k].decos):
                st = VIOLATED if X.mutable_result(f) and hands_out(X, k) else UNDECIDED
                yield Ob("%s-memoised" % k, st, f.loc, ["results of %s are shared by all "
                                                        "callers" % k])
            else:
                yield Ob("%s memo" % k, HOLDS, f.loc)

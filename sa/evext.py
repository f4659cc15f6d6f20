"""Models of builtins and external library functions for the evaluator."""
from __future__ import annotations

import core as C
from core import (FALSE, IMAG, NIL, NONE, ONE, TRUE, UNDEF, ZERO, T, add, and_, cat,
                  const, div, eq, fresh, glob, ite_c, item, length, lst, map_leaves, mk,
                  mul, neg, not_, num, or_, power, raw, s, seq, sub, subst, to_cond, tup,
                  var)
import ev as E
from ev import EXT, FALL, R, ext


# ---------------------------------------------------------------------------
# helpers
# ---------------------------------------------------------------------------
def flatmap(I, S, fr, st, fn):
    """Sequence obtained by applying fn(state, elem) -> sequence to every element."""
    base = st.copy()
    work = st.copy()

    def f(e):
        r = fn(work, e)
        return I.deref_inner(r, base, work, fr)
    res = C.bindseq(S, f)
    if work.pend is FALL and work.trace is base.trace and I.same_world(base, work):
        return res
    key = ("map", fresh().a[0])
    s0 = st.copy()
    s0.env[key] = NIL

    def body(s2, e):
        r = fn(s2, e)
        r = I.deref_inner(r, base, s2, fr)
        s2.env[key] = cat(s2.env[key], r)
        return I.wrap_pend(s2, R(FALL, {FALL: s2}))
    r = I.over(S, s0, body, fr)
    fall = r.st.get(FALL)
    if r.tree is not FALL:
        I.add_pend(st, R(r.tree, {k: v for k, v in r.st.items() if k is not FALL}))
    if fall is not None:
        st.assign(fall)
        return st.env.pop(key, NIL)
    return NIL


def pure(I, f, args, fr, st):
    """Value of f(*args) for use below a binder (effects ignored, exceptions kept)."""
    s2 = st.copy()
    v = I.call(f, list(args), [], fr, s2)
    v = I.escape(v, fr, s2)
    return v


def callf(I, f, args, fr, s2):
    return I.deref(I.call(f, list(args), [], fr, s2), s2)


def consume(x):
    return x


# ---------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------
@ext("len")
def x_len(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw:
        m = A[0]
        if m.op == "var" and m.ty and m.ty.startswith("cls:"):
            f = I.find_method(m, "__len__", fr)
            if f is not None and not I.opaque(f.key):
                return I.call_func(f, [m], [], fr, st)
        return length(m)


@ext("range")
def x_range(I, a, A, kw, fr, st):
    if kw or not 1 <= len(A) <= 3:
        return None
    if len(A) == 1:
        return mk("list", C.fm(A[0], lambda i: seq(i)))
    lo, hi = A[0], A[1]
    if len(A) == 2:
        return mk("list", C.fm(sub(hi, lo), lambda i: seq(add(lo, i))))
    step = A[2]
    if C.isint(step) and step.a[0] != 0:
        k = int(step.a[0])
        if k > 0:
            n = sub(hi, lo)
        else:
            n = sub(lo, hi)
        if abs(k) != 1:
            n = mk("floordiv", add(n, num(abs(k) - 1)), num(abs(k)))
        return mk("list", C.fm(n, lambda i: seq(add(lo, mul(num(k), i)))))
    n = neg(mk("floordiv", sub(lo, hi), step))
    return mk("list", C.fm(n, lambda i: seq(add(lo, mul(step, i)))))


@ext("enumerate")
def x_enumerate(I, a, A, kw, fr, st):
    if kw or not 1 <= len(A) <= 2:
        return None
    start = A[1] if len(A) == 2 else ZERO
    S = C.it(I.iterable(A[0], fr, st))
    r = index_seq(S, start)
    return mk("gen", r)


def index_seq(S, start):
    op = S.op
    if op == "seq":
        return seq(*[tup(add(start, num(j)), e) for j, e in enumerate(S.a)])
    if op == "ite":
        return ite_c(C._atom(S.a[0]), index_seq(S.a[1], start), index_seq(S.a[2], start))
    if op == "fm":
        vs, (n, b) = C.open_binder(S)
        if b.op == "seq" and len(b.a) == 1:
            return C.CONS["fm"](vs, n, seq(tup(add(start, vs[0]), b.a[0])))
    if op == "it":
        x = S.a[0]
        return C.fm(length(x), lambda i: seq(tup(add(start, i), item(x, i))))
    if op == "cat" and S.a[0].op == "seq":
        k = len(S.a[0].a)
        return cat(index_seq(S.a[0], start), index_seq(cat(*S.a[1:]), add(start, num(k))))
    n = C.slen(S)
    return C.fm(n, lambda i: seq(tup(add(start, i), C.sitem(S, i))))


def elem_at(S, i):
    return C.sitem(S, i)


@ext("zip")
def x_zip(I, a, A, kw, fr, st):
    if any(isinstance(x, tuple) for x in A):
        if len(A) == 1:
            return mk("gen", raw("unzip", A[0][1] if not isinstance(A[0][1], T) or True else 0))
        return None
    if not A:
        return mk("gen", NIL)
    return mk("gen", zip_seqs([C.it(I.iterable(x, fr, st)) for x in A]))


def zip_seqs(Ss):
    for j, S in enumerate(Ss):
        if S.op == "ite" and C._leaves(S, 20) <= 8:
            f = lambda y: zip_seqs(Ss[:j] + [y] + Ss[j + 1:])
            return ite_c(C._atom(S.a[0]), f(S.a[1]), f(S.a[2]))
    if len(Ss) == 1:
        return C.bindseq(Ss[0], lambda e: seq(tup(e)))
    if all(S.op == "seq" for S in Ss):
        n = min(len(S.a) for S in Ss)
        return seq(*[tup(*[S.a[j] for S in Ss]) for j in range(n)])
    ns = []
    for S in Ss:
        n = C.slen(S)
        if S.op == "count":
            continue
        if n not in ns:
            ns.append(n)
    n = minv(ns)
    return C.fm(n, lambda i: seq(tup(*[elem_at(S, i) for S in Ss])))


def minv(ns):
    if len(ns) == 1:
        return ns[0]
    if all(C.isnum(x) for x in ns):
        return min(ns, key=lambda x: x.a[0])
    return C.CONS["minof"](*ns)


@ext("map")
def x_map(I, a, A, kw, fr, st):
    if kw or len(A) < 2:
        return None
    f = a[0]
    if len(A) == 2:
        S = C.it(A[1])
        r = flatmap(I, S, fr, st, lambda s2, e: seq(I.call(f, [e], [], fr, s2)))
        return mk("gen", r)
    S = zip_seqs([C.it(x) for x in A[1:]])
    n = len(A) - 1
    r = flatmap(I, S, fr, st, lambda s2, e: seq(I.call(
        f, [item(e, num(j)) for j in range(n)], [], fr, s2)))
    return mk("gen", r)


@ext("itertools.starmap")
def x_starmap(I, a, A, kw, fr, st):
    if len(A) != 2:
        return None
    S = C.it(A[1])

    def call(s2, e):
        if e.op in ("tuple", "list") and e.a[0].op == "seq":
            return seq(I.call(a[0], list(e.a[0].a), [], fr, s2))
        return seq(I.call(a[0], [("star", C.it(e))], [], fr, s2))
    return mk("gen", flatmap(I, S, fr, st, call))


@ext("filter")
def x_filter(I, a, A, kw, fr, st):
    if len(A) != 2:
        return None
    S = C.it(A[1])

    def f(s2, e):
        c = to_cond(e) if a[0] is NONE else to_cond(callf(I, a[0], [e], fr, s2))
        return ite_c(c, seq(e), NIL)
    return mk("gen", flatmap(I, S, fr, st, f))


@ext("itertools.filterfalse")
def x_filterfalse(I, a, A, kw, fr, st):
    if len(A) != 2:
        return None
    return mk("gen", flatmap(I, C.it(A[1]), fr, st, lambda s2, e: ite_c(
        to_cond(callf(I, a[0], [e], fr, s2)), NIL, seq(e))))


@ext("reversed")
def x_reversed(I, a, A, kw, fr, st):
    if len(A) == 1:
        return mk("gen", C.it(mk("reversed", A[0])))


@ext("iter")
def x_iter(I, a, A, kw, fr, st):
    if len(A) == 1:
        return mk("gen", C.it(A[0]))


@ext("next")
def x_next(I, a, A, kw, fr, st):
    if len(A) == 1 or len(A) == 2:
        g = A[0]
        if g.op != "gen":
            return None
        S = g.a[0]
        v = first_of(S, A[1] if len(A) == 2 else raw("stop"))
        if v is None:
            return None
        if E.is_ref(a[0]) or a[0] in st.heap:
            return None
        return v


def first_of(S, default):
    """First element of S or default."""
    if S.op == "seq":
        return S.a[0] if S.a else default
    if S.op == "ite":
        x, y = first_of(S.a[1], default), first_of(S.a[2], default)
        if x is None or y is None:
            return None
        return ite_c(C._atom(S.a[0]), x, y)
    if S.op == "cat":
        d = first_of(cat(*S.a[1:]), default)
        return None if d is None else first_of(S.a[0], d)
    if S.op == "it":
        if default.op == "stop":
            return item(S.a[0], ZERO)
        return ite_c(to_cond(S.a[0]), item(S.a[0], ZERO), default)
    if S.op == "fm":
        vs, (n, b) = C.open_binder(S)
        # body: element or nothing
        def cond(x):
            if x is NIL:
                return FALSE
            if x.op == "seq":
                return TRUE
            return None
        bad = [x for x in C.leaves_of(b) if x is not NIL and x.op != "seq"]
        if bad:
            return None
        c = map_leaves(b, lambda x: FALSE if x is NIL else TRUE)
        v = map_leaves(b, lambda x: x.a[0] if x is not NIL else UNDEF)
        if c is TRUE:
            if default.op == "stop":
                return subst(v, {vs[0]: ZERO})
            return ite_c(C.lt(ZERO, n), subst(v, {vs[0]: ZERO}), default)
        # value under the condition
        vals = [x for x in C.leaves_of(v) if x is not UNDEF]
        v2 = vals[0] if len(vals) == 1 else v
        return ite_c(C.anyv(vs[0], n, c), C.CONS["first"]([vs[0]], n, c, v2), default)
    return None


@ext("list")
def x_list(I, a, A, kw, fr, st):
    if not A and not kw:
        return mk("list", NIL)
    if len(A) == 1:
        return mk("list", C.it(A[0]))


@ext("tuple")
def x_tuple(I, a, A, kw, fr, st):
    if not A:
        return mk("tuple", NIL)
    if len(A) == 1:
        return mk("tuple", C.it(A[0]))


@ext("set", "frozenset")
def x_set(I, a, A, kw, fr, st):
    if not A:
        return mk("set", NIL)
    if len(A) == 1:
        return mk("set", C.it(A[0]))


@ext("dict")
def x_dict(I, a, A, kw, fr, st):
    parts = []
    if len(A) > 1:
        return None
    if A:
        x = A[0]
        if x.ty == "dict" or x.op == "dict":
            if x.op == "dict":
                parts.append(x.a[0])
            else:
                parts.append(C.it(mk("items", x)))
        elif x.op in ("list", "tuple", "gen", "items"):
            parts.append(C.it(x))
        else:
            return None if kw else mk("call", glob("dict"), I.escape(x, fr, st))
    if "**" in kw:
        return None
    parts.append(seq(*[tup(s(k), v) for k, v in kw.items()]))
    return mk("dict", cat(*parts))


@ext("dict.items")
def x_dict_items(I, a, A, kw, fr, st):
    if len(A) == 1:
        return mk("items", A[0])


@ext("dict.keys")
def x_dict_keys(I, a, A, kw, fr, st):
    if len(A) == 1:
        return mk("keys", A[0])


@ext("dict.fromkeys")
def x_dict_fromkeys(I, a, A, kw, fr, st):
    if 1 <= len(A) <= 2:
        v = A[1] if len(A) == 2 else NONE
        return mk("dict", C.bindseq(C.it(A[0]), lambda e: seq(tup(e, v))))


@ext("dataclasses.replace")
def x_dc_replace(I, a, A, kw, fr, st):
    if len(A) != 1:
        return None
    o = A[0]
    c = None
    if o.op == "var" and o.ty and o.ty.startswith("cls:"):
        c = I.prog.classes.get(o.ty[4:])
    elif o.op == "call" and o.a[0].op == "glob" and o.a[0].a[0].startswith("~"):
        c = I.prog.classes.get(o.a[0].a[0][1:])
    if c is None or not c.is_dataclass:
        return None
    kw = dict(kw)
    vals = [kw.pop(fn) if fn in kw else I.getattr_(o, fn, fr, st)
            for fn, _, _ in c.all_fields()]
    if kw:
        return None
    return I.construct(c, vals, [], fr, st)


@ext("sum")
def x_sum(I, a, A, kw, fr, st):
    if not 1 <= len(A) <= 2:
        return None
    start = A[1] if len(A) == 2 else ZERO
    S = C.it(A[0])
    if start.op in ("list", "tuple"):
        return mk(start.op, cat(start.a[0], C.bindseq(S, lambda e: C.it(e))))
    return fold_add(I, S, start)


def numeric_leaves(S):
    """True if every element of S is numeric."""
    if S.op == "seq":
        return all(all(C.numy(l) or l in (TRUE, FALSE) for l in C.leaves_of(e)) for e in S.a)
    if S.op == "cat":
        return all(numeric_leaves(x) for x in S.a)
    if S.op == "ite":
        return numeric_leaves(S.a[1]) and numeric_leaves(S.a[2])
    if S.op == "fm":
        vs, (n, b) = C.open_binder(S)
        return numeric_leaves(b)
    return False


def fold_add(I, S, start):
    if numeric_leaves(S) and C.numy(start):
        return add(start, C.sumseq(S))
    # unknown element type
    return add(start, C.sumseq(S)) if C.numy(start) or C.isnum(start) else raw("fsum", start, raw("list", S)) \
        if S.op != "ite" else mk("fsum", start, mk("list", S))


@ext("any")
def x_any(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw and A[0].ty != "arr":
        return C.anyseq(C.it(A[0]))


@ext("all")
def x_all(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw and A[0].ty != "arr":
        return C.allseq(C.it(A[0]))


@ext("abs")
def x_abs(I, a, A, kw, fr, st):
    if len(A) == 1:
        return mk("abs", A[0])


@ext("numpy.abs")
def x_npabs(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw:
        return mk("abs", I.escape(A[0], fr, st))


@ext("isinstance")
def x_isinstance(I, a, A, kw, fr, st):
    if len(A) == 2:
        return C.isinstance_(I.escape(A[0], fr, st), A[1])


@ext("issubclass")
def x_issubclass(I, a, A, kw, fr, st):
    return None


@ext("type")
def x_type(I, a, A, kw, fr, st):
    if len(A) == 1:
        return I.typeof(A[0])


@ext("bool")
def x_bool(I, a, A, kw, fr, st):
    if len(A) == 1:
        return to_cond(A[0])


@ext("getattr")
def x_getattr(I, a, A, kw, fr, st):
    if len(A) == 2 and A[1].op == "const":
        return I.getattr_(a[0], A[1].a[1], fr, st)
    if len(A) == 3 and A[1].op == "const":
        o = I.escape(a[0], fr, st)
        c = C._atom(raw("truth", raw("hasattr", o, A[1])))
        return ite_c(c, I.getattr_(a[0], A[1].a[1], fr, st), A[2])


@ext("hasattr")
def x_hasattr(I, a, A, kw, fr, st):
    if len(A) == 2 and A[1].op == "const":
        return C._atom(raw("truth", raw("hasattr", I.escape(a[0], fr, st), A[1])))


@ext("setattr", "object.__setattr__")
def x_setattr(I, a, A, kw, fr, st):
    if len(A) == 3 and A[1].op == "const":
        I.setattr_(a[0], A[1].a[1], a[2], st, fr)
        return NONE


@ext("object.__new__")
def x_new(I, a, A, kw, fr, st):
    if len(A) == 1:
        return mk("call", glob("object.__new__"), A[0])


@ext("str")
def x_str(I, a, A, kw, fr, st):
    if not A:
        return s("")
    if len(A) == 1 and not kw:
        return I.strv(I.escape(A[0], fr, st))


@ext("format")
def x_format(I, a, A, kw, fr, st):
    if len(A) == 1:
        return I.strv(A[0])
    if len(A) == 2:
        return I.strv(I.fspec(A[0], A[1]))


@ext("int")
def x_int(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw:
        x = A[0]
        if x.op == "ite":
            return None
        if x.ty == "int":
            return x
        if x.op == "num":
            return num(int(x.a[0]))
        if x in (TRUE, FALSE):
            return C.b2i(x)
        if C._is_bool_tree(x):
            return map_leaves(x, C.b2i)
        return floor_log2(x)


def floor_log2(x):
    """The logarithm of a size, rounded down."""
    if x.op == "call" and x.a[0] is glob("numpy.log2") and len(x.a) == 2:
        n = x.a[1]
        if n.ty == "int" or n.op == "item" and n.a[0].op == "attr" and n.a[0].a[1] == "shape":
            return sub(mk("meth", "bit_length", n), ONE)


@ext("numpy.floor")
def x_floor(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw:
        if A[0].ty == "int":
            return A[0]
        return floor_log2(A[0])


@ext("float")
def x_float(I, a, A, kw, fr, st):
    if len(A) == 1:
        x = A[0]
        if x.op == "num":
            return x
        if x.op == "const" and x.a[0] == "str":
            try:
                return num(float(x.a[1]))
            except ValueError:
                return None


@ext("complex")
def x_complex(I, a, A, kw, fr, st):
    if len(A) == 2:
        return add(A[0], mul(A[1], IMAG))
    if len(A) == 1 and A[0].op == "num":
        return A[0]


@ext("round")
def x_round(I, a, A, kw, fr, st):
    if len(A) == 1 and A[0].ty == "int":
        return A[0]


@ext("divmod")
def x_divmod(I, a, A, kw, fr, st):
    if len(A) == 2:
        return tup(mk("floordiv", *A), mk("mod", *A))


@ext("pow", "operator.pow")
def x_pow(I, a, A, kw, fr, st):
    if len(A) == 2:
        return I.binop("**", A[0], A[1])


def extremum(which):
    def f(I, a, A, kw, fr, st):
        kw = dict(kw)
        keyf = kw.pop("key", None)
        default = kw.pop("default", None)
        if kw or any(isinstance(x, tuple) for x in A):
            if len(A) == 1 and isinstance(A[0], tuple) and not kw:
                S = A[0][1]
            else:
                return None
        elif len(A) == 1:
            S = C.it(A[0])
        elif len(A) >= 2:
            if keyf is None and all(C.isnum(x) for x in A):
                return (max if which == "max" else min)(A, key=lambda x: x.a[0])
            S = seq(*A)
        else:
            return None
        if S.op == "ite":
            r = C.lift("ext", (S,), lambda q: _ext_term(which, I, q, keyf, default, fr, st))
            if r is not None:
                return r
        return _ext_term(which, I, S, keyf, default, fr, st)
    return f


def _ext_term(which, I, S, keyf, default, fr, st):
    if keyf is None:
        if S.op == "seq" and len(S.a) == 1:
            return S.a[0]
        if S.op == "seq" and S.a:
            return mk(which + "of", *S.a)
        # order and nesting of elements do not matter for the extremum
        t = mk(which + "seq", raw("list", S))
        if default is not None:
            return ite_c(to_cond(raw("list", S)), t, default)
        return t
    i = fresh(None, "k")
    kb = pure(I, keyf, [i], fr, st)
    t = raw(which + "by", raw("list", S), C.CONS["lam"]([i], kb))
    if default is not None:
        return ite_c(to_cond(raw("list", S)), t, default)
    return t


EXT["max"] = extremum("max")
EXT["min"] = extremum("min")


@ext("sorted")
def x_sorted(I, a, A, kw, fr, st):
    kw = dict(kw)
    keyf = kw.pop("key", None)
    rv = kw.pop("reverse", None)
    if kw or len(A) != 1:
        return None
    x = I.escape(A[0], fr, st)
    base = x
    if x.op in ("list", "tuple", "gen", "set") or x.ty == "dict":
        if x.op == "set" and x.a[0].op == "it":
            base = x
        elif x.op == "set":
            base = x
        else:
            base = mk("list", C.it(x))
            if base.op == "list" and base.a[0].op == "it":
                base = base.a[0].a[0]
    ka = []
    if keyf is not None and keyf is not NONE:
        i = fresh(None, "k")
        kb = pure(I, keyf, [i], fr, st)
        if rv is TRUE and C.numy(kb) and kb.ty in ("int", "float"):
            kb, rv = sub(num(0), kb), None      # (sorting is stable both ways)
        if kb is not i:
            ka.append(raw("kw", "key", C.CONS["lam"]([i], kb)))
    if rv is not None and rv is not FALSE:
        ka.append(raw("kw", "reverse", I.escape(rv, fr, st)))
    return mk("call", glob("sorted"), base, *ka)


@ext("callable")
def x_callable(I, a, A, kw, fr, st):
    return None


@ext("chr")
def x_chr(I, a, A, kw, fr, st):
    return None


@ext("ord")
def x_ord(I, a, A, kw, fr, st):
    if len(A) == 1 and A[0].op == "const" and A[0].a[0] == "str" and len(A[0].a[1]) == 1:
        return num(ord(A[0].a[1]))


@ext("bin")
def x_bin(I, a, A, kw, fr, st):
    return None


@ext("vars")
def x_vars(I, a, A, kw, fr, st):
    return None


# ---------------------------------------------------------------------------
# functools / itertools / operator / copy / typing
# ---------------------------------------------------------------------------
@ext("functools.partial")
def x_partial(I, a, A, kw, fr, st):
    if any(isinstance(x, tuple) for x in a):
        return None
    c = E.Closure(None, fr, partial=(a[0], list(a[1:]), list(kw.items())))
    return c.term


@ext("functools.reduce")
def x_reduce(I, a, A, kw, fr, st):
    if kw or len(A) not in (2, 3):
        return None
    f = a[0]
    S = C.it(A[1])
    if S.op == "ite":
        return ite_c(C._atom(S.a[0]), x_reduce(I, [f, None] + a[2:], [A[0], mk("list", S.a[1])] + A[2:], kw, fr, st),
                     x_reduce(I, [f, None] + a[2:], [A[0], mk("list", S.a[2])] + A[2:], kw, fr, st))
    if len(A) == 3:
        init = a[2]
        rest = S
    elif S.op == "seq" and S.a:
        init = S.a[0]
        rest = seq(*S.a[1:])
    else:
        # reduce without initial value: f folded over the tail
        init = C.sitem(S, ZERO)
        if S.op == "cat" and S.a[0].op == "seq":
            rest = cat(seq(*S.a[0].a[1:]), *S.a[1:])
        else:
            rest = C.fm(sub(C.slen(S), ONE), lambda j: seq(C.sitem(S, add(j, ONE))))
    key = ("red", fresh().a[0])
    s0 = st.copy()
    s0.env[key] = I.boxed(init, s0)

    def body(s2, e):
        v = I.call(f, [s2.env[key], e], [], fr, s2)
        s2.env[key] = I.boxed(v, s2)
        return I.wrap_pend(s2, R(FALL, {FALL: s2}))
    r = I.over(rest, s0, body, fr)
    fall = r.st.get(FALL)
    if r.tree is not FALL:
        I.add_pend(st, R(r.tree, {k: v for k, v in r.st.items() if k is not FALL}))
    if fall is None:
        return UNDEF
    st.assign(fall)
    return st.env.pop(key)


@ext("itertools.chain")
def x_chain(I, a, A, kw, fr, st):
    parts = []
    for x in A:
        if isinstance(x, tuple):
            parts.append(C.bindseq(x[1], lambda e: C.it(e)))
        else:
            parts.append(C.it(x))
    return mk("gen", cat(*parts))


@ext("itertools.chain.from_iterable")
def x_chainfi(I, a, A, kw, fr, st):
    if len(A) == 1:
        return mk("gen", C.bindseq(C.it(A[0]), lambda e: C.it(e)))


@ext("itertools.product")
def x_product(I, a, A, kw, fr, st):
    if any(isinstance(x, tuple) for x in A):
        return None
    kw = dict(kw)
    rep = kw.pop("repeat", ONE)
    if kw:
        return None
    if not C.isint(rep):
        return mk("gen", raw("prodseq", *[I.escape(x, fr, st) for x in A], rep))
    Ss = [C.it(x) for x in A] * int(rep.a[0])
    if len(Ss) > 5:
        return None

    def go(j, acc):
        if j == len(Ss):
            return seq(tup(*acc))
        return C.bindseq(Ss[j], lambda e: go(j + 1, acc + [e]))
    return mk("gen", go(0, []))


@ext("itertools.repeat")
def x_repeat(I, a, A, kw, fr, st):
    n = kw.get("times", A[1] if len(A) > 1 else None)
    if n is None:
        return None
    x = a[0]
    return mk("gen", C.fm(I.deref(n, st), lambda i: seq(x)))


@ext("itertools.islice")
def x_islice(I, a, A, kw, fr, st):
    if kw:
        return None
    x = A[0]
    lo, hi, step = NONE, NONE, NONE
    if len(A) == 2:
        hi = A[1]
    elif len(A) >= 3:
        lo, hi = A[1], A[2]
        if len(A) == 4:
            step = A[3]
    if x.op in ("list", "tuple") or x.ty in ("list", "tuple", "str"):
        r = I.slice_of(x if x.ty in ("list", "tuple", "str") else mk("list", C.it(x)), lo, hi, step)
        return mk("gen", C.it(r))
    return None


@ext("itertools.zip_longest")
def x_zl(I, a, A, kw, fr, st):
    return None


@ext("itertools.accumulate")
def x_acc(I, a, A, kw, fr, st):
    return None


@ext("itertools.combinations")
def x_comb(I, a, A, kw, fr, st):
    return None


def _op(sym):
    def f(I, a, A, kw, fr, st):
        if len(A) == 2 and not kw:
            return I.binop(sym, A[0], A[1])
    return f


for _n, _s in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"),
               ("matmul", "@"), ("floordiv", "//"), ("mod", "%"), ("and_", "&"),
               ("or_", "|"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>")):
    EXT["operator." + _n] = _op(_s)


@ext("operator.neg")
def x_neg(I, a, A, kw, fr, st):
    return neg(A[0])


@ext("operator.not_")
def x_not(I, a, A, kw, fr, st):
    return not_(A[0])


@ext("operator.eq")
def x_eq(I, a, A, kw, fr, st):
    return eq(A[0], A[1])


@ext("operator.ne")
def x_ne(I, a, A, kw, fr, st):
    return not_(eq(A[0], A[1]))


@ext("operator.lt")
def x_lt(I, a, A, kw, fr, st):
    return C.lt(A[0], A[1])


@ext("operator.gt")
def x_gt(I, a, A, kw, fr, st):
    return C.lt(A[1], A[0])


@ext("operator.contains")
def x_contains(I, a, A, kw, fr, st):
    return C.in_(A[1], A[0])


@ext("operator.getitem")
def x_getitem(I, a, A, kw, fr, st):
    return item(A[0], A[1])


@ext("operator.itemgetter")
def x_itemgetter(I, a, A, kw, fr, st):
    if A:
        ks = list(A)

        def fn(I2, s2, vs):
            r = [item(vs[0], k) for k in ks]
            return r[0] if len(r) == 1 else tup(*r)
        return E.Closure(None, fr, fn=fn).term


@ext("operator.attrgetter")
def x_attrgetter(I, a, A, kw, fr, st):
    if len(A) == 1 and A[0].op == "const":
        nm = A[0].a[1]

        def fn(I2, s2, vs):
            x = vs[0]
            for p in nm.split("."):
                x = I2.getattr_(x, p, fr, s2)
            return x
        return E.Closure(None, fr, fn=fn).term


@ext("operator.methodcaller")
def x_methodcaller(I, a, A, kw, fr, st):
    if A and A[0].op == "const":
        nm = A[0].a[1]
        rest = list(a[1:])
        kk = list(kw.items())

        def fn(I2, s2, vs):
            return I2.call_method(vs[0], nm, rest, kk, fr, s2)
        return E.Closure(None, fr, fn=fn).term


@ext("copy.copy")
def x_copy(I, a, A, kw, fr, st):
    if len(A) != 1:
        return None
    x = A[0]
    if x.op in ("list", "dict", "set", "tuple"):
        return x
    if x.ty == "list":
        return mk("list", C.it(x))
    if x.ty == "dict":
        return mk("dict", C.it(mk("items", x)))
    return mk("copy", I.escape(x, fr, st))


@ext("copy.deepcopy")
def x_deepcopy(I, a, A, kw, fr, st):
    if len(A) == 1:
        return mk("deepcopy", I.escape(A[0], fr, st))


@ext("typing.cast")
def x_cast(I, a, A, kw, fr, st):
    if len(a) == 2:
        return a[1]


@ext("collections.deque")
def x_deque(I, a, A, kw, fr, st):
    return None


@ext("collections.defaultdict")
def x_defaultdict(I, a, A, kw, fr, st):
    return None


@ext("re.match", "re.search", "re.split", "re.sub")
def x_re(I, a, A, kw, fr, st):
    return None


# ---------------------------------------------------------------------------
# numpy and friends
# ---------------------------------------------------------------------------
@ext("numpy.conj")
def x_conj(I, a, A, kw, fr, st):
    if len(A) == 1 and C.isnum(A[0]):
        return A[0]


@ext("numpy.sqrt", "sympy.sqrt")
def x_sqrt(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw:
        return power(A[0], num(0.5)) if C.isnum(A[0]) else mk(
            "call", glob("sqrt"), I.escape(A[0], fr, st))


@ext("operator.matmul")
def x_matmul(I, a, A, kw, fr, st):
    if len(A) == 2:
        return I.binop("@", A[0], A[1])


@ext("numpy.kron")
def x_kron(I, a, A, kw, fr, st):
    return None


@ext("numpy.transpose")
def x_transpose(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw:
        return I.transposed(I.escape(A[0], fr, st))


@ext("numpy.reshape")
def x_reshape(I, a, A, kw, fr, st):
    if len(A) == 2 and not kw:
        if A[1].op == "tuple" and A[1].a[0].op == "seq":
            return mk("meth", "reshape", I.escape(A[0], fr, st), *A[1].a[0].a)
        return mk("meth", "reshape", I.escape(A[0], fr, st), A[1])


@ext("numpy.asarray", "numpy.array")
def x_asarray(I, a, A, kw, fr, st):
    return None


@ext("numpy.real")
def x_real(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw:
        return raw("attr", I.escape(A[0], fr, st), "real")


@ext("numpy.imag")
def x_imag(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw:
        return raw("attr", I.escape(A[0], fr, st), "imag")


@ext("numpy.square")
def x_square(I, a, A, kw, fr, st):
    if len(A) == 1 and not kw:
        return I.binop("**", A[0], num(2))


@ext("numpy.take")
def x_take(I, a, A, kw, fr, st):
    if len(A) == 2 and not kw:
        return mk("item", I.escape(A[0], fr, st), I.escape(A[1], fr, st))


@ext("numpy.flip")
def x_flip(I, a, A, kw, fr, st):
    return None


@ext("numpy.diag", "numpy.ravel")
def x_diag(I, a, A, kw, fr, st):
    return None


# ---------------------------------------------------------------------------
# files and JSON
# ---------------------------------------------------------------------------
JSON_COSMETIC = {"indent", "separators", "sort_keys", "ensure_ascii"}


def _dump(lib):
    def x_dump(I, a, A, kw, fr, st):
        if len(A) == 2:
            k2 = [(k, v) for k, v in kw.items() if k not in JSON_COSMETIC]
            obj, kk = I.escape_args([a[0]], k2, fr, st)
            txt = I.mkcall("call", (glob(lib + ".dumps"),), obj, kk)
            st.trace = cat(st.trace, seq(mk("write", I.escape(A[1], fr, st), txt)))
            return NONE

    def x_dumps(I, a, A, kw, fr, st):
        if len(A) == 1:
            k2 = [(k, v) for k, v in kw.items() if k not in JSON_COSMETIC]
            obj, kk = I.escape_args([a[0]], k2, fr, st)
            return I.mkcall("call", (glob(lib + ".dumps"),), obj, kk)

    def x_load(I, a, A, kw, fr, st):
        if len(A) == 1:
            obj, kk = I.escape_args([a[0]], list(kw.items()), fr, st)
            txt = I.call_method(A[0], "read", [], [], fr, st)
            return I.opaque_call("call", (glob(lib + ".loads"),), [txt], kk, fr, st)
    EXT[lib + ".dump"], EXT[lib + ".dumps"], EXT[lib + ".load"] = x_dump, x_dumps, x_load


_dump("json")
_dump("rapidjson")


@ext("numpy.vdot")
def x_vdot(I, a, A, kw, fr, st):
    if len(A) == 2 and not kw:
        return I.binop("@", I.call_ext("numpy.conj", [a[0]], [], fr, st), A[1])


@ext("open")
def x_open(I, a, A, kw, fr, st):
    if not A:
        return None
    kw = dict(kw)
    kw.pop("encoding", None)
    mode = A[1] if len(A) > 1 else kw.pop("mode", s("r"))
    if kw:
        return None
    f = I.escape(A[0], fr, st)
    if mode.op == "const":
        mode = s(mode.a[1].replace("t", ""))
        h = mk("call", glob("open"), f, mode)
        if any(c in mode.a[1] for c in "wax+"):
            st.trace = cat(st.trace, seq(mk("openw", h)))
        return h
    return mk("call", glob("open"), f, mode)

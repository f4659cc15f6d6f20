"""Readings of the two graphs of a function that only differ in what is known of the types.

The evaluator types values from annotations and from the operations of one version of a
function only; the other version may show more.  `harmonise` rewrites both graphs with what
either of them shows; a rewrite that is an identity for the types at hand is "hard" (equal
graphs hold), one that depends on the class of an array or matrix is "soft" (equal graphs are
left undecided).
"""
from __future__ import annotations

import core as C
from core import T, glob, mk, raw

COMPLEX = (glob("complex"), glob("numpy.complex128"))


def subterms(t, limit=200000):
    seen, st = set(), [t]
    while st and len(seen) < limit:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += [y for y in x.a if isinstance(y, T)]
    return seen


def rewrite(t, f):
    """Bottom-up rewriting, under binders with fresh variables."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        C.spend()
        if x.op in C.BINDERS:
            r = C._sub_binder(x, go)
        else:
            na = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            r = x if all(p is q for p, q in zip(na, x.a)) else C.rebuild(x.op, na)
        r = f(r)
        memo[x] = r
        return r
    return go(t)


def itervar(i):
    return i.op == "var" and i.a[0][:2] in ("v~", "i~")


def harmonise(a, b, sparse=False):
    """(a', b', soft)"""
    sa, sb = subterms(a), subterms(b)
    dicts = set()
    for x, y in ((sa, sb), (sb, sa)):
        ks = {t.a[0] for t in x if t.op in ("key", "val", "items", "keys") and not t.a[0].fb}
        ks |= {t.a[0] for t in x if t.op == "item" and t.a[0].ty == "dict" and not t.a[0].fb}
        its = {t.a[0] for t in y if t.op == "item" and t.a[1].op == "bv"}
        dicts |= ks & its
    hard = []
    if dicts:
        def dict_items(r):
            if r.op == "item" and r.a[0] in dicts and itervar(r.a[1]):
                return mk("key", r.a[0], r.a[1])
            return r
        hard.append(dict_items)
    if any(t.op == "isinstance" and t.a[1] in COMPLEX for t in sa ^ sb):
        def complex_parts(r):
            if r.op == "ite" and r.a[0].op == "isinstance" and r.a[0].a[1] in COMPLEX:
                x = r.a[0].a[0]
                m = {raw("attr", x, "real"): x,
                     raw("attr", x, "imag"): C.ZERO}
                if C.subst(r.a[1], m) is r.a[2]:
                    return r.a[1]
            return r
        hard.append(complex_parts)
    soft = []
    if any(t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] == "shape"
           and t.a[1] is C.ZERO for t in sa ^ sb):
        def rows(r):
            if r.op == "item" and r.a[0].op == "attr" and r.a[0].a[1] == "shape" \
                    and r.a[1] is C.ZERO:
                return C.length(r.a[0].a[0])
            return r
        soft.append(rows)
    if any(t.op == "floordiv" for t in sa ^ sb):
        def ceiling(r):
            if r.op == "floordiv" and C._sign(r.a[0]) < 0:
                return C.neg(C.add(C.floordiv(C.sub(C.neg(r.a[0]), C.ONE), r.a[1]), C.ONE))
            if r.op == "ite" and r.a[0].op == "eq" and r.a[0].a[1] is C.ZERO \
                    and r.a[0].a[0].op == "mod":
                # n = 0 (mod m): (n - 1)//m is n//m - 1, otherwise n//m
                n, m = r.a[0].a[0].a
                d, q = raw("floordiv", C.sub(n, C.ONE), m), raw("floordiv", n, m)
                x, y = C.subst(r.a[1], {d: C.sub(q, C.ONE)}), C.subst(r.a[2], {d: q})
                if x is not r.a[1] or y is not r.a[2]:
                    return C.ite(r.a[0], x, y)
            return r
        soft.append(ceiling)
    if sparse and any(t.op == "bin" and t.a[0] == "*" for t in sa | sb) and any(
            t.op == "matmul" for t in sa ^ sb):
        def product(r):
            if r.op == "bin" and r.a[0] == "*":
                return mk("matmul", r.a[1], r.a[2])
            return r
        soft.append(product)

    def run(t, fs):
        def f(r):
            for g in fs:
                r = g(r)
            return r
        return rewrite(t, f) if fs else t
    a, b = run(a, hard), run(b, hard)
    if a is b or not soft:
        return a, b, False
    return run(a, soft), run(b, soft), True

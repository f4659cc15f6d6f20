"""Behaviour-preserving edits of the repository, to measure how quiet the checks stay.

usage: refactor.py N SEED [file-substring]       N edits per function kind and file
Every edit is one automatic refactoring (helper extracted, temporary introduced, loop and
comprehension exchanged, condition inverted, statements reordered, ...).
"""
import os as _os, sys as _sys
if _os.environ.get("PYTHONHASHSEED") != "0":
    _os.environ["PYTHONHASHSEED"] = "0"
    _os.execv(_sys.executable, [_sys.executable] + _sys.argv)
import ast
import collections
import copy
import multiprocessing as mp
import os
import random
import sys
import threading

sys.path.insert(0, "/verif/sa")
sys.setrecursionlimit(20000)
import compare  # noqa: E402
import loader  # noqa: E402

REPO = "/repo/src"
SPEC = "/verif/spec"


def funcs(tree):
    out = []

    def go(n, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                if not any(isinstance(d, ast.Name) and d.id == "overload" for d in c.decorator_list):
                    out.append((c, cls))
            elif isinstance(c, ast.ClassDef):
                go(c, c)
    go(tree, None)
    return out


def blocks(fn):
    """All statement lists of a function (not of nested functions)."""
    out = []

    def go(n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        go(s)
        for h in getattr(n, "handlers", []):
            go(h)
    go(fn)
    return out


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
            and (ctx is None or isinstance(x.ctx, ctx))}


def fresh(fn, base="tmp"):
    used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)} | \
        {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    i = 0
    while "%s_%d" % (base, i) in used:
        i += 1
    return "%s_%d" % (base, i)


def is_pure_expr(e):
    for x in ast.walk(e):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Starred)):
            return False
    return True


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    inv = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
           ast.In: ast.NotIn, ast.NotIn: ast.In}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in inv:
        return ast.Compare(t.left, [inv[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def terminates(b):
    s = b[-1]
    return isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break))


def always_leaves(b):
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    return isinstance(s, ast.If) and bool(s.orelse) and always_leaves(s.body) and \
        always_leaves(s.orelse)


# every transformation: (fn, tree, cls) -> list of thunks
T = {}


def t(f):
    T[f.__name__] = f
    return f


def eager_subexprs(e):
    """Sub-expressions evaluated unconditionally whenever e is."""
    out = []

    def go(x, top):
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if not top and not isinstance(x, ast.GeneratorExp):
                out.append(x)
            return
        if isinstance(x, (ast.IfExp, ast.BoolOp)):
            if not top:
                out.append(x)
            go(x.test if isinstance(x, ast.IfExp) else x.values[0], False)
            return
        if isinstance(x, ast.JoinedStr):
            return
        if not top and isinstance(x, (ast.Call, ast.BinOp, ast.Attribute, ast.Compare,
                                      ast.Subscript)) and isinstance(
                                          getattr(x, "ctx", ast.Load()), ast.Load):
            out.append(x)
        for f, v in ast.iter_fields(x):
            if f == "func" and isinstance(v, ast.Attribute):
                go(v.value, False)
                continue
            if isinstance(v, ast.expr):
                go(v, False)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, ast.expr):
                        go(y, False)
                    elif isinstance(y, ast.keyword):
                        go(y.value, False)
    go(e, True)
    return out


def replace(root, old, new):
    for n in ast.walk(root):
        for f, v in ast.iter_fields(n):
            if v is old:
                setattr(n, f, new)
                return True
            if isinstance(v, list):
                for j, y in enumerate(v):
                    if y is old:
                        v[j] = new
                        return True
    return False


@t
def extract_variable(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for s in b:
            e = None
            if isinstance(s, (ast.Assign, ast.Return, ast.AnnAssign)) and s.value is not None:
                e = s.value
            elif isinstance(s, ast.If):
                e = s.test
                # elif chains: the test of a nested elif is fine, it becomes nested
            elif isinstance(s, ast.For):
                e = s.iter
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                e = s.value
            if e is None:
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(e, ast.Tuple):
                continue
            for x in eager_subexprs(e):
                if not is_pure_expr(x):
                    continue

                def go(b=b, s=s, x=x):
                    v = fresh(fn)
                    if not replace(s, x, ast.Name(v, ast.Load())):
                        return False
                    b.insert(b.index(s), ast.Assign([ast.Name(v, ast.Store())], x))
                out.append(go)
    return out


@t
def inline_variable(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name) and is_pure_expr(s.value):
                v = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                loads = [x for x in uses if isinstance(x.ctx, ast.Load)]
                if len(uses) != 2 or len(loads) != 1:
                    continue
                n = b[i + 1]
                e = getattr(n, "value", None) if isinstance(
                    n, (ast.Assign, ast.Return, ast.Expr)) else n.test if isinstance(
                        n, ast.If) else n.iter if isinstance(n, ast.For) else None
                if e is None:
                    continue
                if loads[0] is e or any(x is loads[0] for x in first_eval(e)):
                    def go(b=b, s=s, n=n, l=loads[0]):
                        replace(n, l, s.value)
                        b.remove(s)
                    out.append(go)
    return out


def first_eval(e):
    """Names loaded eagerly in e."""
    out = []

    def go(x):
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if not isinstance(x, ast.Lambda):
                go(x.generators[0].iter)
            return
        if isinstance(x, ast.IfExp):
            go(x.test)
            return
        if isinstance(x, ast.BoolOp):
            go(x.values[0])
            return
        if isinstance(x, ast.Name):
            out.append(x)
        for c in ast.iter_child_nodes(x):
            go(c)
    go(e)
    return out


@t
def invert_if(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.If) and s.orelse:
                def go(s=s):
                    s.test = negate(s.test)
                    s.body, s.orelse = s.orelse, s.body
                out.append(go)
    for x in ast.walk(fn):
        if isinstance(x, ast.IfExp):
            def go2(x=x):
                x.test = negate(x.test)
                x.body, x.orelse = x.orelse, x.body
            out.append(go2)
    return out


@t
def guard_to_else(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and terminates(s.body):
                def go(b=b, s=s):
                    j = b.index(s)
                    s.orelse = b[j + 1:]
                    del b[j + 1:]
                out.append(go)
    return out


@t
def else_to_guard(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and terminates(s.body):
                def go(b=b, s=s):
                    j = b.index(s)
                    b[j + 1:j + 1] = s.orelse
                    s.orelse = []
                out.append(go)
            if isinstance(s, ast.If) and s.orelse and terminates(s.orelse):
                def go2(b=b, s=s):
                    j = b.index(s)
                    rest = s.body
                    s.test = negate(s.test)
                    s.body = s.orelse
                    s.orelse = []
                    b[j + 1:j + 1] = rest
                out.append(go2)
    return out


@t
def invert_guard(fn, tree, cls):
    """if c: continue/return; rest  ->  if not c: rest (loops) / nested."""
    out = []
    for b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and \
                    isinstance(s.body[0], (ast.Raise, ast.Return)) and always_leaves(b):
                def go(b=b, s=s):
                    j = b.index(s)
                    rest = b[j + 1:]
                    tail = s.body
                    s.test = negate(s.test)
                    s.body = rest
                    b[j + 1:] = tail
                out.append(go)
    return out


@t
def ternary_to_if(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                def go(b=b, s=s):
                    e = s.value
                    b[b.index(s):b.index(s) + 1] = [ast.If(e.test, [ast.Return(e.body)], []),
                                                    ast.Return(e.orelse)]
                out.append(go)
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and \
                    len(s.targets) == 1:
                def go2(b=b, s=s):
                    e = s.value
                    b[b.index(s)] = ast.If(e.test, [ast.Assign(s.targets, e.body)],
                                           [ast.Assign(copy.deepcopy(s.targets), e.orelse)])
                out.append(go2)
    return out


@t
def if_to_ternary(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                    def go(b=b, s=s, x=x, y=y):
                        b[b.index(s)] = ast.Return(ast.IfExp(s.test, x.value, y.value))
                    out.append(go)
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and \
                        ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    def go2(b=b, s=s, x=x, y=y):
                        b[b.index(s)] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                    out.append(go2)
    return out


def comp_loop(comp, leaf):
    """Nested for/if statements around leaf."""
    body = [leaf]
    for g in reversed(comp.generators):
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        tgt = copy.deepcopy(g.target)
        body = [ast.For(tgt, g.iter, body, [])]
    return body


@t
def comp_to_loop(fn, tree, cls):
    out = []
    locs = names(fn, ast.Store) | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    for b in blocks(fn):
        for s in b:
            if not isinstance(s, (ast.Return, ast.Assign, ast.Expr, ast.If)):
                continue
            root = s.test if isinstance(s, ast.If) else s.value
            if root is None:
                continue
            cands = [root] + eager_subexprs(root)
            # generators as arguments of eager consumers
            for x in list(cands):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in (
                        "list", "tuple", "set", "sum", "any", "all", "sorted", "max", "min") \
                        and len(x.args) >= 1 and isinstance(x.args[0], ast.GeneratorExp):
                    cands.append((x, x.args[0]))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                        x.func.attr == "join" and x.args and \
                        isinstance(x.args[0], ast.GeneratorExp):
                    cands.append((x, x.args[0]))
            for x in cands:
                call = None
                if isinstance(x, tuple):
                    call, x = x
                if not isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(x, ast.GeneratorExp) and call is None:
                    continue
                tg = set()
                for g in x.generators:
                    tg |= names(g.target)
                inside = [n for n in ast.walk(x) if isinstance(n, ast.Name) and n.id in tg]
                allu = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id in tg]
                if len(inside) != len(allu) or any(isinstance(n, (ast.Lambda, ast.GeneratorExp))
                                                   for n in ast.walk(x) if n is not x):
                    continue
                if tg & {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}:
                    continue

                def go(b=b, s=s, x=x, call=call):
                    v = fresh(fn, "result")
                    N = lambda c: ast.Name(v, c)
                    fname = call.func.id if call is not None and \
                        isinstance(call.func, ast.Name) else ""
                    if isinstance(x, ast.DictComp):
                        init = ast.Dict([], [])
                        leaf = ast.Assign([ast.Subscript(N(ast.Load()), x.key, ast.Store())],
                                          x.value)
                    elif isinstance(x, ast.SetComp):
                        init = ast.Call(ast.Name("set", ast.Load()), [], [])
                        leaf = ast.Expr(ast.Call(ast.Attribute(N(ast.Load()), "add", ast.Load()),
                                                 [x.elt], []))
                    elif fname in ("any", "all"):
                        init = ast.Constant(fname == "all")
                        tst = x.elt if fname == "any" else negate(x.elt)
                        leaf = ast.If(tst, [ast.Assign([N(ast.Store())],
                                                       ast.Constant(fname == "any"))] + (
                            [ast.Break()] if len(x.generators) == 1 else []), [])
                    elif fname == "sum" and len(call.args) == 1:
                        init = ast.Constant(0)
                        leaf = ast.AugAssign(N(ast.Store()), ast.Add(), x.elt)
                    else:
                        init = ast.List([], ast.Load())
                        leaf = ast.Expr(ast.Call(ast.Attribute(N(ast.Load()), "append",
                                                               ast.Load()), [x.elt], []))
                    new = N(ast.Load())
                    tgt = x
                    if fname in ("any", "all", "sum") and not (fname == "sum" and
                                                               len(call.args) != 1):
                        tgt = call
                    elif fname == "list" and len(call.args) == 1:
                        tgt = call
                    if not replace(s, tgt, new):
                        return False
                    j = b.index(s)
                    b[j:j] = [ast.Assign([N(ast.Store())], init)] + comp_loop(x, leaf)
                out.append(go)
    return out


@t
def loop_to_comp(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for i, s in enumerate(b):
            if not isinstance(s, ast.For) or s.orelse:
                continue
            body, gens = s.body, [ast.comprehension(s.target, s.iter, [], 0)]
            while len(body) == 1 and isinstance(body[0], (ast.For, ast.If)):
                n = body[0]
                if n.orelse:
                    break
                if isinstance(n, ast.For):
                    gens.append(ast.comprehension(n.target, n.iter, [], 0))
                else:
                    gens[-1].ifs.append(n.test)
                body = n.body
            if len(body) != 1:
                continue
            n = body[0]
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                    isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "append" \
                    and isinstance(n.value.func.value, ast.Name):
                v = n.value.func.value.id
                elt = n.value.args[0]
                init = [j for j in range(i) if isinstance(b[j], (ast.Assign, ast.AnnAssign)) and (
                    b[j].targets[0] if isinstance(b[j], ast.Assign) else b[j].target).__class__
                    is ast.Name and (b[j].targets[0] if isinstance(b[j], ast.Assign)
                                     else b[j].target).id == v
                    and isinstance(b[j].value, ast.List) and not b[j].value.elts]
                if not init or any(v in names(x) for x in b[init[-1] + 1:i]):
                    continue
                if v in names(elt) or any(v in names(g) for g in gens):
                    continue

                def go(b=b, s=s, gens=gens, elt=elt, st=b[init[-1]], v=v):
                    b[b.index(s)] = ast.Assign([ast.Name(v, ast.Store())],
                                               ast.ListComp(elt, gens))
                    b.remove(st)
                out.append(go)
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and \
                    isinstance(n.targets[0].value, ast.Name):
                v = n.targets[0].value.id
                init = [j for j in range(i) if isinstance(b[j], (ast.Assign, ast.AnnAssign)) and
                        isinstance(b[j].value, ast.Dict) and not b[j].value.keys and
                        (b[j].targets[0] if isinstance(b[j], ast.Assign) else b[j].target
                         ).__class__ is ast.Name and
                        (b[j].targets[0] if isinstance(b[j], ast.Assign) else b[j].target).id
                        == v]
                if not init or any(v in names(x) for x in b[init[-1] + 1:i]):
                    continue
                if v in names(n.value) | names(n.targets[0].slice) or any(
                        v in names(g) for g in gens):
                    continue

                def go2(b=b, s=s, gens=gens, n=n, st=b[init[-1]], v=v):
                    b[b.index(s)] = ast.Assign([ast.Name(v, ast.Store())], ast.DictComp(
                        n.targets[0].slice, n.value, gens))
                    b.remove(st)
                out.append(go2)
    return out


@t
def extract_helper_expr(fn, tree, cls):
    """An expression moves to a new module-level function."""
    out = []
    params = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    stored = names(fn, ast.Store)
    for b in blocks(fn):
        for s in b:
            e = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else \
                s.test if isinstance(s, ast.If) else s.iter if isinstance(s, ast.For) else None
            if e is None:
                continue
            for x in [e] + eager_subexprs(e):
                if not isinstance(x, (ast.Call, ast.BinOp, ast.Compare, ast.ListComp,
                                      ast.DictComp, ast.IfExp, ast.BoolOp)) or \
                        not is_pure_expr(x):
                    continue
                if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
                       n.func.id == "super" for n in ast.walk(x)):
                    continue
                bound = set()
                for n in ast.walk(x):
                    if isinstance(n, ast.comprehension):
                        bound |= names(n.target)
                    if isinstance(n, ast.Lambda):
                        bound |= {a.arg for a in n.args.args}
                free = [v for v in sorted(names(x, ast.Load) - bound)
                        if v in params or v in stored]
                nested = [f for f in ast.walk(fn) if isinstance(f, ast.FunctionDef) and f is not fn]
                if {f.name for f in nested} & names(x):
                    continue

                def go(s=s, x=x, free=free):
                    h = "_extracted_helper"
                    d = ast.FunctionDef(h, ast.arguments([], [ast.arg(v) for v in free], None,
                                                         [], [], None, []),
                                        [ast.Return(copy.deepcopy(x))], [], None, None, None)
                    d.type_params = []
                    if not replace(s, x, ast.Call(ast.Name(h, ast.Load()),
                                                  [ast.Name(v, ast.Load()) for v in free], [])):
                        return False
                    insert_before(tree, cls or fn, d)
                out.append(go)
    return out


def insert_before(tree, node, new):
    tree.body.insert(tree.body.index(node), new)


@t
def extract_helper_block(fn, tree, cls):
    """Consecutive top-level statements move to a new private function or method."""
    out = []
    if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global))
           for n in ast.walk(fn)):
        return out
    b = fn.body
    start = 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
    if fn.args.vararg:
        params.append(fn.args.vararg.arg)
    if fn.args.kwarg:
        params.append(fn.args.kwarg.arg)
    for i in range(start, len(b)):
        for j in range(i + 1, min(len(b), i + 5) + 1):
            blk = b[i:j]
            if j - i == 1 and isinstance(blk[0], (ast.Return, ast.Raise, ast.Assign)):
                continue
            whole = always_leaves(blk) and j == len(b)
            if not whole and any(isinstance(n, (ast.Return, ast.Raise)) and
                                 isinstance(n, ast.Return)
                                 for s in blk for n in ast.walk(s)):
                continue
            if any(isinstance(n, ast.FunctionDef) for s in blk for n in ast.walk(s)):
                continue
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id ==
                   "super" for s in blk for n in ast.walk(s)):
                continue
            nested = {f.name for f in ast.walk(fn) if isinstance(f, ast.FunctionDef)}
            pre = set(params)
            for s in b[start:i]:
                pre |= names(s, ast.Store)
            wr = set()
            for s in blk:
                wr |= names(s, ast.Store)
                for n in ast.walk(s):
                    if isinstance(n, ast.comprehension):
                        pass
            rd = set()
            for s in blk:
                rd |= names(s, ast.Load)
                for n in ast.walk(s):
                    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                        rd.add(n.target.id)
            if nested & rd:
                continue
            ins = [v for v in sorted(rd) if v in pre]
            # variables conditionally assigned inside must come in too
            ins = sorted(set(ins) | (wr & pre))
            post = set()
            for s in b[j:]:
                post |= names(s, ast.Load)
                for n in ast.walk(s):
                    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                        post.add(n.target.id)
            outs = sorted(v for v in wr & post)
            if any(v not in pre and not definitely(blk, v) for v in outs):
                continue

            def go(i=i, j=j, ins=ins, outs=outs, whole=whole, blk=blk):
                h = "_extracted_part"
                body = list(blk)
                if not whole and outs:
                    body.append(ast.Return(
                        ast.Name(outs[0], ast.Load()) if len(outs) == 1 else
                        ast.Tuple([ast.Name(v, ast.Load()) for v in outs], ast.Load())))
                d = ast.FunctionDef(h, ast.arguments([], [ast.arg(v) for v in ins], None, [], [],
                                                     None, []), body, [], None, None, None)
                d.type_params = []
                call = ast.Call(ast.Name(h, ast.Load()),
                                [ast.Name(v, ast.Load()) for v in ins], [])
                if whole:
                    st = ast.Return(call)
                elif not outs:
                    st = ast.Expr(call)
                elif len(outs) == 1:
                    st = ast.Assign([ast.Name(outs[0], ast.Store())], call)
                else:
                    st = ast.Assign([ast.Tuple([ast.Name(v, ast.Store()) for v in outs],
                                               ast.Store())], call)
                b[i:j] = [st]
                insert_before(tree, cls or fn, d)
            out.append(go)
    return out


def definitely(blk, v):
    """v is assigned on the straight line of the block."""
    for s in blk:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if isinstance(s, ast.AnnAssign) and s.value is None:
                continue
            if any(v in names(x, ast.Store) for x in ts):
                return True
        if isinstance(s, ast.With) and definitely(s.body, v):
            return True
        if isinstance(s, ast.If) and s.orelse and \
                (definitely(s.body, v) or terminates(s.body)) and \
                (definitely(s.orelse, v) or terminates(s.orelse)):
            return True
    return False


@t
def rename_local(fn, tree, cls):
    out = []
    params = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    for v in sorted(names(fn, ast.Store) - params):
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) and v in n.names for n in ast.walk(fn)):
            continue

        def go(v=v):
            w = fresh(fn, "renamed")
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and x.id == v:
                    x.id = w
        out.append(go)
    return out


IMPURE = {"append", "extend", "pop", "write", "choice", "sample", "shuffle", "random", "next",
          "update", "remove", "add", "insert", "sort", "load", "dump", "warn", "print", "record",
          "save_raw_data", "randint", "uniform", "open", "islice"}


@t
def reorder(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if not all(isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None
                       for s in (x, y)):
                continue
            bad = False
            for s in (x, y):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if not all(isinstance(z, ast.Name) for z in ts):
                    bad = True
                for n in ast.walk(s):
                    if isinstance(n, ast.Call):
                        nm = n.func.attr if isinstance(n.func, ast.Attribute) else \
                            getattr(n.func, "id", "")
                        if nm in IMPURE or nm.startswith(("_run", "run", "get_wave", "record",
                                                          "sample", "save", "_get_wave")):
                            bad = True
            if bad:
                continue
            wx, wy = names(x, ast.Store), names(y, ast.Store)
            if wx & names(y) or wy & names(x):
                continue
            # raising order: only when at most one of them can raise visibly
            if any(isinstance(n, ast.Call) for n in ast.walk(x)) and \
                    any(isinstance(n, ast.Call) for n in ast.walk(y)):
                continue

            def go(b=b, i=i):
                b[i], b[i + 1] = b[i + 1], b[i]
            out.append(go)
    return out


@t
def reorder_methods(fn, tree, cls):
    if cls is None:
        return []
    i = cls.body.index(fn)
    if i + 1 >= len(cls.body) or not isinstance(cls.body[i + 1], ast.FunctionDef) or \
            cls.body[i + 1].name == fn.name:
        return []

    def go():
        cls.body[i], cls.body[i + 1] = cls.body[i + 1], cls.body[i]
    return [go]


@t
def augmented(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and \
                    isinstance(s.op, (ast.Add, ast.Mult, ast.Sub)):
                v = s.target.id
                inits = [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and
                         isinstance(x.targets[0], ast.Name) and x.targets[0].id == v]
                if inits and all(isinstance(z, ast.Constant) or isinstance(z, ast.Call) and
                                 isinstance(z.func, ast.Name) and z.func.id == "Circuit"
                                 or isinstance(z, ast.List) and not z.elts
                                 for z in inits):
                    def go(b=b, s=s):
                        b[b.index(s)] = ast.Assign([ast.Name(s.target.id, ast.Store())], ast.BinOp(
                            ast.Name(s.target.id, ast.Load()), s.op,
                            s.value))
                    if all(isinstance(z, ast.List) for z in inits) and not isinstance(
                            s.value, (ast.List, ast.ListComp, ast.BinOp)):
                        continue
                    out.append(go)
    return out


@t
def de_morgan(fn, tree, cls):
    out = []
    tests = [x for x in ast.walk(fn) if isinstance(x, (ast.If, ast.IfExp, ast.While))]
    for x in tests:
        if isinstance(x.test, ast.BoolOp):
            def go(x=x):
                o = ast.Or() if isinstance(x.test.op, ast.And) else ast.And()
                x.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [negate(v) for v in x.test.values]))
            out.append(go)
        elif isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) and \
                isinstance(x.test.operand, ast.BoolOp):
            def go2(x=x):
                p = x.test.operand
                o = ast.Or() if isinstance(p.op, ast.And) else ast.And()
                x.test = ast.BoolOp(o, [negate(v) for v in p.values])
            out.append(go2)
    return out


@t
def flip_compare(fn, tree, cls):
    out = []
    inv = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq,
           ast.NotEq: ast.NotEq}
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in inv:
            def go(x=x):
                x.left, x.comparators[0] = x.comparators[0], x.left
                x.ops[0] = inv[type(x.ops[0])]()
            out.append(go)
    return out


@t
def any_all(fn, tree, cls):
    out = []
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in (
                "any", "all") and len(x.args) == 1 and isinstance(
                    x.args[0], (ast.GeneratorExp, ast.ListComp)):
            def go(x=x):
                o = "all" if x.func.id == "any" else "any"
                g = copy.deepcopy(x.args[0])
                g.elt = negate(g.elt)
                new = ast.UnaryOp(ast.Not(), ast.Call(ast.Name(o, ast.Load()), [g], []))
                replace(fn, x, new)
            out.append(go)
            if isinstance(x.args[0], ast.ListComp):
                def go2(x=x):
                    x.args[0] = ast.GeneratorExp(x.args[0].elt, x.args[0].generators)
                out.append(go2)
    return out


@t
def split_and(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and not s.orelse:
                if isinstance(s.test.op, ast.And):
                    def go(s=s):
                        v = s.test.values
                        s.body = [ast.If(v[-1], s.body, [])]
                        s.test = v[0] if len(v) == 2 else ast.BoolOp(ast.And(), v[:-1])
                    out.append(go)
                else:
                    def go2(b=b, s=s):
                        if not terminates(s.body):
                            return False
                        v = s.test.values
                        j = b.index(s)
                        b[j:j + 1] = [ast.If(c, copy.deepcopy(s.body), []) for c in v]
                    if terminates(s.body):
                        out.append(go2)
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(
                    s.body[0], ast.If) and not s.body[0].orelse:
                def go3(s=s):
                    n = s.body[0]
                    s.test = ast.BoolOp(ast.And(), [s.test, n.test])
                    s.body = n.body
                out.append(go3)
    return out


@t
def swap_literals(fn, tree, cls):
    out = []
    for x in ast.walk(fn):
        if isinstance(x, ast.List) and not x.elts and isinstance(x.ctx, ast.Load):
            out.append(lambda x=x: replace(fn, x, ast.Call(ast.Name("list", ast.Load()), [], [])) and None)
        if isinstance(x, ast.Dict) and not x.keys:
            out.append(lambda x=x: replace(fn, x, ast.Call(ast.Name("dict", ast.Load()), [], [])) and None)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in (
                "tuple", "set", "sum", "sorted", "dict", "max", "min", "all", "any") and \
                len(x.args) == 1 and isinstance(x.args[0], ast.GeneratorExp):
            out.append(lambda x=x: replace(x, x.args[0], ast.ListComp(
                x.args[0].elt, x.args[0].generators)) and None)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in (
                "tuple", "set", "sum", "sorted", "dict", "max", "min", "all", "any", "list") and \
                len(x.args) == 1 and isinstance(x.args[0], ast.ListComp):
            out.append(lambda x=x: replace(x, x.args[0], ast.GeneratorExp(
                x.args[0].elt, x.args[0].generators)) and None)
        if isinstance(x, ast.ListComp) and len(x.generators) == 1 and not x.generators[0].ifs \
                and isinstance(x.elt, ast.Call) and len(x.elt.args) == 1 and not x.elt.keywords \
                and isinstance(x.elt.args[0], ast.Name) and isinstance(x.generators[0].target,
                                                                       ast.Name) and \
                x.elt.args[0].id == x.generators[0].target.id and isinstance(
                    x.elt.func, (ast.Name, ast.Attribute)) and \
                x.generators[0].target.id not in names(x.elt.func):
            out.append(lambda x=x: replace(fn, x, ast.Call(ast.Name("list", ast.Load()), [
                ast.Call(ast.Name("map", ast.Load()), [x.elt.func, x.generators[0].iter], [])],
                [])) and None)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "map" and \
                len(x.args) == 2 and not x.keywords:
            out.append(lambda x=x: replace(fn, x, ast.GeneratorExp(ast.Call(
                x.args[0], [ast.Name("item_0", ast.Load())], []), [ast.comprehension(
                    ast.Name("item_0", ast.Store()), x.args[1], [], 0)])) and None)
    return out


@t
def no_op(fn, tree, cls):
    out = []
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0

    def a():
        fn.body.insert(i, ast.Pass())

    def b():
        fn.body.insert(i, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)))

    def c():
        fn.body.insert(i, ast.Expr(ast.Constant(0)))

    def d():
        fn.body.insert(i, ast.If(ast.Constant(False), [ast.Pass()], []))
    return [a, b, c, d]


@t
def enumerate_range(fn, tree, cls):
    """for i in range(len(x)) <-> enumerate, zip of range."""
    out = []
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Call) and \
                isinstance(x.iter.func, ast.Name):
            if x.iter.func.id == "enumerate" and len(x.iter.args) == 1 and isinstance(
                    x.target, ast.Tuple):
                def go(x=x):
                    x.iter = ast.Call(ast.Name("zip", ast.Load()), [ast.Call(
                        ast.Attribute(ast.Name("itertools_count", ast.Load()), "x", ast.Load()),
                        [], []), x.iter.args[0]], [])
                    return False
                def go2(x=x):
                    x.iter = ast.Call(ast.Name("zip", ast.Load()), [ast.Call(ast.Name(
                        "range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [
                            copy.deepcopy(x.iter.args[0])], [])], []), x.iter.args[0]], [])
                out.append(go2)
            if x.iter.func.id == "range" and len(x.iter.args) == 1:
                def go3(x=x):
                    x.iter.args = [ast.Constant(0), x.iter.args[0]]
                out.append(go3)
    return out


@t
def for_to_while(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(
                    s.iter.func, ast.Name) and s.iter.func.id == "range" and \
                    len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and \
                    not any(isinstance(n, (ast.Continue, ast.Break)) for n in ast.walk(s)) and \
                    not s.orelse and not any(s in bb and bb is not b for bb in []):
                v = s.target.id
                if len([n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == v]) != \
                        len([n for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == v]):
                    continue

                def go(b=b, s=s, v=v):
                    lim = fresh(fn, "limit")
                    j = b.index(s)
                    b[j:j + 1] = [
                        ast.Assign([ast.Name(lim, ast.Store())], s.iter.args[0]),
                        ast.Assign([ast.Name(v, ast.Store())], ast.Constant(0)),
                        ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()],
                                              [ast.Name(lim, ast.Load())]),
                                  s.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(),
                                                          ast.Constant(1))], [])]
                out.append(go)
    return out


@t
def return_in_with(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.With) and isinstance(b[i + 1], ast.Return) and i + 2 == len(b):
                def go(b=b, s=s):
                    s.body.append(b.pop())
                out.append(go)
        for i, s in enumerate(b):
            if isinstance(s, ast.With) and isinstance(s.body[-1], ast.Return) and \
                    s.body[-1].value is not None and i + 1 == len(b):
                def go2(b=b, s=s):
                    v = fresh(fn)
                    r = s.body[-1]
                    s.body[-1] = ast.Assign([ast.Name(v, ast.Store())], r.value)
                    b.append(ast.Return(ast.Name(v, ast.Load())))
                out.append(go2)
    return out


@t
def lambda_to_def(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
                for x in ast.walk(s.value):
                    if isinstance(x, ast.Lambda) and not in_comp(s.value, x):
                        def go(b=b, s=s, x=x):
                            h = fresh(fn, "_local_function")
                            d = ast.FunctionDef(h, x.args, [ast.Return(x.body)], [], None, None,
                                                None)
                            d.type_params = []
                            if s.value is x:
                                s.value = ast.Name(h, ast.Load())
                            else:
                                replace(s, x, ast.Name(h, ast.Load()))
                            b.insert(b.index(s), d)
                        out.append(go)
    return out


def in_comp(root, x):
    for n in ast.walk(root):
        if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            if any(y is x for y in ast.walk(n)):
                return True
    return False


@t
def fstring(fn, tree, cls):
    out = []
    for x in ast.walk(fn):
        if isinstance(x, ast.JoinedStr) and all(
                isinstance(v, ast.Constant) or v.conversion == -1 and v.format_spec is None
                for v in x.values):
            def go(x=x):
                fmt, args = "", []
                for v in x.values:
                    if isinstance(v, ast.Constant):
                        fmt += v.value.replace("{", "{{").replace("}", "}}")
                    else:
                        fmt += "{}"
                        args.append(v.value)
                replace(fn, x, ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()),
                                        args, []))

            def go2(x=x):
                e = None
                for v in x.values:
                    p = v if isinstance(v, ast.Constant) else ast.Call(
                        ast.Name("str", ast.Load()), [v.value], [])
                    e = p if e is None else ast.BinOp(e, ast.Add(), p)
                replace(fn, x, e)
            out += [go, go2]
    return out


@t
def annotate(fn, tree, cls):
    out = []
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                def go(b=b, s=s):
                    b[b.index(s)] = ast.AnnAssign(s.targets[0], ast.Name("object", ast.Load()),
                                                  s.value, 1)
                out.append(go)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                def go2(b=b, s=s):
                    b[b.index(s)] = ast.Assign([s.target], s.value)
                out.append(go2)
    return out


@t
def demorgan_filter(fn, tree, cls):
    """Loop: if c: body -> if not c: continue; body."""
    out = []
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse:
            def go(x=x):
                n = x.body[-1]
                x.body[-1:] = [ast.If(negate(n.test), [ast.Continue()], [])] + n.body
            out.append(go)
    return out


def all_sites(tree):
    out = []
    for fn, cls in funcs(tree):
        for kind, f in T.items():
            for th in f(fn, tree, cls):
                out.append((kind, fn.name, th))
    return out


BASE = None


def make(rel, k):
    src = open(os.path.join(REPO, rel), encoding="utf-8").read()
    tree = ast.parse(src)
    kind, name, th = all_sites(tree)[k]
    r = th()
    if r is False:
        return None
    ast.fix_missing_locations(tree)
    new = ast.unparse(tree)
    old = ast.unparse(ast.parse(src))
    if new == old:
        return None
    return kind, name, new, old


KNOWN = open("/verif/KNOWN_FINDINGS.txt").read()


def work(job):
    rel, k = job
    try:
        m = make(rel, k)
    except Exception as e:
        return (rel, "?", "?", k, [repr(e)], "G", [], [])
    if m is None:
        return None
    kind, name, new, old = m
    import difflib
    d = [l for l in difflib.unified_diff(old.splitlines(), new.splitlines(), n=0, lineterm="")
         if l[:1] in "+-" and l[:3] not in ("+++", "---")]
    res = []

    def go():
        try:
            compile(new, rel, "exec")
            X = compare.Compare(SPEC, REPO, {rel: new}, ref=BASE)
            r = X.run(only={"src/" + rel})
            st = collections.Counter(i.status for i in r.values())
            import analysis
            law = analysis.law_alarms(X, known=KNOWN)
            st.update(l[1] for l in law)
            bad = [(i.key, i.status, i.why, [repr(m)[:300] for m in i.mismatches[:3]])
                   for i in r.values() if i.status != "HOLDS"] + law
            res.append((rel, kind, name, k, d, "V" if st["VIOLATED"] else "U" if
                        st["UNDECIDED"] else "H", bad, X.problems))
        except Exception as e:
            res.append((rel, kind, name, k, d, "E", [repr(e)[:200]], []))
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=go)
    th.start()
    th.join(90)
    return res[0] if res else (rel, kind, name, k, d, "T", [], [])


def main():
    global BASE
    N = int(sys.argv[1]) if len(sys.argv) > 1 else 10
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    kinds = set(sys.argv[4].split(",")) if len(sys.argv) > 4 else None
    import json
    P = [json.loads(l) for l in open("/verif/properties.jsonl")]
    files = sorted({f[4:] for p in P for f in p["anchors"]["files"]})
    jobs = []
    rnd = random.Random(seed)
    for f in files:
        if sub not in f:
            continue
        by = collections.defaultdict(list)
        for i, (kind, name, _) in enumerate(all_sites(ast.parse(open(os.path.join(REPO, f)).read()))):
            if kinds is None or kind in kinds:
                by[kind].append(i)
        for kind in sorted(by):
            rnd.shuffle(by[kind])
            jobs += [(f, k) for k in by[kind][:N]]
    BASE = loader.Program(SPEC)
    with mp.Pool(8, maxtasksperchild=25) as pool:
        out = [r for r in pool.imap_unordered(work, jobs) if r]
    out = [r for r in out if len(r) == 8]
    print(collections.Counter(r[5] for r in out))
    c = collections.Counter((r[1], r[5]) for r in out)
    for k in sorted({k for k, _ in c}):
        print("%-22s" % k, {s: c[(k, s)] for s in "HUVETG" if c[(k, s)]})
    with open("/tmp/scratch/ref.txt", "w") as fo:
        for r in sorted(out, key=lambda r: (r[5], r[0], r[3])):
            if r[5] != "H":
                fo.write("== %s %s %s %s #%d\n" % (r[5], r[0], r[2], r[1], r[3]))
                for l in r[4][:14]:
                    fo.write("   " + l[:150] + "\n")
                for b in r[6][:2]:
                    fo.write("      -> " + repr(b)[:700] + "\n")


if __name__ == "__main__":
    main()

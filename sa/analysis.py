"""Property verdicts: comparison with the reference plus independent law rules."""
from __future__ import annotations

import ast
import collections
import importlib

import compare as K
import core as C
from compare import HOLDS, UNDECIDED, VIOLATED


def scope(X, files):
    """Items a property depends on: everything in its anchor files and what that calls."""
    keys = set()
    for p in (X.ref, X.cur):
        for k, f in p.funcs.items():
            if f.mod.rel in files:
                keys.add(k)
        for m in p.modules.values():
            if m.rel in files:
                for n in m.consts:
                    keys.add("const " + p.fkey(m, n))
                for c in m.classes.values():
                    keys.add("class " + c.key)
    anchored = set(keys)
    keys |= by_name(X, anchored)
    todo = list(keys)
    while todo:
        k = todo.pop()
        for w in ("ref", "cur"):
            for o in X.static_callees(w, k):
                if o not in keys:
                    keys.add(o)
                    todo.append(o)
    return anchored, keys


BUILTIN = set().union(*(dir(t) for t in (int, complex, str, bytes, list, tuple, dict, set,
                                         frozenset, type, collections.Counter)))


def by_name(X, anchored):
    """Methods of the program's classes that anchored code may call through an object: every
    method carrying a name the anchored code reads as an attribute (class hierarchy by name)."""
    out = set()
    for p in (X.ref, X.cur):
        reach = {}
        methods = [(k, f) for k, f in p.funcs.items() if f.cls is not None]
        for a in anchored:
            if a not in p.funcs:
                continue
            g = p.funcs[a]
            names = {n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute)} - BUILTIN
            if g.mod.rel not in reach:
                reach[g.mod.rel] = imported(p, g.mod)
            out |= {k for k, f in methods if f.name in names and f.mod.rel in reach[g.mod.rel]}
    return out


def imported(p, mod):
    """Files of the modules the given module imports, directly or not (and its own)."""
    seen, todo = set(), [mod]
    while todo:
        m = todo.pop()
        if m.rel in seen:
            continue
        seen.add(m.rel)
        for q in m.imports.values():
            q = p.canon(q)
            while q and q not in p.modules:
                q = q.rpartition(".")[0]
            # a package stands for itself, not for everything it re-exports
            if q in p.modules and not p.modules[q].rel.endswith("__init__.py"):
                todo.append(p.modules[q])
    return seen


def in_scope(it, keys, files):
    if it.key in keys or it.also & keys or it.via & keys:
        return True
    return it.kind == "shape" and it.file in files


def describe(X, it):
    out = []
    if it.why:
        out.append(it.why)
    for m in it.mismatches[:6]:
        where = ""
        for I in (X.I["cur"],):
            l = I.loc.get(m.b) if isinstance(m.b, C.T) else None
            if l:
                where = " (%s:%s)" % (l[0], l[1])
        out.append("%s%s" % (m.why, where))
        out.append("   expected: %s" % show(m.a))
        out.append("   found:    %s" % show(m.b))
    return out


def show(t):
    return C.show(t, 7, 300) if isinstance(t, C.T) else str(t)


def check(prop, spec, repo, tier, overrides=None):
    pid = prop["id"]
    files = set(prop["anchors"]["files"])
    X = K.Compare(spec, repo, overrides)
    log = []
    X.run()
    anchored, keys = scope(X, files)
    violations = []
    items = und = same = ident = paths = 0
    undecided = []
    if pid != "C20":
        for k, it in sorted(X.res.items()):
            if not in_scope(it, keys, files):
                continue
            items += 1
            paths += it.paths
            ident += bool(it.identical)
            if it.status == HOLDS:
                same += 1
            elif it.status == UNDECIDED:
                und += 1
                undecided.append("%s: %s" % (k, it.why))
            else:
                violations.append({"id": "%s differs from its specification" % k, "loc": it.loc,
                                   "detail": describe(X, it)})
    laws = []
    import laws as L
    for rule in L.load().get(pid, ()):
        for ob in rule(X, tier):
            laws.append(ob)
            if ob.status == VIOLATED and ob.id in {v["id"] for v in violations}:
                continue
            if ob.status == VIOLATED:
                violations.append({"id": ob.id, "loc": ob.loc, "detail": ob.detail})
            elif ob.status == UNDECIDED:
                und += 1
                undecided.append("%s: %s" % (ob.id, "; ".join(ob.detail)[:200]))
    for u in undecided[:20]:
        log.append("undecided: " + u)
    cov = {
        "explanation":
            "Static analysis of /repo/src (no execution). Every function, method, constant, "
            "class shape and re-export in the property's scope is normalised to a value "
            "graph and compared with the graph of the reviewed reference; law rules decide "
            "further obligations from the current source alone.",
        "items": items,
        "items_equal_to_reference_graph": same,
        "items_textually_identical": ident,
        "outcome_paths_compared": paths,
        "law_obligations": len(laws),
        "law_obligations_discharged": sum(1 for o in laws if o.status == HOLDS),
        "obligations": items + len(laws),
        "undecided": und,
        "undecided_list": undecided[:60],
        "modules_parsed": len(X.cur.modules),
        "functions_in_program": len(X.cur.funcs),
        "anchor_items": len(anchored),
        "laws": [{"id": o.id, "status": o.status, "loc": o.loc} for o in laws][:400],
        "samples": sorted(k for k in X.res if in_scope(X.res[k], keys, files))[:40],
    }
    # a vanished anchor is a broken analysis, not a pass
    problems = [p for p in X.problems]
    if pid != "C20" and items == 0:
        problems.append("no item in scope")
    return {"violations": violations, "coverage": cov, "log": log, "problems": problems}


def law_alarms(X, pids=None, tier="quick", known=""):
    """Obligations of the law rules that do not hold (used when measuring false alarms)."""
    import laws as L
    out = []
    for pid, rules in sorted(L.load().items()):
        for r in rules if pids is None or pid in pids else ():
            out += [(o.id, o.status, "law " + pid, [str(d)[:300] for d in o.detail[:3]])
                    for o in r(X, tier) if o.status != HOLDS and " id=%s " % o.id not in known]
    return out

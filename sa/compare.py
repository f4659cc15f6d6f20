"""Function-by-function comparison of the current source with the reviewed reference.

Every function, method, module constant, class shape and re-export of the repository is
brought to a canonical value graph (ev.Interp) and compared with the graph of the same
item in the reference tree.  Outcomes per item:

  HOLDS      the graphs are identical (or the code is the same tree)
  VIOLATED   the graphs differ, and every difference is definite by a rule of diff.py
  UNDECIDED  the graphs differ in a way no rule interprets, or the function is outside the
             language the evaluator models
"""
from __future__ import annotations

import ast
import os

import core as C
import diff as D
import ev
import harm
import loader
import local as L
from core import NIL, NONE, T

HOLDS, VIOLATED, UNDECIDED = "HOLDS", "VIOLATED", "UNDECIDED"
DUNDER_SENSITIVE = {"__eq__", "__hash__", "__bool__", "__len__", "__lt__", "__gt__", "__le__",
                    "__ge__", "__ne__", "__getattribute__", "__getattr__", "__new__",
                    "__setattr__", "__post_init__", "__copy__", "__deepcopy__", "__del__",
                    "__getstate__", "__setstate__", "__reduce__", "__init_subclass__",
                    "__array_ufunc__", "__array_priority__"}
MAX_DEFINITE = 6


class Item:
    """Verdict on one item."""
    __slots__ = ("key", "kind", "status", "mismatches", "why", "loc", "file", "via", "paths",
                 "ref_file", "identical", "also")

    def __init__(self, key, kind, status, why="", mismatches=(), loc="", file="", via=(),
                 paths=0, identical=False):
        self.key, self.kind, self.status, self.why = key, kind, status, why
        self.mismatches = list(mismatches)
        self.loc, self.file, self.via, self.paths = loc, file, set(via), paths
        self.identical = identical
        self.also = set()


def strip_doc(node):
    n = node
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) \
                and isinstance(b[0].value.value, str):
            c = type(n)(**{f: getattr(n, f) for f in n._fields})
            c.body = b[1:] or [ast.Pass()]
            return c
    return n


def dump(node):
    return ast.dump(strip_doc(node))


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(z for z in y if isinstance(z, T))
    return seen


def names_in(t):
    out = set()
    for x in subterms(t):
        if x.op == "glob" and x.a[0].startswith("~"):
            out.add(("g", x.a[0][1:]))
        elif x.op == "meth":
            out.add(("m", x.a[0]))
        elif x.op == "attr":
            out.add(("m", x.a[1]))
    return out


def private(key):
    n = key.split("[")[0].split("/")[-1].split(".")[-1]
    return n.startswith("_") and not n.startswith("__")


DEBUG = bool(os.environ.get("SADEBUG"))


def debug(rnd, ms):
    print("phase", rnd, "cost", D.cost(ms))
    for m in ms:
        print("   ", repr(m)[:700])
        if os.environ.get("SADEBUG") == "2":
            for at, v in m.facts:
                print("        ", v, C.show(at, 9, 300))


class Compare:
    def __init__(self, ref_root, cur_root, overrides=None, ref=None):
        self.ref = ref or loader.Program(ref_root)
        self.cur = loader.Program(cur_root, overrides)
        self.prog = {"ref": self.ref, "cur": self.cur}
        self.nonopaque = set()
        self.cache = {}
        self.extra = set()
        self.full = False
        self.I = {"ref": ev.Interp(self.ref, self._opaque, hints=self.ref),
                  "cur": ev.Interp(self.cur, self._opaque, hints=self.ref)}
        C.EXCLUSIVE.clear()
        C.EXCLUSIVE.update(self._exclusive(self.ref) & self._exclusive(self.cur))
        self.shared = self._shared()
        self.vocab = self._vocab()
        self.items = {}
        self.graphs = {}
        self.problems = []

    def _exclusive(self, prog):
        """Pairs of classes of the repository no object is an instance of both of.
        Only concrete classes: protocols and abstract classes may be combined freely."""
        cs = {}
        for k, c in prog.classes.items():
            ok = all(prog.cls_by_qual(b) is not None or b in ("object", "float")
                     for x in c.mro() for b in x.bases)
            if ok and not any("abstract" in str(d) for f in c.methods.values()
                              for d in f.decos):
                cs["~" + k] = {x.key for x in c.mro()}
        out = set()
        for a, ma in cs.items():
            for b, mb in cs.items():
                if a != b and a[1:] not in mb and b[1:] not in ma and not any(
                        a[1:] in m and b[1:] in m for m in cs.values()):
                    out.add((a, b))
            for t in C.PLAIN:
                if t != "float":
                    out.add((a, t))
                    out.add((t, a))
        return out

    # -- sharing -----------------------------------------------------------
    def _shared(self):
        out = set()
        for k, f in self.ref.funcs.items():
            g = self.cur.funcs.get(k)
            if g is not None and self.compatible(f, g):
                out.add(k)
        for m in self.ref.modules.values():
            for n in m.consts:
                k = "const " + self.ref.fkey(m, n)
                if any(n in m2.consts and "const " + self.cur.fkey(m2, n) == k
                       for m2 in self.cur.modules.values()):
                    out.add(k)
        return out

    def compatible(self, f, g):
        if f.kind != g.kind:
            return False
        fp, gp = self.pnames(f), self.pnames(g)
        if fp == gp:
            return True
        if len(gp) < len(fp):
            return False
        if not f.public or private(f.key):
            return False
        n = [x for x in gp if x not in fp]
        return [x for x in gp if x in fp] == fp and \
            all(self.I_default(g, x) is not None for x in n)

    def I_default(self, f, name):
        return ev.Interp.default_of(None, f, name)

    def pnames(self, f):
        pos, va, kwo, kwa = f.params()
        out = [p.arg for p in pos] + ["|" + p.arg for p in kwo]
        if va:
            out.append("*" + va.arg)
        if kwa:
            out.append("**" + kwa.arg)
        return out

    def _opaque(self, k):
        if self.full:
            return False
        return k in self.shared and k not in self.nonopaque and k not in self.extra

    def _vocab(self):
        names, methods, fields, inner = set(), set(), set(), set()
        for p in (self.ref,):
            for k in p.funcs:
                names.add(k)
            for k, c in p.classes.items():
                names.add(k)
                for n in c.methods:
                    methods.add(n)
                for n, _, _ in c.fields:
                    fields.add(n)
                init = c.methods.get("__init__")
                if init is not None:
                    for x in ast.walk(init.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) \
                                and isinstance(x.value, ast.Name) and x.value.id == "self":
                            fields.add(x.attr)
                for n, f in c.methods.items():
                    if f.kind == "property":
                        fields.add(n)
                # fields a container class stands for: iterating, indexing or measuring it
                # may read them
                for n in ("__iter__", "__len__", "__getitem__", "__contains__", "__array__"):
                    f = c.methods.get(n)
                    if f is not None:
                        inner |= {x.attr for x in ast.walk(f.node)
                                  if isinstance(x, ast.Attribute)
                                  and isinstance(x.value, ast.Name) and x.value.id == "self"}
            for m in p.modules.values():
                for n in m.consts:
                    names.add(p.fkey(m, n))
        floats, owners = set(), {}
        for k, c in self.ref.classes.items():
            mro = frozenset(x.key for x in c.mro())
            for n, an, _ in c.all_fields():
                owners.setdefault(n, set()).add(mro)
                if isinstance(an, ast.Name) and an.id in ("float", "complex", "Parameter"):
                    floats.add(n)
            for n, f in c.methods.items():
                owners.setdefault(n, set()).add(mro)
        return {"names": names, "methods": methods, "fields": fields,
                "inner": inner, "floats": floats, "owners": owners,
                "attrs": fields | methods}

    # -- call graph --------------------------------------------------------
    def graph(self, which):
        """key -> set of repo keys it may reference (over-approximate by attribute name)."""
        if which in self.graphs:
            return self.graphs[which]
        p = self.prog[which]
        g = {}
        for k, f in p.funcs.items():
            g[k] = self.refs(p, f.mod, f.node, f.cls)
        for m in p.modules.values():
            for n, v in m.consts.items():
                g["const " + p.fkey(m, n)] = self.refs(p, m, v, None)
        self.graphs[which] = g
        return g

    def refs(self, p, mod, node, cls):
        out = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.Name, ast.Attribute)):
                q = mod.resolve(x)
                if q and q.startswith(loader.PKG):
                    k = (p.key_of(q) or "").lstrip("~")
                    if k in p.funcs:
                        out.add(k)
                        for r in p.registry.get(q, {}).values():
                            out.add(r.regkey)
                    elif k in p.classes:
                        for n in ("__init__", "__post_init__"):
                            f = p.classes[k].find(n)
                            if f:
                                out.add(f.key)
                    if "const " + k in self.shared or True:
                        r = p.lookup(q)
                        if isinstance(r, tuple):
                            out.add("const " + p.fkey(r[1], r[2]))
            if isinstance(x, ast.Attribute):
                for f in p.methods_by_name.get(x.attr, ()):
                    out.add(f.key)
        return out

    def static_callees(self, which, key):
        """Resolved callees only (names, and methods defined by exactly one class)."""
        p = self.prog[which]
        f = p.funcs.get(key)
        if f is None:
            return set()
        out = set()
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Name, ast.Attribute)):
                q = f.mod.resolve(x)
                if q and q.startswith(loader.PKG):
                    k = (p.key_of(q) or "").lstrip("~")
                    if k in p.funcs:
                        out.add(k)
                        for r in p.registry.get(q, {}).values():
                            out.add(r.regkey)
                    elif k in p.classes:
                        out.add("class " + k)
                        for n in ("__init__", "__post_init__"):
                            g = p.classes[k].find(n)
                            if g:
                                out.add(g.key)
                    r = p.lookup(q)
                    if isinstance(r, tuple):
                        out.add("const " + p.fkey(r[1], r[2]))
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) \
                    and x.value.id in ("self", "cls") and f.cls is not None:
                g = f.cls.find(x.attr)
                if g is not None:
                    out.add(g.key)
        return out

    # -- summaries ---------------------------------------------------------
    def summ(self, which, f, params=None, cls=None, budget=400000):
        I = self.I[which]
        key = None
        if not self.extra and not self.full:
            key = (which, id(f), id(f.cls), tuple(params or ()), frozenset(self.nonopaque))
            if key in self.cache:
                return self.cache[key]
        r = self.summ1(I, f, params, budget)
        if key is not None:
            self.cache[key] = r
        return r

    def summ1(self, I, f, params, budget):
        try:
            r = I.summary(f, params, budget=budget)
            return r, set(I.inlined)
        except (C.Unsupported, RecursionError) as e:
            return "unsupported: " + str(e)[:80], set(I.inlined)
        except Exception as e:      # outside the modelled language
            return "unsupported: %s %s" % (type(e).__name__, str(e)[:60]), set(I.inlined)

    def csumm(self, which, mod, name):
        I = self.I[which]
        I.inlined = set()
        try:
            return I.const_summary(mod, name), set(I.inlined)
        except (C.Unsupported, RecursionError) as e:
            return "unsupported: " + str(e)[:80], set()
        except Exception as e:
            return "unsupported: %s %s" % (type(e).__name__, str(e)[:60]), set()

    def run_pair(self, fr, fc, budget=400000):
        params = [p.lstrip("|") for p in self.pnames(fr) if not p.startswith("*")]
        a, ia = self.summ("ref", fr, params, budget=budget)
        b, ib = self.summ("cur", fc, params, budget=budget)
        return a, b, ia | ib

    def compare_terms(self, run, sparse=False):
        """run() -> (a, b, inlined).  Applies the retry phases."""
        run0 = run

        def run(budget):
            a, b, inl = run0(budget)
            if isinstance(a, T) and isinstance(b, T) and a is not b:
                C.BUDGET[0] = budget
                try:
                    a2, b2, so = harm.harmonise(a, b, sparse)
                except (C.Unsupported, RecursionError):
                    return a, b, inl
                if not so:
                    return a2, b2, inl
                if a2 is b2:
                    same_type[0] = True
                    return a, b, inl
                return a2, b2, inl
            return a, b, inl
        same_type = [False]
        self.extra, self.full = set(), False
        a, b, inl = run(400000)
        if isinstance(a, str) or isinstance(b, str):
            w = a if isinstance(a, str) else b
            return (UNDECIDED, w, [], inl, 0, None)
        npaths = len(C.leaves_of(a)) if isinstance(a, T) else 1
        if a is b:
            return (HOLDS, "", [], inl, npaths, a)
        best = None
        inl_all = set(inl)
        first = (a, b)
        seen_extra = None
        for rnd in range(4):
            ms = D.Differ(self.vocab).diff(a, b)
            cand = (D.cost(ms), rnd, ms, set(inl))
            if DEBUG:
                debug(rnd, ms)
            if not ms:
                self.extra = set()
                return (HOLDS, "equal by case analysis", [], inl_all, npaths, a)
            if best is None or cand[0] < best[0]:
                best = cand
            ex = self.onesided(a, b)
            new = self.extra | ex
            if not ex or new == self.extra:
                break
            self.extra = new
            a, b, inl = run(300000)
            inl_all |= inl
            if isinstance(a, str) or isinstance(b, str):
                break
            if a is b:
                self.extra = set()
                return (HOLDS, "equal after inlining", [], inl_all, npaths, a)
        # confirm: inline everything
        self.full = True
        a, b, inl = run(250000)
        self.full = False
        self.extra = set()
        inl_all |= inl
        if not isinstance(a, str) and not isinstance(b, str):
            if a is b:
                return (HOLDS, "equal after full inlining", [], inl_all, npaths, a)
            ms = D.Differ(self.vocab).diff(a, b)
            if not ms:
                return (HOLDS, "equal by case analysis", [], inl_all, npaths, a)
            cand = (D.cost(ms), 9, ms, set(inl))
            if DEBUG:
                debug(9, ms)
            if cand[0] < best[0]:
                best = cand
        ms = best[2]
        inl_all = best[3]
        if same_type[0]:
            return (UNDECIDED, "equal for arrays", ms, inl_all, npaths, first[1])
        if ms and all(m.definite for m in ms) and len(ms) <= MAX_DEFINITE:
            return (VIOLATED, "", ms, inl_all, npaths, first[1])
        return (UNDECIDED, "differences not interpreted", ms, inl_all, npaths, first[1])

    def onesided(self, a, b):
        na, nb = names_in(a), names_in(b)
        out = set()
        for kind, n in (na ^ nb):
            if kind == "g":
                if n in self.shared:
                    out.add(n)
                if "const " + n in self.shared:
                    out.add("const " + n)
                for suf in ("__init__", "__post_init__"):
                    pass
            else:
                for p in (self.ref, self.cur):
                    for f in p.methods_by_name.get(n, ()):
                        out.add(f.key)
        return out

    # -- items -------------------------------------------------------------
    def cmp_func(self, key):
        fr, fc = self.ref.funcs.get(key), self.cur.funcs.get(key)
        same = dump(fr.node) == dump(fc.node)
        st, why, ms, inl, np_, val = self.compare_terms(
            lambda bud: self.run_pair(fr, fc, bud),
            any(v == "scipy" or v.startswith("scipy.sparse") for v in fc.mod.imports.values()))
        if st == UNDECIDED and same and why.startswith("unsupported"):
            st, why = HOLDS, "same source text (%s)" % why
        if st == UNDECIDED and not same and not (inl & self.nonopaque):
            ws = L.edits(self, fr, fc)
            if ws:
                st, why = VIOLATED, "edited in place: " + "; ".join(ws)
        it = Item(key, "function", st, why, ms, fc.loc, fc.mod.rel,
                  (set() if why.startswith("same source") else inl & self.nonopaque), np_,
                  same)
        return it

    def cmp_const(self, key):
        mr, nr = self.const_at(self.ref, key)
        mc, nc = self.const_at(self.cur, key)
        same = ast.dump(mr.consts[nr]) == ast.dump(mc.consts[nc])

        def run(bud):
            a, ia = self.csumm("ref", mr, nr)
            b, ib = self.csumm("cur", mc, nc)
            return a, b, ia | ib
        st, why, ms, inl, np_, val = self.compare_terms(run)
        if st == UNDECIDED and same and why.startswith("unsupported"):
            st, why = HOLDS, "same source text (%s)" % why
        return Item(key, "constant", st, why, ms, "%s:%d" % (mc.rel, mc.consts[nc].lineno),
                    mc.rel, set() if why.startswith("same source") else inl & self.nonopaque,
                    np_, same)

    def const_at(self, p, key):
        for m in p.modules.values():
            for n in m.consts:
                if "const " + p.fkey(m, n) == key:
                    return m, n
        return None, None

    def const_keys(self, p):
        return {"const " + p.fkey(m, n) for m in p.modules.values() for n in m.consts}

    # -- driver --------------------------------------------------------------
    def run(self, only=None):
        rk, ck = set(self.ref.funcs), set(self.cur.funcs)
        both = sorted(rk & ck)
        cr, cc = self.const_keys(self.ref), self.const_keys(self.cur)
        res = {}
        todo = list(both) + sorted(cr & cc)
        if only is not None:
            todo = [k for k in todo if self.file_of(k) in only]
        callers = {}
        for w in ("ref", "cur"):
            for k, outs in self.graph(w).items():
                for o in outs:
                    callers.setdefault(o, set()).add(k)
        rounds = 0
        # private items that exist on one side only or changed signature are never opaque
        while todo and rounds < 8:
            rounds += 1
            changed = set()
            for k in todo:
                it = self.cmp_const(k) if k.startswith("const ") else self.cmp_func(k)
                if it.status != HOLDS and self.same_matrix(k):
                    it.status, it.mismatches = HOLDS, []
                    it.why = "the same matrix, entry by entry, for all parameter values"
                res[k] = it
                if it.status != HOLDS and private(k.replace("const ", "")) \
                        and k not in self.nonopaque:
                    changed.add(k)
            if not changed:
                break
            self.nonopaque |= changed
            nxt = set()
            for k in changed:
                nxt |= {c for c in callers.get(k, ()) if c in res or
                        c in rk and c in ck or c in cr and c in cc}
            todo = sorted(nxt)
        self.callers = callers
        # absorption of private differences
        for k in sorted(self.nonopaque):
            it = res.get(k)
            if it is None or it.status == HOLDS:
                continue
            cs = [res[c] for c in callers.get(k, ()) if c in res and c != k]
            if not cs:
                continue
            reported = [c for c in cs if c.status == VIOLATED and k in c.via]
            inl = [c for c in cs if k in c.via]
            blocked = [c for c in cs if k not in c.via and self.really_refs(c.key, k)]
            if inl and not blocked and all(c.status == HOLDS for c in inl):
                it.status, it.why, it.mismatches = HOLDS, "absorbed by every caller", []
            elif reported:
                # the difference is visible at the caller; keep as is
                pass
            elif it.status == VIOLATED and any(not c.identical for c in cs) and \
                    not any(c.identical for c in blocked):
                it.status, it.why = UNDECIDED, "private helper whose callers changed too"
        self.res = res
        self.shape(res)
        return res

    def same_matrix(self, k):
        import law_gates
        return law_gates.same_matrix(self, k)

    def file_of(self, k):
        if k.startswith("const "):
            m, _ = self.const_at(self.cur, k)
            return m.rel
        return self.cur.funcs[k].mod.rel

    def really_refs(self, c, k):
        return any(k in self.graph(w).get(c, ()) for w in ("ref", "cur"))

    # -- shapes ----------------------------------------------------------------
    def shape(self, res):
        ref, cur = self.ref, self.cur
        for name in sorted(ref.modules):
            if name not in cur.modules:
                self.problems.append("module %s is gone" % name)
        for k, f in sorted(ref.funcs.items()):
            g = cur.funcs.get(k)
            if g is None:
                if f.cls is not None and f.cls.key in cur.classes:
                    continue            # class comparison
                if "[" in k:
                    self.add(res, "sig " + k, VIOLATED, "registered case %s is gone" % k,
                             f.loc, f.mod.rel)
                elif private(k):
                    continue
                elif f.cls is not None:
                    self.problems.append("class %s is gone" % f.cls.key)
                else:
                    st = VIOLATED if self.exported(ref, f.mod, f.name) else UNDECIDED
                    self.add(res, "sig " + k, st, "function %s is gone" % k, f.loc, f.mod.rel)
                continue
            self.signature(res, k, f, g)
        for k in sorted(cur.funcs):
            if "[" in k and k not in ref.funcs:
                base = k.split("[")[0]
                if any(x.split("[")[0] == base for x in ref.funcs if "[" in x):
                    f = cur.funcs[k]
                    self.add(res, "sig " + k, UNDECIDED, "new registered case " + k, f.loc,
                             f.mod.rel)
        for k, c in sorted(ref.classes.items()):
            d = cur.classes.get(k)
            if d is None:
                if k.split("/")[-1].startswith("_"):
                    continue
                self.problems.append("class %s is gone" % k)
                continue
            self.klass(res, k, c, d)
        for name, m in sorted(ref.modules.items()):
            m2 = cur.modules.get(name)
            if m2 is None or not m.is_pkg:
                continue
            lost = [n for n in m.imports if n not in m2.imports and n not in m2.classes
                    and n not in m2.funcs and n not in m2.consts
                    and not n.startswith("_") and m.imports[n].startswith(loader.PKG)]
            for n in lost:
                if name + "." + n in cur.modules:
                    continue
                self.add(res, "export %s.%s" % (name, n), VIOLATED,
                         "re-export %s of %s is gone" % (n, name), m2.rel + ":1", m2.rel)
            for n in m.imports:
                if n in m2.imports and m.imports[n].startswith(loader.PKG):
                    q1, q2 = ref.key_of(m.imports[n]), cur.key_of(m2.imports[n])
                    if q1 != q2:
                        self.add(res, "export %s.%s" % (name, n), VIOLATED,
                                 "%s exports %s instead of %s" % (name, q2, q1),
                                 m2.rel + ":1", m2.rel)

    def exported(self, p, mod, name):
        if not any(x.startswith("_") for x in mod.name.split(".")):
            return True
        q = mod.name + "." + name
        return any(m.is_pkg and q in [p.canon(v) for v in m.imports.values()]
                   for m in p.modules.values())

    def add(self, res, key, status, why, loc, file):
        it = Item(key, "shape", status, why, [], loc, file)
        res[key] = it
        return it

    def dflt(self, which, f, name):
        d = self.I_default(f, name)
        if d is None:
            return None
        I = self.I[which]
        try:
            I.steps = 0
            C.BUDGET[0] = 50000
            I.stack = []
            fr = ev.Frame(f.mod, f.cls)
            st = ev.State()
            return I.escape(I.val(d, fr, st), fr, st)
        except Exception:
            return ast.dump(d)

    def signature(self, res, k, f, g):
        fp = [p.lstrip("|") for p in self.pnames(f)]
        gp = [p.lstrip("|") for p in self.pnames(g)]
        probs = []
        if f.kind != g.kind:
            if {f.kind, g.kind} & {"property"} and not private(k):
                probs.append((True, "%s became %s" % (f.kind, g.kind)))
            else:
                probs.append((False, "%s became %s" % (f.kind, g.kind)))
        elif not private(k):
            common = [x for x in gp if x in fp]
            if set(fp) <= set(gp):
                if common != fp and [x for x in fp if x in common] != common:
                    probs.append((True, "parameter order changed"))
                new = [x for x in gp if x not in fp and not x.startswith("*")]
                if any(self.I_default(g, x) is None for x in new):
                    probs.append((len(gp) > len(fp), "new required parameter"))
                elif new and gp[:len(fp)] != fp and not fp[-1:] == ["**kwargs"]:
                    probs.append((False, "new parameter in the middle"))
            else:
                probs.append((False, "parameters renamed or removed"))
            for x in fp:
                if x in gp and not x.startswith("*"):
                    a, b = self.dflt("ref", f, x), self.dflt("cur", g, x)
                    if a is b or a == b:
                        continue
                    if b is None:
                        probs.append((True, "default of %s removed" % x))
                    elif a is None:
                        probs.append((False, "default of %s added" % x))
                    elif isinstance(a, T) and isinstance(b, T):
                        ms = D.Differ(self.vocab).diff(a, b)
                        probs.append((all(m.definite for m in ms),
                                      "default of %s is %s, was %s" % (
                                          x, C.show(b, 5, 60), C.show(a, 5, 60))))
                    else:
                        probs.append((False, "default of %s changed" % x))
        df, dg = self.decos(f), self.decos(g)
        if df != dg:
            add = dg - df
            lost = df - dg
            if any("cache" in x for x in add) and self.mutable_result(g):
                from law_effects import hands_out
                # (the second form: a result that never leaves its callers is left undecided)
                probs.append((hands_out(self, k), "memoised although it returns a mutable object"))
            elif any(x.split(".")[-1] in ("singledispatch", "abstractmethod", "property",
                                          "total_ordering", "contextmanager")
                     for x in lost):
                probs.append((False, "decorator lost: %s" % sorted(lost)))
            else:
                probs.append((False, "decorators %s -> %s" % (sorted(df), sorted(dg))))
        for definite, why in probs:
            it = self.add(res, "sig %s#%s" % (k, why[:30]), VIOLATED if definite else UNDECIDED,
                          "%s: %s" % (k, why), g.loc, g.mod.rel)
            it.also.add(k)

    def decos(self, f):
        return {d for d in f.decos if d.split(".")[-1] not in ("overload", "wraps",
                                                               "deprecated")}

    def mutable_result(self, f):
        """Does the function return a container or array it builds?"""
        for x in ast.walk(f.node):
            if isinstance(x, ast.Return) and x.value is not None:
                v = x.value
                if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
                                  ast.SetComp)):
                    return True
                if isinstance(v, ast.Call):
                    q = f.mod.resolve(v.func) or ""
                    if q in ("list", "dict", "set", "bytearray") or q.startswith("numpy.") \
                            or q in ("sympy.Matrix", "sympy.zeros", "sympy.eye"):
                        return True
                    if isinstance(v.func, ast.Attribute) and v.func.attr in (
                            "copy", "astype", "tolist", "reshape"):
                        return True
        return False

    def klass(self, res, k, c, d):
        probs = []
        m1 = {x.key for x in c.mro()}
        m2 = {x.key for x in d.mro()}
        lost = m1 - m2
        if lost:
            probs.append((True, "no longer derives from %s" % sorted(lost)))
        if c.is_dataclass and d.is_dataclass:
            k1 = {n.split(".")[-1]: kw for n, kw in c.decos}.get("dataclass", ())
            k2 = {n.split(".")[-1]: kw for n, kw in d.decos}.get("dataclass", ())
            s1 = {a: b for a, b in k1 if a not in ("repr", "slots", "kw_only")}
            s2 = {a: b for a, b in k2 if a not in ("repr", "slots", "kw_only")}
            std = {"eq": "Constant(value=True)", "frozen": "Constant(value=False)",
                   "order": "Constant(value=False)", "unsafe_hash": "Constant(value=False)",
                   "init": "Constant(value=True)"}
            for a in std:
                if s1.get(a, std[a]) != s2.get(a, std[a]):
                    probs.append((True, "dataclass option %s changed" % a))
            f1 = [n for n, an, dv in c.all_fields() if not self.classvar(an)]
            f2 = [n for n, an, dv in d.all_fields() if not self.classvar(an)]
            if f1 != f2:
                if sorted(f1) == sorted(f2):
                    probs.append((True, "field order changed"))
                elif set(f1) - set(f2):
                    probs.append((False, "fields renamed or removed"))
                else:
                    new = [x for x in f2 if x not in f1]
                    probs.append((False, "new fields %s" % new))
            dv1 = {n: dv for n, an, dv in c.all_fields()}
            dv2 = {n: dv for n, an, dv in d.all_fields()}
            for n in f1:
                if n in dv2:
                    x, y = dv1[n], dv2[n]
                    if (x is None) != (y is None):
                        probs.append((x is not None, "default of field %s %s" % (
                            n, "lost" if x is not None else "added")))
                    elif x is not None and ast.dump(x) != ast.dump(y):
                        a = self.expr("ref", c.mod, x)
                        b = self.expr("cur", d.mod, y)
                        if a is not b:
                            ms = D.Differ(self.vocab).diff(a, b) if isinstance(a, T) and \
                                isinstance(b, T) else [D.Mismatch(a, b, False, "")]
                            sens = any(isinstance(z, ast.Call) and any(
                                kw.arg in ("compare", "hash", "init") and
                                isinstance(kw.value, ast.Constant) and not kw.value.value
                                for kw in z.keywords) for z in (x, y))
                            probs.append((sens or all(m.definite for m in ms),
                                          "default of field %s changed" % n))
                    elif x is None and y is None:
                        pass
        elif c.is_dataclass != d.is_dataclass:
            probs.append((False, "dataclass decorator %s" % (
                "lost" if c.is_dataclass else "added")))
        d1 = {n.split(".")[-1] for n, _ in c.decos} - {"dataclass"}
        d2 = {n.split(".")[-1] for n, _ in d.decos} - {"dataclass"}
        if d1 != d2:
            probs.append((bool({"total_ordering"} & (d1 ^ d2)), "decorators changed"))
        names1 = {n for x in c.mro() for n in x.methods}
        names2 = {n for x in d.mro() for n in x.methods}
        for n in sorted(names1 - names2):
            if n.startswith("_") and not n.startswith("__"):
                continue
            if n in self.field_like(d):
                continue
            probs.append((True, "method %s is gone" % n))
        for n in sorted(names2 - names1):
            if n in DUNDER_SENSITIVE:
                probs.append((n not in ("__getattr__", "__post_init__", "__new__",
                                        "__init_subclass__"), "new special method %s" % n))
        for definite, why in probs:
            it = self.add(res, "class %s#%s" % (k, why[:40]),
                          VIOLATED if definite else UNDECIDED, "class %s: %s" % (k, why),
                          "%s:%d" % (d.mod.rel, d.node.lineno), d.mod.rel)
            it.also.add("class " + k)
        # overriding added or removed
        for n in sorted(names1 & names2):
            fr, fc = c.find(n), d.find(n)
            if fr.key == fc.key:
                continue
            if fr.cls.key != k and fc.cls.key != k and fr.cls.key in self.cur.classes and \
                    fc.cls.key in self.ref.classes:
                continue        # reported where it is defined
            self.override(res, k, n, fr, fc, c, d)
        for n in sorted(set(c.attrs) | set(d.attrs)):
            if n.startswith("__") and n != "__hash__":
                continue
            x, y = c.attrs.get(n), d.attrs.get(n)
            if x is not None and y is not None:
                if ast.dump(x) == ast.dump(y):
                    continue
                a, b = self.expr("ref", c.mod, x), self.expr("cur", d.mod, y)
                if a is b:
                    continue
                ok = isinstance(a, T) and isinstance(b, T) and all(
                    m.definite for m in D.Differ(self.vocab).diff(a, b))
            else:
                ok = n == "__hash__"
            it = self.add(res, "class %s.%s" % (k, n), VIOLATED if ok else UNDECIDED,
                          "class attribute %s.%s changed" % (k, n),
                          "%s:%d" % (d.mod.rel, d.node.lineno), d.mod.rel)
            it.also.add("class " + k)

    def override(self, res, k, n, fr, fc, c, d):
        """Method n of class k is found at a different place than in the reference."""
        key = "override %s.%s" % (k, n)
        if fr.kind != fc.kind:
            self.add(res, key, UNDECIDED, "%s.%s: %s became %s" % (k, n, fr.kind, fc.kind),
                     fc.loc, fc.mod.rel).also.add(fr.key)
            return
        oc, od = fr.cls, fc.cls
        fr.cls, fc.cls = c, d
        try:
            st, why, ms, inl, np_, _ = self.compare_terms(
                lambda bud: self.run_pair(fr, fc, bud))
        finally:
            fr.cls, fc.cls = oc, od
        if st == HOLDS:
            return
        it = self.add(res, key, st, why or "%s.%s comes from %s instead of %s" % (
            k, n, fc.key, fr.key), fc.loc, fc.mod.rel)
        it.mismatches = ms
        it.also.add(fr.key)
        it.also.add(fc.key)
        it.also.add("class " + k)

    def field_like(self, c):
        out = {n for n, _, _ in c.all_fields()}
        for x in c.mro():
            out |= set(x.attrs)
        return out

    def classvar(self, an):
        return an is not None and "ClassVar" in ast.dump(an)

    def expr(self, which, mod, node):
        I = self.I[which]
        try:
            I.steps = 0
            C.BUDGET[0] = 50000
            I.stack = []
            fr = ev.Frame(mod)
            st = ev.State()
            return I.escape(I.val(node, fr, st), fr, st)
        except Exception:
            return ast.dump(node)

"""Parse a source tree and resolve names, classes, decorators and registries."""
from __future__ import annotations

import ast
import builtins
import hashlib
import os

BUILTINS = set(dir(builtins))
SKIP_DIRS = {"testing"}
PKG = "orquestra.quantum"
SKIP_FILES = {"circuit_runner_contracts.py", "estimator_contract.py",
              "wavefunction_simulator_contracts.py", "_testing.py"}


class Func:
    def __init__(self, prog, mod, cls, node, name=None):
        self.prog = prog
        self.mod = mod
        self.cls = cls
        self.node = node
        self.name = name or node.name
        self.decos = []
        self.kind = "function" if cls is None else "method"
        self.cached = None
        self.ctx = False
        for d in node.decorator_list:
            n = mod.resolve(d.func if isinstance(d, ast.Call) else d) or ast.dump(d)
            self.decos.append(n)
            last = n.split(".")[-1]
            if last == "property":
                self.kind = "property"
            elif last == "staticmethod":
                self.kind = "static"
            elif last == "classmethod":
                self.kind = "classmethod"
            elif last in ("lru_cache", "cache", "cached_property"):
                self.cached = last
                if last == "cached_property":
                    self.kind = "property"
            elif last == "contextmanager":
                self.ctx = True
        if isinstance(node, ast.FunctionDef):
            self.is_gen = _is_gen(node)

    @property
    def key(self):
        if self.cls is not None:
            return self.cls.key + "." + self.name
        return self.prog.fkey(self.mod, self.name)

    @property
    def public(self):
        parts = self.key.split(".")
        for p in parts[-2:] if self.cls is not None else parts[-1:]:
            if p.startswith("_") and not (p.startswith("__") and p.endswith("__")):
                return False
        return True

    @property
    def loc(self):
        return "%s:%d" % (self.mod.rel, self.node.lineno)

    def params(self):
        a = self.node.args
        pos = [x for x in a.posonlyargs + a.args]
        return pos, a.vararg, a.kwonlyargs, a.kwarg

    def __repr__(self):
        return "<Func %s>" % self.key


def _is_gen(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    def __init__(self, prog, mod, node):
        self.prog = prog
        self.mod = mod
        self.node = node
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        self.fields = []        # (name, annotation, default)
        self.decos = []
        self.bases = []
        self.dups = []

    @property
    def key(self):
        return self.prog.fkey(self.mod, self.name)

    def finish(self):
        m = self.mod
        for d in self.node.decorator_list:
            n = m.resolve(d.func if isinstance(d, ast.Call) else d) or "?"
            kws = ()
            if isinstance(d, ast.Call):
                kws = tuple(sorted((k.arg or "**", ast.dump(k.value)) for k in d.keywords))
            self.decos.append((n, kws))
        self.bases = [m.resolve(b) or "?" for b in
                      (x.value if isinstance(x, ast.Subscript) else x
                       for x in self.node.bases)]
        for st in self.node.body:
            if isinstance(st, ast.FunctionDef):
                f = Func(self.prog, m, self, st)
                nm = st.name
                if any(d.endswith(".setter") for d in f.decos):
                    nm = st.name + "=set"
                    f.name = nm
                self.methods[nm] = f
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, st.annotation, st.value))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value

    @property
    def is_dataclass(self):
        return any(n.split(".")[-1] == "dataclass" for n, _ in self.decos) or \
            "typing.NamedTuple" in self.bases

    def mro(self):
        out = [self]
        for b in self.bases:
            c = self.prog.cls_by_qual(b)
            if c is not None:
                for x in c.mro():
                    if x not in out:
                        out.append(x)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def all_fields(self):
        out = []
        for c in reversed(self.mro()):
            for f in c.fields:
                out = [g for g in out if g[0] != f[0]] + [f]
        return out


class Module:
    def __init__(self, prog, path, rel, name):
        self.prog = prog
        self.path = path
        self.rel = rel
        self.name = name
        self.is_pkg = rel.endswith("__init__.py")
        src = prog.overrides.get(rel[4:])
        if src is None:
            src = open(path, encoding="utf-8").read()
        self.src = src
        self.tree = ast.parse(src, filename=path)
        self.digest = hashlib.sha256(ast.dump(self.tree).encode()).hexdigest()
        self.imports = {}
        self.funcs = {}
        self.classes = {}
        self.consts = {}
        self.registrations = []
        self.top = []
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = self._base(st)
                for a in st.names:
                    self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(st, (ast.Try,)):
                self._scan(st.body)
                # fall-back imports in handlers do not override
                continue
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = st
            elif isinstance(st, ast.FunctionDef):
                self.top.append(st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = st.value
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple):
                        for x, v in zip(t.elts, st.value.elts):
                            if isinstance(x, ast.Name):
                                self.consts[x.id] = v
            elif isinstance(st, ast.AnnAssign) and st.value is not None \
                    and isinstance(st.target, ast.Name):
                self.consts[st.target.id] = st.value

    def _base(self, st):
        if st.level == 0:
            return st.module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def finish(self):
        for n, node in list(self.classes.items()):
            c = Cls(self.prog, self, node)
            self.classes[n] = c
        for st in self.top:
            f = Func(self.prog, self, None, st)
            reg = None
            for d in st.decorator_list:
                base = d.func if isinstance(d, ast.Call) else d
                if isinstance(base, ast.Attribute) and base.attr == "register":
                    reg = (base.value, d.args[0] if isinstance(d, ast.Call) and d.args
                           else (st.args.args[0].annotation if st.args.args else None))
            if reg is not None:
                self.registrations.append((f, reg))
            else:
                self.funcs[st.name] = f

    def resolve(self, node):
        """Dotted qualified name of a Name/Attribute expression (or None)."""
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve(ast.parse(node.value, mode="eval").body)
            except SyntaxError:
                return None
        if isinstance(node, ast.Name):
            return self.resolve_name(node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve(node.value)
            if b is None:
                return None
            return self.prog.canon(b + "." + node.attr)
        return None

    def resolve_name(self, n):
        if n in self.classes or n in self.funcs or n in self.consts or \
                any(f.node.name == n for f, _ in self.registrations) or \
                any(st.name == n for st in self.top):
            return self.prog.canon(self.name + "." + n)
        if n in self.imports:
            return self.prog.canon(self.imports[n])
        if n in BUILTINS:
            return n
        return None


class Program:
    def __init__(self, root, overrides=None):
        """root: directory that contains orquestra/quantum"""
        self.root = root
        self.overrides = overrides or {}
        self.modules = {}
        base = os.path.join(root, "orquestra", "quantum")
        if not os.path.isdir(base):
            raise FileNotFoundError(base)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in SKIP_DIRS and d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py") or f in SKIP_FILES:
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                self.modules[name] = Module(self, p, "src/" + rel, name)
        # uniqueness of top-level names
        self.count = {}
        for m in self.modules.values():
            names = set(m.classes) | {st.name for st in m.top} | set(m.consts)
            for n in names:
                self.count.setdefault(n, []).append(m.name)
        self._canon = {}
        for m in self.modules.values():
            m.finish()
        for m in self.modules.values():
            for c in m.classes.values():
                c.finish()
        self.funcs = {}
        self.classes = {}
        for m in self.modules.values():
            for f in m.funcs.values():
                self.funcs[f.key] = f
            for c in m.classes.values():
                self.classes[c.key] = c
                for f in c.methods.values():
                    self.funcs[f.key] = f
        self.registry = {}
        for m in self.modules.values():
            for f, (basen, tyn) in m.registrations:
                b = m.resolve(basen)
                bk = self.key_of(b) if b else "?"
                ty = m.resolve(tyn) if tyn is not None else None
                if ty is None and tyn is not None:
                    ty = ast.dump(tyn)
                tk = self.key_of(ty) if ty else "?"
                f.name = f.node.name
                f.regkey = "%s[%s]" % (bk, tk)
                self.registry.setdefault(bk, {})[tk] = f
                self.funcs[f.regkey] = f
        self.methods_by_name = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.methods_by_name.setdefault(n, []).append(f)

    # -- naming ----------------------------------------------------------
    def fkey(self, mod, name):
        if len(self.count.get(name, ())) <= 1:
            return name
        return mod.name[len(PKG) + 1:] + "/" + name

    def canon(self, q):
        """Follow re-exports: orquestra.quantum.circuits.X -> defining module."""
        if not q.startswith(PKG):
            return q
        seen = set()
        while q not in seen:
            seen.add(q)
            if q in self.modules:
                return q
            mod, _, n = q.rpartition(".")
            m = self.modules.get(mod)
            if m is None:
                # attribute of class?
                return q
            if n in m.classes or any(s.name == n for s in m.top) or n in m.consts:
                return q
            if n in m.imports:
                q = m.imports[n]
                if not q.startswith(PKG):
                    return q
                continue
            if mod + "." + n in self.modules:
                return q
            return q
        return q

    def key_of(self, q):
        """Stable key of a qualified name."""
        if q is None:
            return None
        if not q.startswith(PKG + "."):
            return q
        q = self.canon(q)
        if not q.startswith(PKG + "."):
            return q
        mod, _, n = q.rpartition(".")
        if mod in self.modules:
            return "~" + self.fkey(self.modules[mod], n)
        # Class.attr
        mod2, _, c = mod.rpartition(".")
        if mod2 in self.modules:
            return "~" + self.fkey(self.modules[mod2], c) + "." + n
        return q

    def lookup(self, q):
        """Qualified name -> Func | Cls | ('const', module, name) | None"""
        q = self.canon(q)
        mod, _, n = q.rpartition(".")
        m = self.modules.get(mod)
        if m is None:
            mod2, _, c = mod.rpartition(".")
            m2 = self.modules.get(mod2)
            if m2 is not None and c in m2.classes:
                f = m2.classes[c].find(n)
                if f is not None:
                    return f
            return None
        if n in m.classes:
            return m.classes[n]
        if n in m.funcs:
            return m.funcs[n]
        for f, _ in m.registrations:
            if f.node.name == n:
                return f
        if n in m.consts:
            return ("const", m, n)
        return None

    def cls_by_qual(self, q):
        r = self.lookup(q) if q and q.startswith(PKG) else None
        return r if isinstance(r, Cls) else None

"""Front end: parses the real source of /repo/estrade on every run.

Nothing is rewritten: functions are executed symbolically from the very AST that
CPython compiles.  What the front end drops: docstrings, annotations (used only as a
type hint for otherwise undeclared fields), `if TYPE_CHECKING:` blocks, decorators
other than property / staticmethod / classmethod / setter.
"""
import ast
import os


class Func:
    __slots__ = ("name", "qual", "node", "module", "cls", "kind", "is_gen", "path", "closure")

    def __init__(self, name, qual, node, module, cls, kind, path):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.cls, self.kind, self.path = cls, kind, path
        self.is_gen = _has_yield(node)
        self.closure = None

    def __repr__(self):
        return f"<Func {self.qual}>"


def _has_yield(fn):
    if isinstance(fn, ast.Lambda):
        return False
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    def __init__(self, name, qual, node, module):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.bases = []          # list of Cls or str (external)
        self.methods = {}        # name -> Func
        self.props = {}          # name -> {"get": Func, "set": Func}
        self.consts = {}         # name -> ast expr
        self.enum_members = None  # ordered list of (name, value expr)
        self._mro = None

    def __repr__(self):
        return f"<Cls {self.qual}>"

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, Cls)]
            seqs.append([b for b in self.bases if isinstance(b, Cls)])
            res = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise ValueError("mro " + self.qual)
                res.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = res
        return self._mro

    def is_sub(self, other):
        return other in self.mro()

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if isinstance(b, str)]
        return out

    def lookup(self, name):
        """-> ('method'|'prop'|'const', owner, obj) or None"""
        for c in self.mro():
            if name in c.props:
                return "prop", c, c.props[name]
            if name in c.methods:
                return "method", c, c.methods[name]
            if name in c.consts:
                return "const", c, c.consts[name]
        return None

    @property
    def is_enum(self):
        return "Enum" in self.ext_bases()

    @property
    def is_exc(self):
        return any(b in ("Exception", "BaseException") or b.endswith("Error") for b in self.ext_bases())


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.globals = {}   # name -> ('func',Func)|('class',Cls)|('import',dotted)|('expr',ast)


class Program:
    def __init__(self, root="/repo", package="estrade", extra=None):
        self.root, self.package = root, package
        self.modules, self.classes, self.funcs = {}, {}, {}
        self.files = []
        base = os.path.join(root, package)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].split(os.sep)
                    if rel[-1] == "__init__":
                        rel = rel[:-1]
                    self._load(".".join(rel), p)
        for name, p in (extra or {}).items():
            self._load(name, p)
        for c in self.classes.values():
            self._resolve_bases(c)

    def _load(self, name, path):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        m = Module(name, path, tree)
        self.modules[name] = m
        self.files.append(path)
        self._scan(m, tree.body)

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = Func(s.name, f"{m.name}.{s.name}", s, m, None, "function", m.path)
                m.globals[s.name] = ("func", fn)
                self.funcs[fn.qual] = fn
            elif isinstance(s, ast.ClassDef):
                c = self._cls(m, s)
                m.globals[s.name] = ("class", c)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.globals[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    m.globals[a.asname or a.name] = ("import", (s.module or "") + "." + a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = ("expr", s.value)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    m.globals[s.target.id] = ("expr", s.value)
            elif isinstance(s, ast.If):
                if isinstance(s.test, ast.Name) and s.test.id == "TYPE_CHECKING":
                    # names only needed for annotations; keep as imports for lookups
                    for x in s.body:
                        if isinstance(x, ast.ImportFrom):
                            for a in x.names:
                                m.globals.setdefault(a.asname or a.name, ("import", (x.module or "") + "." + a.name))
                else:
                    self._scan(m, s.body)
            elif isinstance(s, ast.Try):
                self._scan(m, s.body)

    def _cls(self, m, node):
        c = Cls(node.name, f"{m.name}.{node.name}", node, m)
        self.classes[c.qual] = c
        c._base_exprs = node.bases
        members = []
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                kind, prop = "method", None
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        prop = "get"
                    elif isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                        kind = d.id
                    elif isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                        prop = {"setter": "set", "getter": "get", "deleter": "del"}[d.attr]
                q = f"{c.qual}.{s.name}" + (".setter" if prop == "set" else "")
                fn = Func(s.name, q, s, m, c, kind if not prop else "method", m.path)
                self.funcs[q] = fn
                if prop:
                    c.props.setdefault(s.name, {})[prop] = fn
                else:
                    c.methods[s.name] = fn
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        # alias of a property/method:  x = y ; property(...) objects
                        v = s.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                            d = {}
                            for k, a in zip(("get", "set"), v.args):
                                if isinstance(a, ast.Name) and a.id in c.methods:
                                    d[k] = c.methods[a.id]
                            for kw in v.keywords:
                                k = {"fget": "get", "fset": "set"}.get(kw.arg)
                                if k and isinstance(kw.value, ast.Name) and kw.value.id in c.methods:
                                    d[k] = c.methods[kw.value.id]
                            c.props[t.id] = d
                        else:
                            c.consts[t.id] = v
                            members.append((t.id, v))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.consts[s.target.id] = s.value
        c._members = members
        return c

    def resolve_global(self, mod, name):
        """Resolve a module-level name to ('func'|'class'|'module'|'ext'|'expr', obj)."""
        seen = 0
        while True:
            seen += 1
            if seen > 20:
                return None
            if name not in mod.globals:
                return None
            k, v = mod.globals[name]
            if k == "func":
                return "func", v
            if k == "class":
                return "class", v
            if k == "expr":
                return "expr", (mod, v)
            # import
            if v in self.modules:
                return "module", self.modules[v]
            if "." in v:
                pm, pn = v.rsplit(".", 1)
                if pm in self.modules:
                    mod, name = self.modules[pm], pn
                    if name not in mod.globals and f"{pm}.{pn}" in self.modules:
                        return "module", self.modules[f"{pm}.{pn}"]
                    continue
            return "ext", v

    def _resolve_bases(self, c):
        for b in c._base_exprs:
            if isinstance(b, ast.Name):
                r = self.resolve_global(c.module, b.id)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                    continue
                if r and r[0] == "ext":
                    c.bases.append(r[1].split(".")[-1])
                    continue
                c.bases.append(b.id)
            elif isinstance(b, ast.Attribute):
                c.bases.append(b.attr)
        if c.is_enum:
            c.enum_members = c._members

    def cls(self, name):
        """find class by short name or qualified name"""
        if name in self.classes:
            return self.classes[name]
        hits = [c for c in self.classes.values() if c.name == name]
        if len(hits) == 1:
            return hits[0]
        if not hits:
            raise KeyError(name)
        raise KeyError("ambiguous class " + name)

    def func(self, path):
        """'Trade.close' / 'Tick.ask.setter' / module-level 'estrade.x.f' -> Func (via MRO)"""
        if path in self.funcs:
            return self.funcs[path]
        parts = path.split(".")
        try:
            c = self.cls(parts[0])
        except KeyError:
            return None
        r = c.lookup(parts[1])
        if r is None:
            return None
        if r[0] == "method":
            return r[2]
        if r[0] == "prop":
            return r[2].get("set" if len(parts) > 2 and parts[2] == "setter" else "get")
        return None

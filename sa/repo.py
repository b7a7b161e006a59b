"""Loads the analysed repository: syntax trees, module tables, name resolution."""
from __future__ import annotations
import ast, os, hashlib
from .norm import normalise

REPO = os.environ.get("SA_REPO", "/repo")


class AnalysisBroken(Exception):
    """a required anchor vanished or the source does not parse: error exit, never a silent pass"""


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = normalise(ast.parse(src, filename=path))
        self.funcs = {}
        self.classes = {}
        self.imports = {}      # local name -> (module, attr|None)
        self.consts = {}       # module-level simple assignments: name -> ast expr
        pkg = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    p = pkg.split(".")
                    p = p[: len(p) - (n.level - 1)]
                    base = ".".join(p + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = (base, a.name)
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = n
                n._mod = self
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
                n._mod = self
                for m in n.body:
                    if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        m._mod = self
                        m._cls = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect(n.body)
                self._collect(getattr(n, "orelse", []))


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.by_path = {}
        pk = os.path.join(self.root, "finmlkit")
        if not os.path.isdir(pk):
            raise AnalysisBroken("package directory finmlkit/ not found")
        files = []
        for d, ds, fs in os.walk(pk):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    files.append(os.path.join(d, f))
        sc = os.path.join(self.root, "scripts")
        if os.path.isdir(sc):
            for f in sorted(os.listdir(sc)):
                if f.endswith(".py"):
                    files.append(os.path.join(sc, f))
        h = hashlib.sha256()
        for p in files:
            rel = os.path.relpath(p, self.root)
            src = open(p, encoding="utf-8").read()
            h.update(rel.encode() + b"\0" + src.encode() + b"\0")
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            try:
                m = Module(name, rel, src)
            except SyntaxError as e:
                raise AnalysisBroken(f"{rel} does not parse: {e}")
            self.modules[name] = m
            self.by_path[rel] = m
        self.digest = h.hexdigest()[:16]

    # -- lookup ----------------------------------------------------------------
    def func(self, modname, fname, required=True):
        """the function `fname` of module `modname`; if it moved, follow re-imports, then look for a unique
        definition of that name elsewhere in the package."""
        r = self.resolve(modname, fname)
        if r and r[0] == "func":
            return r[1]
        hits = [m.funcs[fname] for n, m in self.modules.items() if fname in m.funcs]
        if len(hits) == 1:
            return hits[0]
        if required:
            raise AnalysisBroken(f"anchor function {modname}.{fname} not found")
        return None

    def cls(self, modname, cname, required=True):
        r = self.resolve(modname, cname)
        if r and r[0] == "class":
            return r[1]
        hits = [m.classes[cname] for n, m in self.modules.items() if cname in m.classes]
        if len(hits) == 1:
            return hits[0]
        if required:
            raise AnalysisBroken(f"anchor class {modname}.{cname} not found")
        return None

    def resolve(self, modname, name, depth=0):
        """-> ('func', node) | ('class', node) | ('const', expr, mod) | ('module', name) | ('ext', dotted)"""
        m = self.modules.get(modname)
        if m is None or depth > 8:
            return None
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.imports:
            base, attr = m.imports[name]
            if attr is None:
                return ("module", base)
            full = base + "." + attr
            if full in self.modules:
                return ("module", full)
            if base in self.modules:
                return self.resolve(base, attr, depth + 1)
            return ("ext", full)
        if name in m.consts:
            return ("const", m.consts[name], m)
        return None

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            for b in c.bases:
                if isinstance(b, ast.Name):
                    r = self.resolve(c._mod.name, b.id)
                    if r and r[0] == "class":
                        todo.append(r[1])
        return out

    def method(self, cls, name):
        for c in self.mro(cls):
            for m in c.body:
                if isinstance(m, ast.FunctionDef) and m.name == name:
                    return m
        return None

    def methods(self, cls):
        out = {}
        for c in reversed(self.mro(cls)):
            for m in c.body:
                if isinstance(m, ast.FunctionDef):
                    out[m.name] = m
        return out


def deco_names(fn):
    return [ast.unparse(d) for d in fn.decorator_list]


def is_njit(fn):
    return any(("njit" in d or "jit(" in d) for d in deco_names(fn))


def is_parallel(fn):
    for d in fn.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == "parallel" and isinstance(k.value, ast.Constant) and k.value.value is True:
                    return True
    return False


def docless(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body

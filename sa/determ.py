"""Does a result depend on something that changes from run to run?  A taint analysis: the iteration order of sets and directory
listings, the completion order of workers, clocks, random numbers, object identities and string hashes are sources; values that
callers can observe (results, attributes, constructor arguments) are sinks; sorting and order-free reductions end the taint."""
from __future__ import annotations
import ast
from .repo import docless
from .effects import params, is_static, is_prop, public

RANK = {None: 0, "set": 1, "dord": 2, "ord": 3, "val": 4}
CLEAN = {"sorted", "len", "min", "max", "any", "all", "sum", "bool", "isinstance", "hasattr", "print", "range", "type", "int_", "issubclass", "callable"}
CLEAN_METHODS = {"sort_index", "sort_values", "nunique", "count", "intersection_size", "isdisjoint", "issubset", "issuperset", "discard", "index", "exists", "info", "debug", "warning", "error", "critical", "exception"}
UNORDERED = {"as_completed", "imap_unordered", "listdir", "scandir", "iterdir", "glob", "iglob", "rglob", "walk"}
CLOCKS = {"time.time", "time.perf_counter", "time.monotonic", "time.time_ns", "time.perf_counter_ns", "time.process_time", "datetime.now", "datetime.utcnow", "datetime.today", "datetime.datetime.now", "dt.datetime.now",
          "datetime.datetime.utcnow", "pd.Timestamp.now", "pd.Timestamp.utcnow", "pd.Timestamp.today", "date.today", "os.urandom", "uuid.uuid4", "uuid.uuid1", "os.getpid", "threading.get_ident", "Timestamp.now"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "copy"}


class V:
    __slots__ = ("k", "e", "why")

    def __init__(self, k=None, e=None, why=None):
        self.k, self.e, self.why = k, e, why

    def key(self):
        return (self.k, self.e.key() if self.e is not None else None, self.why)


N0 = V()


def up(a, b):
    if a is None or b is None:
        return a or b
    hi = a if RANK[a.k] >= RANK[b.k] else b
    return V(hi.k, up(a.e, b.e) if a.e is not None or b.e is not None else None, hi.why or a.why or b.why)


def taint(*vs):
    """a value computed from these in an order-sensitive way"""
    r = N0
    for v in vs:
        if v is None:
            continue
        if v.k in ("ord", "val"):
            r = up(r, V(v.k, None, v.why))
        elif v.e is not None and v.e.k == "val":
            r = up(r, V("val", None, v.e.why))
    return r


def listed(v):
    """order-sensitive view of a collection: list(v), a loop, ..."""
    if v.k in ("set", "dord"):
        return V("ord", v.e, v.why)
    return v


class Determ:
    def __init__(self, repo, prefix=("finmlkit",)):
        self.repo = repo
        self.fns = []
        self.ret = {}
        self.field = {}            # (class name in mro root, attr) -> V
        self.sub = {}
        for m in repo.modules.values():
            if not m.name.startswith(tuple(prefix)):
                continue
            for f in m.funcs.values():
                self.fns.append((f, None))
            for c in m.classes.values():
                for b in repo.mro(c):
                    self.sub.setdefault(id(b), []).append(c)
                for f in c.body:
                    if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        self.fns.append((f, c))
        self.sinks = {}
        for _ in range(6):
            before = ({k: v.key() for k, v in self.ret.items()}, {k: v.key() for k, v in self.field.items()})
            self.sinks = {}
            self.sources = 0
            for f, c in self.fns:
                D(self, f, c).run()
            if before == ({k: v.key() for k, v in self.ret.items()}, {k: v.key() for k, v in self.field.items()}):
                break

    def getfield(self, cls, attr):
        r = None
        for c in self.repo.mro(cls) + self.sub.get(id(cls), []):
            r = up(r, self.field.get((id(c), attr)))
        return r or N0

    def byattr(self, attr):
        """fields of that name, whatever the class, when only one class has it"""
        hits = {k[0]: v for k, v in self.field.items() if k[1] == attr and v.k in ("set", "dord") or k[1] == attr and v.e is not None and v.e.k == "set"}
        return next(iter(hits.values())) if len(hits) == 1 else N0


def ann_kind(a):
    if a is None:
        return None
    t = a.value if isinstance(a, ast.Constant) and isinstance(a.value, str) else ast.unparse(a)
    t = t.replace("typing.", "")
    low = t.lower()
    if low.startswith(("set[", "frozenset[")) or low in ("set", "frozenset", "abstractset"):
        return V("set", None, f"the set '{t}'")
    if low.startswith(("dict[", "defaultdict[", "mapping[")) and ("set[" in low or low.endswith("set]")):
        return V(None, V("set", None, f"the sets of '{t}'"))
    return None


def rewrites(t, value, fn, depth=3):
    """the stored value is computed from the entry it replaces (directly, through a local name, or by a function given both)"""
    b, k = ast.unparse(t.value), ast.unparse(t.slice)
    for n in ast.walk(value):
        if isinstance(n, ast.Subscript) and ast.unparse(n.value) == b and ast.unparse(n.slice) == k:
            return True
        if isinstance(n, ast.Call):
            f = n.func
            got = [ast.unparse(x) for x in list(n.args) + [w.value for w in n.keywords]] + ([ast.unparse(f.value)] if isinstance(f, ast.Attribute) else [])
            if b in got and k in got:
                return True
        if depth and isinstance(n, ast.Name) and n.id not in (b, k):
            for d in ast.walk(fn):
                if isinstance(d, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and d.value is not None and any(
                        isinstance(x, ast.Name) and x.id == n.id for x in (d.targets if isinstance(d, ast.Assign) else [d.target])) \
                        and rewrites(t, d.value, fn, depth - 1):
                    return True
    return False


def single(test):
    """(name with exactly one element when the test holds, ... when it does not)"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Call) and isinstance(test.left.func, ast.Name) and test.left.func.id == "len" \
            and test.left.args and isinstance(test.left.args[0], ast.Name) and isinstance(test.comparators[0], ast.Constant):
        n, c, op = test.left.args[0].id, test.comparators[0].value, test.ops[0]
        if c == 1 and isinstance(op, (ast.Eq, ast.LtE)) or c == 2 and isinstance(op, ast.Lt):
            return n, None
        if c == 1 and isinstance(op, (ast.NotEq, ast.Gt)) or c == 2 and isinstance(op, ast.GtE):
            return None, n
    return None, None


class D:
    def __init__(self, dt, fn, cls):
        self.dt, self.fn, self.cls = dt, fn, cls
        self.mod = fn._mod
        self.label = f"{cls.name}.{fn.name}" if cls is not None else fn.name
        self.unord = []            # why of enclosing unordered loops
        self.env = {}
        ps = params(fn)
        self.self = ps[0].arg if cls is not None and ps and not is_static(fn) else None
        for p in ps:
            k = ann_kind(p.annotation)
            if k is not None:
                self.env[p.arg] = k
        self.pub = True

    def run(self):
        self.block(docless(self.fn.body))

    def src(self, what, n):
        return f"{self.label}|{what}"

    def sink(self, v, how, n):
        t = taint(v)
        if t.k is None or self.fn.name in ("__repr__", "__str__", "display_info"):
            return
        key = (t.why or self.label)
        self.dt.sinks.setdefault(key, (f"{self.mod.path}:{getattr(n, 'lineno', 0)}", f"{self.label} {how} a value that depends on {t.why.split('|', 1)[1] if t.why and '|' in t.why else t.why}"))

    # ------------------------------------------------------------ statements
    def block(self, b):
        for s in b:
            self.stmt(s)

    def branch(self, bs, single=None):
        base, outs = dict(self.env), []
        for i, b in enumerate(bs):
            self.env = dict(base)
            if single and single[i] and single[i] in self.env:
                self.env[single[i]] = V(None, self.env[single[i]].e)
            self.block(b)
            outs.append(self.env)
        m = {}
        for e in outs:
            for k, v in e.items():
                m[k] = up(m.get(k), v)
        self.env = m

    def put(self, name, v):
        self.env[name] = v

    def grow(self, target, v, isdict=False):
        """a container gets another element here"""
        if isinstance(target, ast.Name):
            old = self.env.get(target.id, N0)
        elif isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == self.self:
            old = self.env.get("self." + target.attr, self.dt.getfield(self.cls, target.attr))
        else:
            return
        if old.k == "set":
            return
        new = old
        if self.unord:
            new = up(old, V("dord" if isdict else "ord", None, self.unord[-1]))
        t = taint(v)
        if t.k is not None:
            new = up(new, V("val" if not isdict else "dord", None, t.why))
        elif v.k == "set" or v.e is not None and v.e.k:
            new = V(new.k, up(new.e, v), new.why)
        if isinstance(target, ast.Name):
            self.env[target.id] = new
        else:
            self.env["self." + target.attr] = new
            self.setfield(target.attr, new, target)

    def setfield(self, attr, v, n):
        if v.k is None and v.e is None:
            return
        k = (id(self.cls), attr)
        self.dt.field[k] = up(self.dt.field.get(k), v)
        if v.k in ("ord", "val"):
            self.sink(v, f"stores in self.{attr}", n)

    def assign(self, t, v, n):
        if isinstance(t, ast.Name):
            self.put(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x.value if isinstance(x, ast.Starred) else x, taint(v), n)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.self and self.cls is not None:
                self.env["self." + t.attr] = v
                self.setfield(t.attr, v, n)
        elif isinstance(t, ast.Subscript):
            kv = self.ev(t.slice)
            base = t.value
            if isinstance(n, ast.Assign) and rewrites(t, n.value, self.fn):
                return              # an existing entry gets another value: no entry is added
            self.grow(base, up(v, taint(kv)) if taint(kv).k else v, True)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            v = self.ev(s.value) if s.value is not None else N0
            k = ann_kind(s.annotation)
            self.assign(s.target, up(v, k) if k is not None else v, s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                old = self.env.get(s.target.id, N0)
                t = taint(v)
                seq = isinstance(s.value, (ast.List, ast.JoinedStr, ast.ListComp)) or isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)
                if self.unord and seq and isinstance(s.op, ast.Add):
                    t = up(t, V("ord", None, self.unord[-1]))
                if t.k is not None and old.k != "set":
                    self.env[s.target.id] = up(old, t)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value)
                self.dt.ret[id(self.fn)] = up(self.dt.ret.get(id(self.fn)), v)
                if public(self.fn, self.cls):
                    self.sink(v, "returns", s)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            one, other = single(s.test)
            self.branch([s.body, s.orelse], [one, other])
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop(s.target, s.iter, s.body, s)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(3):
                self.ev(s.test)
                self.branch([s.body, []])
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            self.branch([s.body + s.orelse] + [s.body + h.body for h in s.handlers])
            self.block(s.finalbody)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, s)
            self.block(s.body)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            keep, u, r = dict(self.env), self.unord, self.dt.ret.get(id(self.fn))
            self.unord = []
            D2 = D(self.dt, self._sub(s), None)
            D2.env = {**keep, **{p.arg: N0 for p in params(s)}}
            D2.self, D2.cls, D2.label = self.self, self.cls, self.label
            D2.block(s.body)
            self.env, self.unord = keep, u
        elif isinstance(s, (ast.Assert, ast.Raise, ast.Delete)):
            pass
        elif isinstance(s, ast.Match):
            self.branch([c.body for c in s.cases] + [[]])

    def _sub(self, s):
        s._mod = self.mod
        if not s.name.startswith("_"):
            s.name = "_" + s.name if False else s.name
        return s

    def loop(self, target, it, body, s):
        v = self.ev(it)
        why = None
        if v.k in ("set", "dord", "ord"):
            why = v.why or self.src(f"the order of '{ast.unparse(it)[:60]}'", s)
        item = v.e or N0
        if v.k == "val":
            item = V("val", None, v.why)
        for _ in range(3):
            self.assign(target, item, s) if isinstance(target, ast.Name) else self.assign(target, N0, s)
            if isinstance(target, ast.Tuple) and v.e is not None and isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and len(target.elts) == 2:
                self.assign(target.elts[1], v.e, s)
            if why:
                self.unord.append(why)
            self.branch([body, []])
            if why:
                self.unord.pop()

    # ----------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        return taint(*[self.ev(c) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)])

    def e_Name(self, e):
        return self.env.get(e.id, N0)

    def e_Constant(self, e):
        return N0

    def e_Lambda(self, e):
        return N0

    def e_Set(self, e):
        for x in e.elts:
            self.ev(x)
        return V("set", None, self.src(f"the order of the set '{ast.unparse(e)[:60]}'", e))

    def comp(self, e, kind):
        keep, u = dict(self.env), list(self.unord)
        why = None
        vs = []
        for g in e.generators:
            v = self.ev(g.iter)
            if v.k in ("set", "dord", "ord"):
                why = why or v.why or self.src(f"the order of '{ast.unparse(g.iter)[:60]}'", e)
            self.assign(g.target, v.e or (V("val", None, v.why) if v.k == "val" else N0), e)
            for c in g.ifs:
                self.ev(c)
        parts = [self.ev(x) for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])]
        self.env, self.unord = keep, u
        t = taint(*parts)
        el = parts[-1] if parts[-1].k or parts[-1].e else None
        if kind == "set":
            return V("set", None, why or self.src(f"the order of '{ast.unparse(e)[:60]}'", e))
        k = {"list": "ord", "dict": "dord"}[kind] if why else None
        r = V(k, el, why)
        return up(r, t) if t.k else r

    def e_ListComp(self, e):
        return self.comp(e, "list")

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_DictComp(self, e):
        return self.comp(e, "dict")

    def e_Compare(self, e):
        vs = [self.ev(x) for x in [e.left] + e.comparators]
        t = taint(*vs)
        return t if t.k == "val" else N0

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if "set" in (a.k, b.k) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return V("set", None, a.why or b.why)
        if isinstance(e.op, ast.Add) and "ord" in (a.k, b.k):
            return up(a, b)
        return taint(a, b)

    def e_IfExp(self, e):
        self.ev(e.test)
        r, base = N0, dict(self.env)
        for b, one in zip((e.body, e.orelse), single(e.test)):
            self.env = dict(base)
            if one in self.env:
                self.env[one] = V(None, self.env[one].e)
            r = up(r, self.ev(b))
        self.env = base
        return r

    def e_BoolOp(self, e):
        r = N0
        for v in e.values:
            r = up(r, self.ev(v))
        return r

    def e_JoinedStr(self, e):
        r = N0
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value)
                if x.k in ("set", "dord", "ord", "val"):
                    r = up(r, V("val", None, x.why))
        return r

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Attribute(self, e):
        if isinstance(e.value, ast.Name) and e.value.id == self.self and self.cls is not None:
            got = self.env.get("self." + e.attr)
            f = self.dt.getfield(self.cls, e.attr)
            r = up(got, f) if got is not None else f
            for c in self.dt.repo.mro(self.cls):
                for m in c.body:
                    if isinstance(m, ast.FunctionDef) and m.name == e.attr and is_prop(m) and id(m) in self.dt.ret:
                        r = up(r, self.dt.ret[id(m)])
            return r
        b = self.ev(e.value)
        t = taint(b)
        if t.k:
            return t
        return self.dt.byattr(e.attr)

    def e_Subscript(self, e):
        b, i = self.ev(e.value), self.ev(e.slice)
        if b.k == "ord" and isinstance(e.slice, (ast.Constant, ast.UnaryOp)) and not isinstance(getattr(e.slice, "value", 0), str):
            return V("val", None, b.why)
        if b.k in ("ord", "val") and isinstance(e.slice, ast.Slice):
            return V("val", None, b.why)
        t = taint(i)
        if t.k:
            return t
        if b.k == "val":
            return b
        return b.e or N0

    def e_Call(self, e):
        f = e.func
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        dotted = ast.unparse(f) if isinstance(f, (ast.Name, ast.Attribute)) else ""
        a0 = args[0] if args else N0
        if dotted in CLOCKS or dotted.startswith(("random.", "uuid.")) or dotted in ("time", "perf_counter") and self.mod.imports.get(dotted, ("",))[0] == "time":
            return V("val", None, self.src(f"'{dotted}()'", e))
        if ".random." in dotted and dotted.split(".")[0] in ("np", "numpy") and not (name in ("default_rng", "RandomState", "Generator", "SeedSequence", "seed") and (e.args or e.keywords)):
            return V("val", None, self.src(f"'{dotted}()'", e))
        if isinstance(f, ast.Name) and name in ("id", "hash") and name not in self.env and self.dt.repo.resolve(self.mod.name, name) is None:
            return V("val", None, self.src(f"'{ast.unparse(e)[:50]}'", e))
        if name in UNORDERED and (isinstance(f, ast.Attribute) or self.mod.imports.get(name)) and self.dt.repo.resolve(self.mod.name, name) in (None,) or name in UNORDERED and (self.dt.repo.resolve(self.mod.name, name) or ("",))[0] == "ext" or name in ("listdir", "scandir", "imap_unordered"):
            if isinstance(f, ast.Name) and f.id in self.env:
                pass
            else:
                return V("ord", None, self.src(f"the order of '{dotted}(...)'", e))
        if isinstance(f, ast.Name) and f.id not in self.env:
            if name in ("set", "frozenset"):
                return V("set", None, self.src(f"the order of the set '{ast.unparse(e)[:60]}'", e))
            if name in CLEAN:
                t = taint(*args)
                return t if t.k == "val" and name not in ("len", "isinstance", "print") else N0
            if name in ("list", "tuple", "enumerate", "reversed", "iter", "zip", "map", "filter"):
                r = N0
                for a in args:
                    r = up(r, listed(a))
                return r
            if name == "next":
                a = listed(a0)
                return V("val", None, a.why) if a.k in ("ord", "val") else (a.e or N0)
            if name in ("str", "repr"):
                return V("val", None, a0.why) if a0.k in ("set", "dord", "ord", "val") else N0
            if name == "dict":
                return a0 if a0.k != "ord" else V("dord", a0.e, a0.why)
            if name == "defaultdict" and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in ("set", "frozenset"):
                return V(None, V("set", None, self.src(f"the sets of '{ast.unparse(e)}'", e)))
        # package definitions
        hit = self.target(f)
        if hit is not None:
            kind, m = hit
            if kind == "ctor":
                for a in list(args) + [v for k, v in kws.items() if k]:
                    self.sink(a, f"passes to {dotted}", e)
                return N0
            r = N0
            for q in m:
                r = up(r, self.dt.ret.get(id(q), N0))
            return up(r, taint(*args, *kws.values())) if taint(*args, *kws.values()).k else r
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and name == "__init__":
                for a in list(args) + list(kws.values()):
                    self.sink(a, "passes to the base class's constructor", e)
                return N0
            b = self.ev(f.value)
            if name in ("append", "insert", "extend", "appendleft", "add", "update", "setdefault"):
                if b.k == "set":
                    return N0
                if name == "setdefault":
                    v = args[1] if len(args) > 1 else N0
                    self.grow(f.value, v, True)
                    return up(b.e, v) or N0
                v = a0 if name != "insert" else (args[1] if len(args) > 1 else N0)
                if name in ("extend", "update"):
                    v = listed(v)
                    if v.k == "ord":
                        if name == "update":
                            self.grow(f.value, V(None, v.e), True)
                            if isinstance(f.value, ast.Name) and self.env.get(f.value.id, N0).k != "set":
                                self.env[f.value.id] = up(self.env.get(f.value.id, N0), V("dord", None, v.why))
                            return N0
                        if isinstance(f.value, ast.Name):
                            self.env[f.value.id] = up(self.env.get(f.value.id, N0), V("ord", v.e, v.why))
                        return N0
                self.grow(f.value, v, name == "update")
                return N0
            if name in ("sort",) and isinstance(f.value, ast.Name):
                o = self.env.get(f.value.id, N0)
                if o.k == "ord":
                    self.env[f.value.id] = V(None, o.e)
                return N0
            if name == "pop":
                if b.k == "set":
                    return V("val", None, b.why)
                if b.k == "ord":
                    return V("val", None, b.why)
                return b if b.k == "val" else (b.e or N0)
            if name in ("get",):
                r = b.e or N0
                return up(r, args[1]) if len(args) > 1 and (args[1].k or args[1].e) else r
            if name in ("items", "values", "keys"):
                return V(b.k, b.e, b.why)
            if name in SET_METHODS and (b.k == "set"):
                return b
            if name == "join":
                a = listed(a0)
                return V("val", None, a.why) if a.k in ("ord", "val") else N0
            if name in CLEAN_METHODS:
                return V("val", None, b.why) if b.k == "val" and name.startswith("sort") and False else N0
            root = dotted.split(".")[0]
            if name in ("unique", "sort") and root in ("np", "numpy"):
                return N0
            if name in ("fromkeys",):
                a = listed(a0)
                return V("dord", None, a.why) if a.k == "ord" else N0
            vs = [listed(a) for a in args] + [listed(v) for v in kws.values()] + [b]
            return taint(*vs)
        return taint(*[listed(a) for a in args])

    def target(self, f):
        repo = self.dt.repo
        if isinstance(f, ast.Name) and f.id not in self.env:
            r = repo.resolve(self.mod.name, f.id)
            if r and r[0] == "func":
                return "fn", [r[1]]
            if r and r[0] == "class":
                return "ctor", None
            if f.id == "cls":
                return "ctor", None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            v = f.value.id
            if v == self.self and self.cls is not None:
                ms = []
                for c in self.dt.sub.get(id(self.cls), [self.cls]):
                    m = repo.method(c, f.attr)
                    if m is not None and m not in ms:
                        ms.append(m)
                return ("fn", ms) if ms else None
            if v not in self.env:
                r = repo.resolve(self.mod.name, v)
                if r and r[0] == "class":
                    m = repo.method(r[1], f.attr)
                    return ("fn", [m]) if m is not None else None
                if r and r[0] == "module" and r[1] in repo.modules:
                    q = repo.resolve(r[1], f.attr)
                    if q and q[0] == "func":
                        return "fn", [q[1]]
                    if q and q[0] == "class":
                        return "ctor", None
        return None


def findings(repo):
    dt = Determ(repo, ("finmlkit", "scripts"))
    names = [f"{c.name}.{f.name}" if c is not None else f.name for f, c in dt.fns]
    return names, [(k, w, m) for k, (w, m) in sorted(dt.sinks.items())]

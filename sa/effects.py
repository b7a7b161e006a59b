"""Which arguments does a function modify?  A may-alias analysis over the whole package: every variable carries the caller-owned
objects it can share storage with; a store, in-place operation or mutating call on such a variable is an effect on the argument."""
from __future__ import annotations
import ast
from .repo import docless, is_njit

VIEW_ATTRS = {"values", "T", "array", "loc", "iloc", "at", "iat", "flat", "real", "index", "columns", "str", "dt", "__dict__"}
PLAIN_ATTRS = {"shape", "size", "ndim", "dtype", "dtypes", "name", "empty", "names", "freq", "tz", "nbytes", "itemsize", "__name__", "__class__"}
VIEW_METHODS = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "to_numpy", "get", "values", "items", "__getitem__", "setdefault", "pop", "popitem", "xs", "__iter__"}
MUTATORS = {"sort", "fill", "put", "resize", "itemset", "partition", "append", "extend", "insert", "remove", "clear", "pop", "popitem", "update", "setdefault", "add", "discard", "reverse", "setflags",
            "byteswap", "__setitem__", "__delitem__", "appendleft", "popleft", "intersection_update", "difference_update"}
MUT_IF_BUILTIN = {"append", "add", "insert", "update", "put", "remove", "clear", "pop", "resize", "partition", "sort"}
NP_VIEW = {"asarray", "ascontiguousarray", "asanyarray", "atleast_1d", "atleast_2d", "asfortranarray", "reshape", "ravel", "squeeze", "transpose", "broadcast_to", "expand_dims", "swapaxes", "require", "frombuffer", "moveaxis", "flip", "rot90", "fliplr", "flipud"}
NP_MUT = {"put", "place", "copyto", "fill_diagonal", "putmask", "put_along_axis", "shuffle"}
FANCY_FNS = {"where", "nonzero", "flatnonzero", "argsort", "isnan", "isfinite", "logical_and", "logical_or", "logical_not", "isin", "searchsorted", "arange", "lexsort", "concatenate", "unique", "diff", "append", "asarray", "array", "zeros", "ones", "full", "empty"}
FANCY_METHODS = {"isin", "isna", "notna", "isnull", "notnull", "duplicated", "between", "astype", "argsort", "eq", "ne", "lt", "gt", "le", "ge", "any", "all", "to_list", "tolist", "contains", "startswith", "nonzero"}
ARRAYISH = ("array", "Array", "Series", "DataFrame", "List", "list", "Dict", "dict", "Sequence", "Iterable", "Index")


class AV:
    """o: caller-owned objects this value may share storage with, as (root, whole); k: 'fancy' for index arrays and masks"""
    __slots__ = ("o", "k", "elts", "cls")

    def __init__(self, o=frozenset(), k=None, elts=None, cls=None):
        self.o, self.k, self.elts, self.cls = o, k, elts, cls

    def part(self):
        return AV(frozenset((r, False) for r, _ in self.o))

    def view(self):
        return AV(self.o, None)


FRESH = AV()


def join(a, b):
    if a is b or b is None:
        return a
    if a is None:
        return b
    e = [join(x, y) for x, y in zip(a.elts, b.elts)] if a.elts and b.elts and len(a.elts) == len(b.elts) else None
    return AV(a.o | b.o, a.k if a.k == b.k else None, e, a.cls if a.cls is b.cls else None)


class Summary:
    def __init__(self):
        self.mut = {}          # root -> (how, lineno, via)
        self.ret = set()       # roots (root, whole) the result may share storage with
        self.fields = {}       # attr -> set of roots stored in self.attr
        self.order = []

    def state(self):
        return (frozenset(self.mut), frozenset(self.ret), frozenset((k, frozenset(v)) for k, v in self.fields.items()))


class Effects:
    def __init__(self, repo, prefix="finmlkit"):
        self.repo = repo
        self.fns = []
        self.sub = {}          # class node -> direct and indirect subclasses
        for m in repo.modules.values():
            if not m.name.startswith(prefix):
                continue
            for f in m.funcs.values():
                self.fns.append((f, None))
            for c in m.classes.values():
                for b in repo.mro(c):
                    self.sub.setdefault(id(b), []).append(c)
                for f in c.body:
                    if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        self.fns.append((f, c))
        self.sum = {id(f): Summary() for f, _ in self.fns}
        self.bymethod = {}
        for f, c in self.fns:
            if c is not None:
                self.bymethod.setdefault(f.name, []).append((f, c))
        for rnd in range(6):
            before = {k: s.state() for k, s in self.sum.items()}
            for f, c in self.fns:
                Fn(self, f, c).run()
            if all(before[k] == s.state() for k, s in self.sum.items()):
                break

    def owner(self, cls, name):
        """(method, class that defines it)"""
        for c in self.repo.mro(cls):
            for m in c.body:
                if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) and m.name == name:
                    return m, c
        return None, None

    def overriders(self, cls, name):
        """every definition a call of `name` on an instance of cls or a subclass can reach"""
        out = []
        for c in self.sub.get(id(cls), [cls]):
            m, _ = self.owner(c, name)
            if m is not None and m not in out:
                out.append(m)
        return out

    def field_roots(self, cls, attr):
        """caller-owned objects kept in self.attr: {(method, param)}"""
        out = set()
        for c in self.repo.mro(cls) + [d for d in self.sub.get(id(cls), [])]:
            for m in c.body:
                if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) and id(m) in self.sum:
                    for r in self.sum[id(m)].fields.get(attr, ()):
                        if r[0] == "p":
                            out.add((m.name, r[1]))
        return out


def params(fn):
    a = fn.args
    return [x for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])


def is_static(fn):
    return any(ast.unparse(d).split(".")[-1] == "staticmethod" for d in fn.decorator_list)


def is_clsm(fn):
    return any(ast.unparse(d).split(".")[-1] == "classmethod" for d in fn.decorator_list)


def is_prop(fn):
    return any(ast.unparse(d).split(".")[-1] in ("property", "cached_property") for d in fn.decorator_list)


class Fn:
    def __init__(self, ef, fn, cls):
        self.ef, self.fn, self.cls = ef, fn, cls
        self.s = ef.sum[id(fn)]
        self.mod = fn._mod
        self.self = None
        ps = params(fn)
        self.env = {}
        for i, p in enumerate(ps):
            if i == 0 and cls is not None and not is_static(fn):
                self.self = p.arg
                self.env[p.arg] = AV(frozenset({(("s", "self"), True)}))
                continue
            if fn.args.vararg is p or fn.args.kwarg is p:
                self.env[p.arg] = AV(frozenset({(("p", p.arg), False)}))
                continue
            c = None
            if p.annotation is not None:
                t = p.annotation.value if isinstance(p.annotation, ast.Constant) and isinstance(p.annotation.value, str) else ast.unparse(p.annotation)
                r = ef.repo.resolve(self.mod.name, t.strip()) if t.strip().isidentifier() else None
                c = r[1] if r and r[0] == "class" else None
            self.env[p.arg] = AV(frozenset({(("p", p.arg), True)}), None, None, c)
        self.arrayish = {p.arg for p in ps if p.annotation is not None and any(t in ast.unparse(p.annotation) for t in ARRAYISH)}
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                self.arrayish.add(n.value.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ("shape", "values", "copy", "iloc", "loc", "astype", "size", "to_numpy"):
                self.arrayish.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "enumerate", "list", "tuple", "sorted") and n.args and isinstance(n.args[0], ast.Name):
                self.arrayish.add(n.args[0].id)
            elif isinstance(n, ast.For) and isinstance(n.iter, ast.Name):
                self.arrayish.add(n.iter.id)

    def run(self):
        self.block(docless(self.fn.body))

    # -------------------------------------------------------------- effects
    def mutate(self, av, how, node, only=None):
        for r, whole in av.o:
            if only is not None and not only(r, whole):
                continue
            if r == ("s", "self"):
                continue
            if r not in self.s.mut:
                self.s.mut[r] = (how, getattr(node, "lineno", 0))

    def fieldset(self, attr, av):
        t = self.s.fields.setdefault(attr, set())
        for r, whole in av.o:
            if whole:
                t.add(r)

    # ----------------------------------------------------------- statements
    def block(self, body):
        for n in body:
            self.stmt(n)

    def branch(self, bodies):
        outs = []
        base = dict(self.env)
        for b in bodies:
            self.env = dict(base)
            self.block(b)
            outs.append(self.env)
        m = {}
        for e in outs:
            for k, v in e.items():
                m[k] = join(m.get(k), v)
        self.env = m

    def stmt(self, n):
        if isinstance(n, ast.Assign):
            v = self.ev(n.value)
            for t in n.targets:
                self.assign(t, v, n)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.ev(n.value), n)
        elif isinstance(n, ast.AugAssign):
            self.ev(n.value)
            t = n.target
            if isinstance(t, ast.Name):
                v = self.env.get(t.id, FRESH)
                self.mutate(v, f"'{ast.unparse(t)} {_op(n)}= ...' works in place", n, lambda r, w: w and (r[0] == "f" or r[1] in self.arrayish))
            elif isinstance(t, ast.Subscript):
                self.ev(t.slice)
                self.mutate(self.ev(t.value), f"'{ast.unparse(t)[:60]} {_op(n)}= ...'", n)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                if (("s", "self"), True) in b.o:
                    v = self.ev(t)
                    self.mutate(v, f"'{ast.unparse(t)} {_op(n)}= ...' works in place", n, lambda r, w: w and r[0] == "p" and r[1] in self.arrayish)
                else:
                    self.mutate(b, f"'{ast.unparse(t)} {_op(n)}= ...'", n)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(self.ev(t.value), f"'del {ast.unparse(t)[:60]}'", n)
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(n, ast.Expr):
            self.ev(n.value)
        elif isinstance(n, ast.Return):
            if n.value is not None:
                v = self.ev(n.value)
                for r, w in self.flat(v):
                    self.s.ret.add((r, w))
        elif isinstance(n, ast.If):
            self.ev(n.test)
            none = self.isnone(n.test)
            self.branch([n.body, n.orelse])
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            self.loopvar(n.target, n.iter)
            for _ in range(3):
                before = {k: v.o for k, v in self.env.items()}
                self.branch([n.body, []])
                self.loopvar(n.target, n.iter)
                if before == {k: v.o for k, v in self.env.items()}:
                    break
            self.block(n.orelse)
        elif isinstance(n, ast.While):
            for _ in range(3):
                self.ev(n.test)
                before = {k: v.o for k, v in self.env.items()}
                self.branch([n.body, []])
                if before == {k: v.o for k, v in self.env.items()}:
                    break
            self.block(n.orelse)
        elif isinstance(n, ast.Try):
            self.branch([n.body + n.orelse] + [n.body + h.body for h in n.handlers])
            self.block(n.finalbody)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v.view(), n)
            self.block(n.body)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            keep = dict(self.env)
            for p in params(n):
                self.env[p.arg] = FRESH
            ret = set(self.s.ret)
            self.block(n.body)
            self.s.ret = ret
            self.env = keep
        elif isinstance(n, ast.Match):
            self.ev(n.subject)
            self.branch([c.body for c in n.cases] + [[]])
        elif isinstance(n, (ast.Assert, ast.Raise)):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c)

    def isnone(self, t):
        return None

    def flat(self, v):
        out = set(v.o)
        for e in v.elts or ():
            out |= {(r, False) for r, _ in self.flat(e)}
        return out

    def assign(self, t, v, n):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, v.part(), n)
                elif v.elts is not None and i < len(v.elts):
                    self.assign(x, v.elts[i], n)
                else:
                    self.assign(x, AV(v.o), n)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            b = self.ev(t.value)
            self.mutate(b, f"'{ast.unparse(t)[:60]} = ...'", n)
            if isinstance(t.value, ast.Name) and not b.o and self.flat(v):      # a container of the function's own
                self.env[t.value.id] = AV(b.o, b.k, (b.elts or []) + [v], b.cls)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            if (("s", "self"), True) in b.o:
                m = None
                if self.cls is not None:
                    for c in self.ef.repo.mro(self.cls):
                        for q in c.body:
                            if isinstance(q, ast.FunctionDef) and q.name == t.attr and any("setter" in ast.unparse(d) for d in q.decorator_list):
                                m = q
                if m is not None:
                    self.apply(m, [b, v], {}, n)
                else:
                    self.fieldset(t.attr, v)
                    self.env["self." + t.attr] = v
            else:
                self.mutate(b, f"'{ast.unparse(t)[:60]} = ...'", n)

    def loopvar(self, t, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "zip", "reversed", "sorted", "range", "prange", "tqdm"):
            args = [self.ev(a) for a in it.args]
            if it.func.id in ("range", "prange"):
                self.assign(t, FRESH, it)
            elif it.func.id == "enumerate" and isinstance(t, ast.Tuple) and len(t.elts) == 2 and args:
                self.assign(t.elts[0], FRESH, it)
                self.assign(t.elts[1], self.item(args[0]), it)
            elif it.func.id == "zip" and isinstance(t, ast.Tuple) and len(t.elts) == len(args):
                for x, a in zip(t.elts, args):
                    self.assign(x, self.item(a), it)
            else:
                self.assign(t, self.item(args[0]) if args else FRESH, it)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("iterrows", "itertuples", "groupby", "keys"):
            self.ev(it)
            self.assign(t, FRESH, it)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            v = self.ev(it.func.value)
            self.assign(t.elts[0], FRESH, it)
            self.assign(t.elts[1], self.item(v), it)
            return
        if isinstance(it, ast.Attribute) and it.attr in ("columns", "index"):
            self.assign(t, FRESH, it)
            return
        self.assign(t, self.item(self.ev(it)), it)

    def item(self, v):
        if v.elts:
            r = None
            for e in v.elts:
                r = join(r, e)
            return AV(r.o | v.part().o, None, r.elts, r.cls)
        return v.part()

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return FRESH

    def e_Name(self, e):
        return self.env.get(e.id, FRESH)

    def e_Constant(self, e):
        return FRESH

    def e_Compare(self, e):
        self.ev(e.left)
        for c in e.comparators:
            self.ev(c)
        return AV(k="fancy")

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        return AV(k=v.k)

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        return AV(k="fancy" if "fancy" in (a.k, b.k) else None)

    def e_BoolOp(self, e):
        r = None
        for v in e.values:
            r = join(r, self.ev(v))
        return r

    def e_IfExp(self, e):
        self.ev(e.test)
        return join(self.ev(e.body), self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Starred(self, e):
        return self.ev(e.value).part()

    def e_Tuple(self, e):
        return AV(elts=[self.ev(x) for x in e.elts])

    e_List = e_Tuple

    def e_Dict(self, e):
        for k in e.keys:
            if k is not None:
                self.ev(k)
        return AV(elts=[self.ev(x) for x in e.values] or None)

    def comp(self, e, body):
        keep = dict(self.env)
        for g in e.generators:
            self.loopvar(g.target, g.iter)
            for i in g.ifs:
                self.ev(i)
        vs = [self.ev(b) for b in body]
        self.env = keep
        return AV(elts=vs[-1:])

    def e_ListComp(self, e):
        return self.comp(e, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        return self.comp(e, [e.key, e.value])

    def e_Lambda(self, e):
        keep = dict(self.env)
        for p in params(e):
            self.env[p.arg] = FRESH
        self.ev(e.body)
        self.env = keep
        return FRESH

    def e_Attribute(self, e):
        b = self.ev(e.value)
        if (("s", "self"), True) in b.o:
            got = self.env.get("self." + e.attr)
            props = [m for m in self.ef.overriders(self.cls, e.attr) if is_prop(m)] if self.cls is not None else []
            if props:
                return self.apply_all(props, [b], {}, e)
            f = AV(frozenset({(("f", e.attr), True)}))
            return join(got, f) if got is not None else f
        if e.attr in PLAIN_ATTRS:
            return FRESH
        if e.attr in VIEW_ATTRS:
            return b.view()
        return AV(frozenset((r, w) for r, w in b.o))

    def e_Subscript(self, e):
        b, i = self.ev(e.value), self.ev(e.slice)
        s = e.slice
        if b.elts is not None and isinstance(s, ast.Constant) and isinstance(s.value, int) and -len(b.elts) <= s.value < len(b.elts) and not b.o:
            return b.elts[s.value]
        if b.elts is not None and not b.o:
            return self.item(b)
        if isinstance(s, ast.Slice):
            return b.view()
        if isinstance(s, (ast.List, ast.Compare, ast.ListComp)) or i.k == "fancy":
            return FRESH
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.Invert):
            return FRESH
        if isinstance(s, ast.Tuple):
            if any(isinstance(x, ast.Slice) for x in s.elts) and not any(self.ev(x).k == "fancy" for x in s.elts):
                return b.view()
            return FRESH if any(self.ev(x).k == "fancy" for x in s.elts) else b.part()
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            return b.view()
        if isinstance(s, ast.Name) and any(r[0] == "p" and r[1] == s.id for r, _ in i.o) and s.id in self.arrayish and s.id != "col":
            return FRESH
        return b.part()

    def e_Call(self, e):
        f = e.func
        args = [self.ev(a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords}
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        lit = {k.arg: k.value.value for k in e.keywords if isinstance(k.value, ast.Constant)}
        if "out" in kw:
            self.mutate(kw["out"], f"'{ast.unparse(f)}(out=...)'", e)
            for x in kw["out"].elts or ():
                self.mutate(x, f"'{ast.unparse(f)}(out=...)'", e)
        # a definition of the package
        hits = self.targets(f)
        if hits is not None:
            fns, first = hits
            return self.apply_all(fns, ([first] if first is not None else []) + args, kw, e)
        if isinstance(f, ast.Name):
            if name in ("list", "tuple", "dict", "set", "sorted", "reversed", "iter"):
                return AV(elts=[self.item(args[0])]) if args else FRESH
            if name in ("deepcopy",):
                return FRESH
            if name == "setattr" and args:
                if (("s", "self"), True) in args[0].o:
                    return FRESH
                self.mutate(args[0], f"'{ast.unparse(e)[:60]}'", e)
            if name == "getattr" and args:
                return args[0].view()
            if name == "map" and len(args) > 1:
                return FRESH
            if name == "next" and args:
                return self.item(args[0])
            return FRESH
        if isinstance(f, ast.Attribute):
            root = self.dotted(f)
            head = root.split(".")[0] if root else None
            lib = head in ("np", "numpy", "pd", "pandas", "math", "copy") and head not in self.env
            if lib:
                if head in ("np", "numpy"):
                    if name in NP_VIEW and args:
                        return AV(args[0].o, "fancy" if name in FANCY_FNS and not args[0].o else None)
                    if name == "array" and args and lit.get("copy") is False:
                        return args[0].view()
                    if name in NP_MUT and args:
                        self.mutate(args[0], f"'{ast.unparse(e)[:60]}'", e)
                    if name == "nan_to_num" and args and lit.get("copy") is False:
                        self.mutate(args[0], f"'{ast.unparse(e)[:60]}'", e)
                        return args[0].view()
                    if name == "at" and args:                 # np.add.at
                        self.mutate(args[0], f"'{ast.unparse(e)[:60]}'", e)
                    return AV(k="fancy" if name in FANCY_FNS else None)
                if head in ("pd", "pandas"):
                    if name in ("Series", "Index", "DatetimeIndex") and args and lit.get("copy") is not True:
                        return AV(frozenset((r, w) for r, w in args[0].o))
                    if name == "DataFrame" and args and not isinstance(e.args[0], (ast.Dict, ast.DictComp)) and lit.get("copy") is not True:
                        return args[0].view()
                    return FRESH
                if head == "copy":
                    return AV(elts=[args[0].part()]) if name == "copy" and args else FRESH
                return FRESH
            b = self.ev(f.value)
            if lit.get("inplace") is True:
                self.mutate(b, f"'{ast.unparse(f)[:60]}(inplace=True)'", e)
                return FRESH
            if name in MUTATORS and not (name == "add" and (len(args) != 1)) and not self.pandas_pure(name, e, b):
                self.mutate(b, f"'{ast.unparse(f)[:60]}(...)'", e)
                if b.o and name in ("append", "add", "insert", "extend", "update", "remove", "clear", "sort", "fill", "discard"):
                    return FRESH
                if isinstance(f.value, ast.Name) and not b.o and args and name in ("append", "add", "insert", "extend", "update"):
                    a = args[-1] if name in ("append", "add", "insert") else self.item(args[-1])
                    if self.flat(a):
                        self.env[f.value.id] = AV(b.o, b.k, (b.elts or []) + [a], b.cls)
            if name == "astype":
                return b.view() if lit.get("copy") is False else AV(k="fancy" if args and isinstance(e.args[0], ast.Name) and e.args[0].id == "bool" else None)
            if name in VIEW_METHODS and not (name == "to_numpy" and lit.get("copy") is True):
                if name == "get" and (b.elts is not None):
                    return self.item(b)
                return b.view() if name not in ("pop", "get", "setdefault") else b.part()
            if name in FANCY_METHODS:
                return AV(k="fancy")
            return FRESH
        self.ev(f)
        return FRESH

    def pandas_pure(self, name, e, b):
        """`.update`, `.sort`, ... of pandas objects are in-place too; `.add(x)`, `.insert` of a Series arithmetic are not"""
        if name == "add":
            return True if any(r[0] != "s" for r, _ in b.o) and not self.seen_set(e.func.value) else False
        return name in ("put",) and not e.args

    def seen_set(self, v):
        return isinstance(v, ast.Name) and any(t in v.id for t in ("set", "seen", "visited"))

    def dotted(self, f):
        p = []
        while isinstance(f, ast.Attribute):
            p.append(f.attr)
            f = f.value
        return ".".join(reversed(p + [f.id])) if isinstance(f, ast.Name) else None

    def targets(self, f):
        """-> ([definitions], self value or None) or None for something outside the package"""
        repo = self.ef.repo
        if isinstance(f, ast.Name):
            if f.id in self.env:
                return None
            r = repo.resolve(self.mod.name, f.id)
            if r and r[0] == "func" and id(r[1]) in self.ef.sum:
                return [r[1]], None
            if r and r[0] == "class":
                m, _ = self.ef.owner(r[1], "__init__")
                return ([m], FRESH) if m is not None and id(m) in self.ef.sum else None
            return None
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and v.id == self.self and self.cls is not None:
                ms = [m for m in self.ef.overriders(self.cls, f.attr) if id(m) in self.ef.sum]
                return (ms, None if is_static(ms[0]) else self.env.get(self.self, FRESH)) if ms else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and self.cls is not None:
                for c in repo.mro(self.cls)[1:]:
                    for m in c.body:
                        if isinstance(m, ast.FunctionDef) and m.name == f.attr and id(m) in self.ef.sum:
                            return [m], self.env.get(self.self, FRESH)
                return None
            if isinstance(v, ast.Name) and v.id not in self.env:
                r = repo.resolve(self.mod.name, v.id)
                if r and r[0] == "module" and r[1] in repo.modules:
                    q = repo.resolve(r[1], f.attr)
                    if q and q[0] == "func" and id(q[1]) in self.ef.sum:
                        return [q[1]], None
                    if q and q[0] == "class":
                        m, _ = self.ef.owner(q[1], "__init__")
                        return ([m], FRESH) if m is not None and id(m) in self.ef.sum else None
                if r and r[0] == "class":
                    m, _ = self.ef.owner(r[1], f.attr)
                    if m is not None and id(m) in self.ef.sum:
                        return [m], (FRESH if not is_static(m) else None)
            b = self.ev(v)
            if b.cls is not None:
                ms = [m for m in self.ef.overriders(b.cls, f.attr) if id(m) in self.ef.sum]
                if ms:
                    return ms, None if is_static(ms[0]) else b
        return None

    def apply_all(self, fns, args, kw, node):
        r = None
        for m in fns:
            r = join(r, self.apply(m, args, kw, node))
        return r or FRESH

    def apply(self, m, args, kw, node):
        s = self.ef.sum[id(m)]
        ps = params(m)
        isinit = m.name == "__init__"
        bind = {}
        pos = [p for p in m.args.posonlyargs + m.args.args]
        hasself = getattr(m, "_cls", None) is not None and not is_static(m)
        for i, a in enumerate(args):
            if i < len(pos):
                bind[pos[i].arg] = a
            elif m.args.vararg:
                bind[m.args.vararg.arg] = join(bind.get(m.args.vararg.arg), a)
        for k, a in kw.items():
            if k is None:
                continue
            bind[k] = a
        recv = bind.get(pos[0].arg) if hasself and pos else None
        own = recv is not None and (("s", "self"), True) in recv.o
        for r, (how, ln, *_) in list(s.mut.items()):
            what = f"{how} in {m.name}" if " in " not in how else how
            if r[0] == "p" and r[1] in bind:
                self.mutate(bind[r[1]], what, node)
            elif r[0] == "f" and own:
                if r not in self.s.mut:
                    self.s.mut[r] = (what, getattr(node, "lineno", 0))
                g = self.env.get("self." + r[1])
                if g is not None:
                    self.mutate(g, what, node)
            elif r[0] == "f" and recv is not None:
                self.mutate(recv, what, node)
        if own:
            for attr, roots in s.fields.items():
                for r in roots:
                    if r[0] == "p" and r[1] in bind:
                        self.fieldset(attr, bind[r[1]])
                        self.env["self." + attr] = join(self.env.get("self." + attr), bind[r[1]])
        out = set()
        for r, w in s.ret:
            if r[0] == "p" and r[1] in bind:
                for r2, w2 in self.flat(bind[r[1]]):
                    out.add((r2, w2 and w))
            elif r[0] == "f" and own:
                out.add((r, w))
                g = self.env.get("self." + r[1])
                if g is not None:
                    out |= g.o
            elif r[0] == "f" and recv is not None:
                out |= {(x, w and y) for x, y in recv.o}
            elif r == ("s", "self") and recv is not None:
                out |= recv.o
        return AV(frozenset(out))


def _op(n):
    return {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.BitAnd: "&", ast.BitOr: "|", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}.get(type(n.op), "op")


def public(fn, cls):
    if fn.name in ("__init__", "__call__", "_pd", "_nb", "_prepare_input_nb", "_prepare_output_nb", "_comp_bar_close", "__getitem__", "__setitem__"):
        return True
    if fn.name.startswith("__") and fn.name.endswith("__"):
        return True
    return not fn.name.startswith("_")


def api():
    """public names of the package when the rules were written; later helpers are judged through their callers"""
    import os
    return set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", "api.txt")).read().split())


def called(repo, prefix="finmlkit"):
    out = set()
    for m in repo.modules.values():
        if m.name.startswith(prefix):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    f = n.func
                    out.add(f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else "")
    return out


def findings(repo):
    """-> (analysed function names, obligations, [(rule, key, where, message)])"""
    ef = Effects(repo)
    known, inner = api(), called(repo)
    seen, nobs, out = [], [], []
    for f, c in ef.fns:
        label = f"{c.name}.{f.name}" if c is not None else f.name
        if not public(f, c) or label not in known and f.name in inner and not f.name.startswith("__"):
            continue
        seen.append(label)
        s = ef.sum[id(f)]
        bad = {r[1]: x for r, x in s.mut.items() if r[0] == "p"}
        for p in params(f)[1 if c is not None and not is_static(f) else 0:]:
            key = f"argument|{label}|{p.arg}"
            if p.arg in bad:
                how, ln = bad[p.arg]
                out.append(("argument", key, f"{f._mod.path}:{ln}", f"{label} modifies its argument '{p.arg}': {how}"))
            else:
                nobs.append(("argument", key, f"{f._mod.path}:{f.lineno}"))
    # an argument kept in a field and modified later
    for f, c in ef.fns:
        if c is None:
            continue
        label = f"{c.name}.{f.name}"
        hit = False
        for r, (how, ln) in sorted(ef.sum[id(f)].mut.items(), key=str):
            if r[0] != "f":
                continue
            for k in sorted(ef.field_roots(c, r[1])):
                hit = True
                out.append(("kept", f"kept|{label}|{r[1]}|{k[1]}", f"{f._mod.path}:{ln}", f"{label} modifies self.{r[1]}, which is the caller's '{k[1]}' passed to {k[0]}: {how}"))
        if not hit:
            nobs.append(("kept", f"kept|{label}", f"{f._mod.path}:{f.lineno}"))
    return seen, nobs, out

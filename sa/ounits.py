"""Symbolic worlds for the object-level evaluator: an input frame, transform instances with symbolic parameters, observations."""
from __future__ import annotations
import ast
from .expr import *
from . import expr as X
from .summ import St, Body, Rec, A, S, NONE, num, isbool, ArrEl
from .osumm import OSumm, Ser, Idx, Ref, Cls, Clo, Bound, Td, Ts, PyExc, Iter, show, ishole, Holes
from .agree import spec_repo
from .repo import Repo, AnalysisBroken

NS = 10 ** 9


class World:
    def __init__(self, repo):
        self.repo = repo if "sa.spec.pdops" in repo.modules else spec_repo(repo)
        self.s = OSumm(self.repo)
        self.st = St({}, {}, frozenset())
        self.s.begin(self.st)
        self.s.mods.append(self.repo.modules["finmlkit.feature.base"])
        self.params = {}          # name -> kind, as in the kernel table

    def axis(self, name="n", least=1):
        n = mk("len", name)
        self.st.facts = self.st.facts | {cmp(">=", n, C(least))}
        return n

    def col(self, role, n, kind="a"):
        if kind in ("s", "t", "ix", "T"):
            X.INTROLES.add(role)
        if kind == "s":
            X.DOMAIN[role] = (-1, 0, 1)
        k = freshix()
        return self.s.new(self.st, n, el(role, k), k)

    def frame(self, cols, ax="n", least=1, index="timestamps"):
        """cols: {column name: role}"""
        n = self.axis(ax, least)
        d = {}
        for c, role in cols.items():
            a = self.col(role, n)
            d[S(c)] = Ser(a.aid, a.off, a.ln, S(c))
        X.INTROLES.add(index)
        t = self.col(index, n, "t")
        ix = Idx(t.aid, t.off, t.ln)
        self.s.rowidx = ix
        return self.s.rec(self.st, "frame", d=d, ln=n, ix=ix)

    def arg(self, p, ann, dflt, tag=""):
        """symbolic constructor argument"""
        n = p.arg
        a = ast.unparse(ann) if ann is not None else ""
        nm = tag + n
        num_dflt = isinstance(dflt, ast.Constant) and isinstance(dflt.value, (int, float)) and not isinstance(dflt.value, bool)
        if "bool" in a or (isinstance(dflt, ast.Constant) and isinstance(dflt.value, bool)):
            self.params[nm] = "b"
            return mk("flag", nm)
        if "Timedelta" in a:
            v = par(nm, True)
            self.params[nm] = "i"
            self.st.facts = self.st.facts | {cmp(">=", v, ONE)}
            return Td(mul(v, C(NS)))
        if "float" in a or (num_dflt and isinstance(dflt.value, float)):
            v = par(nm)
            self.params[nm] = "F"
            self.st.facts = self.st.facts | {cmp(">", v, ZERO)}
            return v
        if "int" in a or num_dflt or (dflt is None and not a):
            v = par(nm, True)
            z = "ddof" in n
            self.params[nm] = "i0" if z else "i"
            self.st.facts = self.st.facts | {cmp(">=", v, ZERO if z else ONE)}
            return v
        return None

    def make(self, cls, tag="", **fixed):
        """an instance with every numeric option symbolic; columns as given or default"""
        init = self.s.findm(cls, "__init__")
        kw = {}
        ps = init.args.args[1:] + init.args.kwonlyargs
        ds = [None] * (len(init.args.args) - 1 - len(init.args.defaults)) + list(init.args.defaults) + list(init.args.kw_defaults)
        for p, d in zip(ps, ds):
            if p.arg in fixed:
                kw[p.arg] = fixed[p.arg]
                continue
            if p.arg in ("input_col", "input_cols"):
                continue
            v = self.arg(p, p.annotation, d, tag)
            if v is not None:
                kw[p.arg] = v
        return self.s.construct(cls, [], kw, self.st)

    def attr(self, o, name):
        return self.s.getattr_(o, name, self.st)

    def call(self, f, *args, **kw):
        return self.s.call(f, list(args), kw, ast.parse("f()").body[0].value, self.st)

    def method(self, o, name, *args, **kw):
        return self.call(self.attr(o, name), *args, **kw)

    def expr(self, text, mod="finmlkit.feature.base", **env):
        """evaluate a program text in a module's scope"""
        self.s.mods.append(self.repo.modules[mod])
        st = self.st
        old = st.env
        st.env = dict(env)
        try:
            return self.s.ev(ast.parse(text, mode="eval").body, st)
        finally:
            st.env = old
            self.s.mods.pop()

    def strs(self, v):
        """a name or a list of names"""
        if isinstance(v, S):
            return [str(v)]
        xs = self.s.items(v, self.st)
        return [str(x) for x in xs] if xs is not None and all(isinstance(x, S) for x in xs) else None

    def cells(self, v):
        """column / array / scalar -> (length|None, index var|None, closed form)"""
        if isinstance(v, A):
            b = self.st.heap[v.aid]
            if isinstance(b, Rec) or b.e is None or b.arr is not None:
                return v.ln, None, unk("array")
            k = freshix()
            f = frozenset(self.st.facts | {cmp(">=", k, ZERO), cmp(">=", sub(v.ln, ONE), k)})
            e = subst(b.e, {b.var: add(v.off, k)})
            return v.ln, k, self.s.simp(num(e) if not isbool(e) else e, St({}, {}, f))
        if isinstance(v, (Td, Ts)):
            return None, None, num(v.ns)
        if isinstance(v, N):
            return None, None, v
        return None, None, unk(str(v))


def concrete(repo, mod="finmlkit.feature.transforms"):
    """concrete transform classes"""
    base = repo.cls("finmlkit.feature.base", "BaseTransform")
    return {n: c for n, c in repo.modules[mod].classes.items() if base in repo.mro(c)}


INPUT = {"y": "close", "ret": "ret1", "x": "close"}


def inputs(cls, w=None):
    """columns for a transform class whose default would be missing"""
    return {}


def observe(repo, name, backend):
    """-> (World, object, result list, names)"""
    w = World(repo)
    cls = concrete(w.repo)[name]
    init = w.s.findm(cls, "__init__")
    fixed = {}
    d = dict(zip([a.arg for a in init.args.args[::-1]], init.args.defaults[::-1]))
    for a in init.args.args:
        if a.arg == "input_col" and (a.arg not in d or ast.unparse(d[a.arg]) == "None"):
            fixed[a.arg] = S("close")
    o = w.make(cls, **fixed)
    req = w.strs(w.attr(o, "requires"))
    fr = w.frame({c: c for c in req})
    r = w.call(o, fr, backend=S(backend))
    rs = w.s.items(r, w.st) if not isinstance(r, A) else (r,)
    return w, o, rs, w.strs(w.attr(o, "output_name"))

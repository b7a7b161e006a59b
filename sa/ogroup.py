"""Grouping rows by a key: closed forms of aggregates per group, groups in order of first appearance (or of the key)."""
from __future__ import annotations
import ast
from .expr import *
from . import expr as X
from .summ import Summ, A, S, NONE, Rec, St, num
from . import osumm as O

AGGS = ("first", "last", "sum", "max", "min", "count", "mean", "size")


class Grp:
    """base: frame or column; key column; groups sorted by key?"""
    def __init__(self, base, key, sort, only=None):
        self.base, self.key, self.sort, self.only = base, key, sort, only


def bins(s, ix, freq, closed, label, node, st):
    """left or right edges of intervals of a fixed length that divides a day (empty intervals are not represented)"""
    u = s.unit(freq)
    k = const(u.ns) if u is not None else None
    if k is None or (86400 * 10 ** 9) % k or not isinstance(ix, A) or str(closed) not in ("left", "right", "none()") or str(label) not in ("left", "right", "none()"):
        return s.nope("resample", node)
    f = lambda x: mul(fn("floordiv", x, u.ns), u.ns)
    g = (lambda x: sub(neg(f(neg(x))), u.ns)) if str(closed) == "right" else f
    h = (lambda x: add(g(x), u.ns)) if str(label) == "right" else g
    return s.elementwise(lambda x: h(num(x)), [A(ix.aid, ix.off, ix.ln)], st)


def resample(s, b, args, kw, node, st):
    r = st.heap[b.aid]
    if set(kw) - {"rule", "closed", "label"} or not (args or "rule" in kw):
        return s.nope("resample", node)
    k = bins(s, r.ix, kw.get("rule", args[0] if args else None), kw.get("closed", NONE), kw.get("label", NONE), node, st)
    return Grp(b, A(k.aid, k.off, k.ln), True) if isinstance(k, A) else k


def make(s, b, args, kw, node, st):
    by = kw.get("by", args[0] if args else None)
    if isinstance(by, O.Ext) and by.name == "pd.Grouper" and isinstance(b, O.Ref):
        k = bins(s, st.heap[b.aid].ix, *by.args, node, st)
        return Grp(b, A(k.aid, k.off, k.ln), True) if isinstance(k, A) else k
    if set(kw) - {"by", "sort", "observed", "group_keys"} or kw.get("group_keys", T) is not T:
        return s.nope("groupby", node)
    if isinstance(by, S) and isinstance(b, O.Ref):
        by = s.framecol(b, by, st, node)
    if isinstance(by, O.Ref) or not isinstance(by, A) or st.heap[by.aid].e is None:
        return s.nope("groupby", node)
    sort = kw.get("sort", T)
    return Grp(b, A(by.aid, by.off, by.ln), sort is not F) if sort in (T, F) else s.nope("groupby", node)


class Groups:
    def __init__(self, s, g, st):
        self.s, self.st, self.n = s, st, g.key.ln
        self.k = s.cellat(g.key, st)
        j = freshix()
        self.body = X._close(num(self.k(j)), j)
        self.count = mk("fn", "nfirst", self.n, *self.body)
        self.sort = g.sort

    def order(self, p):
        """the place of the p-th group among the groups by first appearance"""
        if not self.sort:
            return p
        q = freshix()
        e = num(self.k(mk("fn", "firstpos", self.n, *self.body, q)))
        return mk("fn", "argsort", self.count, *X._close(e, q), p)

    def first(self, p):
        return mk("fn", "firstpos", self.n, *self.body, self.order(p))

    def key(self, p):
        return num(self.k(self.first(p)))

    def member(self, j, p):
        return cmp("==", num(self.k(j)), self.key(p))

    def agg(self, how, f):
        """f: cells of a column -> value of the p-th group, missing values left out"""
        n = self.n
        j = freshix()
        gaps = O.miss(num(f(j)))

        def val(p):
            j = freshix()
            x = num(f(j))
            m = self.member(j, p)
            mm = and_(m, not_(isnan(x))) if gaps and how != "size" else m
            if how == "first" and not gaps:
                return num(f(self.first(p)))
            cnt = red("sum", n, j, ite(mm, ONE, ZERO))
            some = T if not gaps else cmp(">=", cnt, ONE)
            if how in ("first", "last"):
                at = red("min", n, j, ite(mm, j, n)) if how == "first" else red("max", n, j, ite(mm, j, C(-1)))
                return ite(some, num(f(at)), NAN)
            if how in ("count", "size"):
                return cnt
            tot = red("sum", n, j, ite(mm, x, ZERO))
            if how == "sum":
                return tot
            if how == "mean":
                return ite(some, div(tot, cnt), NAN)
            ext_ = red(how, n, j, ite(mm, x, INF if how == "min" else neg(INF)))
            return ite(some, ext_, NAN)
        return val

    def column(self, val, name, extra=()):
        p = freshix()
        st = self.st
        s2 = St(st.env, st.heap, st.facts | {cmp(">=", p, ZERO), cmp(">=", sub(self.count, ONE), p)})
        v = self.s.new(st, self.count, self.s.simp(val(p), s2), p)
        return O.Ser(v.aid, v.off, v.ln, name)

    def index(self):
        v = self.column(self.key, NONE)
        return O.Idx(v.aid, v.off, v.ln)


def name_of(v):
    if isinstance(v, S):
        return str(v)
    f = getattr(v, "name", None)
    return {"np.sum": "sum", "np.max": "max", "np.min": "min", "np.mean": "mean", "sum": "sum", "max": "max", "min": "min"}.get(f) if isinstance(f, str) else None


def method(s, g, n, args, kw, node, st):
    b = g.base
    G = Groups(s, g, st)
    if isinstance(b, O.Ser):
        if n in ("agg", "aggregate") and len(args) == 1 and not kw:
            n, args = name_of(args[0]), []
        if n == "cumcount" and not args:
            def f(k):
                j = freshix()
                return red("sum", k, j, ite(cmp("==", num(G.k(j)), num(G.k(k))), ONE, ZERO))
            return s.build(b, f, st, NONE)
        if n in ("transform",) and args and name_of(args[0]) in AGGS:
            how = name_of(args[0])
            c = s.cellat(b, st)

            def t(k):
                j = freshix()
                m = cmp("==", num(G.k(j)), num(G.k(k)))
                x = num(c(j))
                if how == "sum":
                    return red("sum", G.n, j, ite(m, x, ZERO))
                if how in ("max", "min"):
                    return red(how, G.n, j, ite(m, x, INF if how == "min" else neg(INF)))
                return None
            if t(freshix()) is not None and not O.miss(num(c(freshix()))):
                return s.build(b, t, st)
            return s.nope("transform", node)
        c = s.cellat(b, st)
        if n not in AGGS or args or set(kw) - {"sort"} or c is None:
            return apply(s, G, b, args, kw, node, st) if n == "apply" else s.nope(f"groupby.{n}", node)
        return G.column(G.agg(n, c), b.name)
    r = st.heap[b.aid]
    if n == "apply":
        return apply(s, G, b, args, kw, node, st)
    if n == "size" and not args and not kw:
        return G.column(G.agg("size", G.k), NONE)
    todo = None
    if n in ("agg", "aggregate"):
        if len(args) == 1 and isinstance(args[0], O.Ref) and args[0].kind == "dict" and not kw:
            todo = [(k, k, name_of(v)) for k, v in st.heap[args[0].aid].d.items()]
        elif not args and kw:
            todo = []
            for k, v in kw.items():
                t = s.items(v, st)
                if t is None or len(t) != 2:
                    return s.nope("agg", node)
                todo.append((S(k), t[0], name_of(t[1])))
        elif len(args) == 1 and name_of(args[0]):
            todo = [(c, c, name_of(args[0])) for c in r.d]
    elif n in AGGS and not args and not kw:
        todo = [(c, c, n) for c in r.d]
    if todo is None:
        return s.nope(f"groupby.{n}", node)
    d = {}
    for out, col, how in todo:
        c = s.framecol(b, col, st, node)
        f = s.cellat(c, st) if isinstance(c, A) else None
        if f is None or how not in AGGS:
            return s.nope("agg", node)
        d[out] = G.column(G.agg(how, f), out)
    return s.rec(st, "frame", d=d, ln=G.count, ix=G.index())


def apply(s, G, b, args, kw, node, st):
    """a function of the rows of each group"""
    if not args or set(kw) - {"include_groups"} or len(args) > 1:
        return s.nope("groupby.apply", node)
    p, j = freshix(), freshix()
    m = s.new(st, G.n, G.member(j, p), j)
    cnt = red("sum", G.n, j, ite(G.member(j, p), ONE, ZERO))
    s2 = St(dict(st.env), st.heap, st.facts | {cmp(">=", p, ZERO), cmp(">=", sub(G.count, ONE), p), cmp(">=", cnt, ONE)})
    if isinstance(b, O.Ref):
        sub_ = s.framefilter(b, A(m.aid, m.off, m.ln), s2)
        s2.facts = s2.facts | {cmp(">=", s2.heap[sub_.aid].ln, ONE)}
    else:
        v = Summ.ev_Subscript(s, ast.Subscript(O._Val(A(b.aid, b.off, b.ln)), O._Val(A(m.aid, m.off, m.ln)), ast.Load()), s2)
        if not isinstance(v, A):
            return s.nope("groupby.apply", node)
        s2.facts = s2.facts | {cmp(">=", v.ln, ONE)}
        sub_ = O.Ser(v.aid, v.off, v.ln, b.name)
    r = s.call(args[0], [sub_], {}, node, s2)
    if not isinstance(r, N) or r.h == "unk":
        return s.nope("groupby.apply", node)
    x = s.new(st, G.count, num(r), p)
    return O.Ser(x.aid, x.off, x.ln, NONE)

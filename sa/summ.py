"""Closed-form summaries of array kernels: every output cell as a canonical expression (guards, reductions, recurrences)
over the inputs.  Loops are solved, not unrolled; what has no closed form becomes `unk` and is never judged."""
from __future__ import annotations
import ast
from fractions import Fraction as Fr
from .expr import *
from .expr import rewrite, filt, vfold, wfold, open_
from . import expr as X


class A:
    """view of a heap array"""
    __slots__ = ("aid", "off", "ln")

    def __init__(self, aid, off, ln):
        self.aid, self.off, self.ln = aid, off, ln


class Body:
    __slots__ = ("ln", "var", "e", "islist", "arr")

    def __init__(self, ln, var, e, islist=False, arr=None):
        self.ln, self.var, self.e, self.islist, self.arr = ln, var, e, islist, arr


class ArrEl:
    """a list whose elements are arrays: element i has length ln(i) and cells body(i, k)"""
    __slots__ = ("i", "k", "ln", "e")

    def __init__(self, i, k, ln, e):
        self.i, self.k, self.ln, self.e = i, k, ln, e


class S(str):
    pass


OK = "\0ok"           # pseudo-variable: nothing was refused so far


class Rec:
    """heap record of an object, dictionary, list or frame (object-level summaries); opaque to the array engine"""
    __slots__ = ("kind", "cls", "d", "ln", "ix")
    var = e = arr = None
    islist = False

    def __init__(self, kind, cls, d, ln=None, ix=None):
        self.kind, self.cls, self.d, self.ln, self.ix = kind, cls, d, ln, ix

    def but(self, **d):
        x = dict(self.d)
        x.update(d)
        return Rec(self.kind, self.cls, x, self.ln, self.ix)


NONE = mk("none")


class Fnc:
    def __init__(self, node, mod):
        self.node, self.mod = node, mod


class ModRef:
    def __init__(self, name):
        self.name = name


DEBUG = False


class Giveup(Exception):
    pass


BOOLH = {"T", "F", "ge0", "gt0", "gez", "eq0", "in", "and", "or", "not", "isnan", "flag", "isnone", "streq", "bfn"}


def isbool(e):
    return isinstance(e, N) and (e.h in BOOLH or (e.h == "ite" and isbool(e.a[1]) and isbool(e.a[2])))


def num(e):
    if isinstance(e, N) and isbool(e):
        return ite(e, ONE, ZERO) if e.h != "ite" else ite(e.a[0], num(e.a[1]), num(e.a[2]))
    return e


def boolify(e):
    if e.h == "ite" and isbool(e.a[1]) and isbool(e.a[2]):
        return or_(and_(e.a[0], boolify(e.a[1])), and_(not_(e.a[0]), boolify(e.a[2])))
    if isbool(e):
        return e
    if e.h == "ite" and {e.a[1], e.a[2]} == {ONE, ZERO}:
        return e.a[0] if e.a[1] is ONE else not_(e.a[0])
    if e.h == "unk":
        return mk("bfn", "unk", e)
    return cmp("!=", e, ZERO)


class St:
    __slots__ = ("env", "heap", "facts")

    def __init__(self, env, heap, facts):
        self.env, self.heap, self.facts = env, heap, facts

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.facts)


def vmap(v, f):
    """apply f to the scalars of a value"""
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    if isinstance(v, A):
        return A(v.aid, f(v.off), f(v.ln))
    if isinstance(v, N):
        return f(v)
    return v


def nanprop(xs, e):
    """numpy's extrema are missing where an operand is"""
    return ite(or_(*[isnan(num(x)) for x in xs]), NAN, e)


class Summ:
    def __init__(self, repo, mono=()):
        self.repo = repo
        self.aid = 0
        self.depth = 0
        self.mono = set(mono)
        self.taints = []
        self.calls = []
        self.mods = []

    # ------------------------------------------------------------ arrays
    def new(self, st, ln, e, var, islist=False, arr=None):
        self.aid += 1
        st.heap[self.aid] = Body(ln, var, e, islist, arr)
        return A(self.aid, ZERO, ln)

    def cell(self, a, idx, st):
        b = st.heap[a.aid]
        if b.arr is not None:
            g = b.arr
            pos = add(a.off, idx)
            k = freshix()
            return self.new(st, subst(g.ln, {g.i: pos}), subst(g.e, {g.i: pos, g.k: k}), k)
        if b.e is None:
            return unk("array")
        return self.simp(subst(b.e, {b.var: add(a.off, idx)}), st)

    def monofacts(self, e):
        """ordering facts of monotone index arrays that occur in e"""
        out = set()
        els = []

        def go(x):
            if isinstance(x, tuple):
                for y in x:
                    go(y)
            elif isinstance(x, N):
                if x.h == "el" and x.a[0] in self.mono:
                    els.append(x)
                for y in x.a:
                    go(y)
        go(e)
        for p in els:
            for q in els:
                if p is not q and p.a[0] == q.a[0]:
                    k = const(sub(p.a[1], q.a[1]))
                    if k is not None and k > 0:
                        out.add(cmp(">=", p, q))
        return out

    def facts_for(self, e, st):
        f = set(st.facts) | self.monofacts(e)
        for c in list(f):
            if c.h == "not" and c.a[0].h == "eq0" and isint(c.a[0].a[0]):
                x = c.a[0].a[0]
                for y in (x, neg(x)):
                    g = cmp(">=", y, ZERO)
                    if implied(g, f):
                        f.add(cmp(">=", y, ONE))
        return frozenset(f)

    def simp(self, e, st):
        if not isinstance(e, N) or not e.fl & 2 and not isbool(e):
            return e
        f = self.facts_for(e, st)
        if isbool(e) and e.h != "ite":
            return csimp(e, f)
        return simp(e, f)

    def deep(self, e, st):
        """simplify guarded values below conditions too (removes arms that read unwritten cells)"""
        f = self.facts_for(e, st)

        def g(x, go):
            if x.h == "ite":
                c = csimp(go(x.a[0]), f)
                if c is T:
                    return go(x.a[1])
                if c is F:
                    return go(x.a[2])
                r = ite(c, go(x.a[1]), go(x.a[2]))
                return simp(r, f)
            if x.h in ("and", "or"):
                return csimp((and_ if x.h == "and" else or_)(*[csimp(go(y), f) for y in x.a[0]]), f)
            return None
        return rewrite(e, g, 1)

    def csimp(self, c, st):
        return csimp(c, self.facts_for(c, st))

    def index(self, a, i):
        """python index semantics for constants"""
        k = const(i)
        if k is not None and k < 0:
            return add(a.ln, i)
        return i

    def store(self, a, lo, ln, val, st, aug=None, whole=None):
        """a[lo : lo+ln] = val   (val: function of the position relative to lo, or a scalar)"""
        b = st.heap[a.aid]
        if b.e is None:
            return
        k = b.var
        pos = add(a.off, lo)
        if ln is None:
            pred = cmp("==", k, pos)
        else:
            pred = and_(cmp(">=", k, pos), cmp(">=", sub(add(pos, ln), ONE), k))
            if whole:
                pred = T
        old = b.e
        v = val(sub(k, pos)) if callable(val) else val
        if not isinstance(v, N):
            st.heap[a.aid] = Body(b.ln, k, unk("stored value", k), b.islist)
            return
        if aug is not None:
            v = aug(old, v)
        elif ln is None:
            pass
        v = num(v) if not isbool(old) else v
        f = self.facts_for(pred, st)
        pred = csimp(pred, f)
        st.heap[a.aid] = Body(b.ln, k, self.simp(ite(pred, v, num(old) if not isbool(v) else old), st), b.islist)

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        heap = {}
        recs = []
        for aid in s1.heap.keys() | s2.heap.keys():
            x, y = s1.heap.get(aid), s2.heap.get(aid)
            if x is None or y is None or x is y:
                heap[aid] = x or y
            elif isinstance(x, Rec) or isinstance(y, Rec):
                recs.append((aid, x, y))
            elif x.e is None or y.e is None:
                heap[aid] = x if x.arr is y.arr else Body(x.ln, x.var, unk("merge", x.var))
            else:
                heap[aid] = Body(ite(c, x.ln, y.ln), x.var, ite(c, x.e, subst(y.e, {y.var: x.var})), x.islist)
        m = St({}, heap, s1.facts & s2.facts)
        for aid, x, y in recs:
            heap[aid] = self.mergerec(c, x, y, m)
        for n in s1.env.keys() & s2.env.keys():
            m.env[n] = self.mergev(c, s1.env[n], s2.env[n], m)
        return m

    def mergerec(self, c, x, y, st):
        return x

    def mergev(self, c, a, b, st):
        if a is b:
            return a
        for x, y, cc in ((a, b, c), (b, a, not_(c))):
            # optional values: x is chosen where cc holds
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "maybe":
                nm = mk("isnone", x[1][0])
                if isinstance(y, tuple) and len(y) == 2 and y[0] == "maybe" and y[1][0] == x[1][0]:
                    return ("maybe", (x[1][0], self.mergev(cc, x[1][1], y[1][1], st)))
                if not_(nm) in atoms_of(cc):
                    return self.mergev(cc, x[1][1], y, st) if y is not NONE else x
                if cc is nm and isinstance(y, (A, N)) and y is not NONE:
                    return ("maybe", (x[1][0], y))
                return unk("merge")
            if y is NONE and x is not NONE:
                for q in atoms_of(cc):
                    if q.h == "not" and q.a[0].h == "isnone" and q is cc:
                        return ("maybe", (q.a[0].a[0], x))
                return unk("merge")
        if isinstance(a, N) and isinstance(b, N):
            if isbool(a) and isbool(b):
                return boolify(ite(c, a, b))
            if isbool(a) != isbool(b):
                a, b = num(a), num(b)
            return ite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mergev(c, x, y, st) for x, y in zip(a, b))
        if isinstance(a, A) and isinstance(b, A):
            if a.aid == b.aid and a.off is b.off and a.ln is b.ln:
                return a
            x, y = st.heap[a.aid], st.heap[b.aid]
            if x.e is None or y.e is None:
                return unk("merge")
            k = freshix()
            la, lb = (x.ln if x.islist and a.off is ZERO else a.ln), (y.ln if y.islist and b.off is ZERO else b.ln)
            e1, e2 = subst(x.e, {x.var: add(a.off, k)}), subst(y.e, {y.var: add(b.off, k)})
            if la is ZERO and y.islist:            # an empty list has the element type of the other one
                e1 = e2
            elif lb is ZERO and x.islist:
                e2 = e1
            return self.new(st, ite(c, la, lb), ite(c, e1, e2), k, islist=x.islist and y.islist)
        if isinstance(a, S) and isinstance(b, S) and a == b:
            return a
        return unk("merge")

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """-> list of (cond, kind, state, value); conditions are exclusive"""
        outs = []
        cur, cc = st, T
        for s in stmts:
            nxt = []
            for c, k, s2, v in self.stmt(s, cur):
                if k == "next":
                    nxt.append((c, s2))
                else:
                    outs.append((and_(cc, c), k, s2, v))
            if not nxt:
                return outs
            live = or_(*[c for c, _ in nxt])
            m = nxt[-1][1]
            for c, s2 in reversed(nxt[:-1]):
                m = self.merge(c, s2, m)
            if len(nxt) >= 1 and live is not T:
                m = St(m.env, m.heap, m.facts | set(atoms_of(live)))
            cur = m
            cc = and_(cc, live)
        outs.append((cc, "next", cur, None))
        return outs

    def stmt(self, node, st):
        m = getattr(self, "st_" + type(node).__name__, None)
        if m is None:
            self.taint_stmt(node, st, type(node).__name__)
            return [(T, "next", st, None)]
        return m(node, st)

    def taint_stmt(self, node, st, why):
        self.taints.append((getattr(node, "lineno", 0), why))
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.env[n.id] = unk(why)
            nm = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                nm = n.value.id
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                nm = n.func.value.id
            if nm is not None:
                v = st.env.get(nm)
                if isinstance(v, A):
                    b = st.heap[v.aid]
                    st.heap[v.aid] = Body(unk(why) if b.islist else b.ln, b.var, unk(why, b.var), b.islist)
            if isinstance(n, ast.Call):
                for x in n.args:
                    if isinstance(x, ast.Name) and isinstance(st.env.get(x.id), A) and not (isinstance(n.func, ast.Name) and n.func.id in ("len", "range", "prange")):
                        v = st.env[x.id]
                        b = st.heap[v.aid]
                        st.heap[v.aid] = Body(unk(why) if b.islist else b.ln, b.var, unk(why, b.var), b.islist)

    def st_Pass(self, node, st):
        return [(T, "next", st, None)]

    st_Import = st_ImportFrom = st_Global = st_Pass

    def st_Expr(self, node, st):
        st = st.copy()
        v = node.value
        if isinstance(v, ast.Constant):
            return [(T, "next", st, None)]
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "append" and isinstance(v.func.value, ast.Name):
            l = st.env.get(v.func.value.id)
            x = self.ev(v.args[0], st)
            if isinstance(l, A) and st.heap[l.aid].islist:
                self.append(l, x, st)
            return [(T, "next", st, None)]
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "fill" and isinstance(v.func.value, ast.Name):
            l = st.env.get(v.func.value.id)
            x = self.ev(v.args[0], st)
            if isinstance(l, A):
                self.store(l, ZERO, l.ln, x, st, whole=l.off is ZERO)
            return [(T, "next", st, None)]
        self.ev(v, st)
        return [(T, "next", st, None)]

    def append(self, l, x, st):
        b = st.heap[l.aid]
        if isinstance(x, A):
            y = st.heap[x.aid]
            if y.e is None:
                st.heap[l.aid] = Body(b.ln, b.var, unk("append", b.var), True)
                return
            k = freshix()
            i = freshix()
            cell = subst(y.e, {y.var: add(x.off, k)})
            if b.arr is None and b.ln is ZERO:
                st.heap[l.aid] = Body(ONE, b.var, None, True, ArrEl(i, k, x.ln, cell))
            elif b.ln.h == "prelen" or b.ln.fl & 4:
                st.heap[l.aid] = Body(add(b.ln, ONE), b.var, None, True, ArrEl(i, k, x.ln, cell))
            else:
                st.heap[l.aid] = Body(add(b.ln, ONE), b.var, unk("append", b.var), True)
            return
        if not isinstance(x, N):
            st.heap[l.aid] = Body(b.ln, b.var, unk("append", b.var), True)
            return
        if b.e is None:
            return
        st.heap[l.aid] = Body(add(b.ln, ONE), b.var, ite(cmp("==", b.var, b.ln), num(x), b.e), True)

    def st_Assign(self, node, st):
        st = st.copy()
        v = self.ev(node.value, st)
        for t in node.targets:
            self.assign(t, v, st)
        return [(T, "next", st, None)]

    def st_AnnAssign(self, node, st):
        st = st.copy()
        if node.value is not None:
            self.assign(node.target, self.ev(node.value, st), st)
        return [(T, "next", st, None)]

    def st_AugAssign(self, node, st):
        st = st.copy()
        v = self.ev(node.value, st)
        t = node.target
        if isinstance(t, ast.Name):
            old = st.env.get(t.id, unk("unbound"))
            if isinstance(old, A):
                k = freshix()
                if isinstance(v, A):
                    y = st.heap[v.aid]
                    f = lambda p: self.arith(node.op, None, subst(y.e, {y.var: add(v.off, p)}))
                    self.store(old, ZERO, old.ln, lambda p: subst(y.e, {y.var: add(v.off, p)}) if y.e is not None else unk("aug"), st,
                               aug=lambda o, x: self.arith(node.op, o, x), whole=old.off is ZERO)
                else:
                    self.store(old, ZERO, old.ln, v, st, aug=lambda o, x: self.arith(node.op, o, x), whole=old.off is ZERO)
            else:
                st.env[t.id] = self.binop(node.op, old, v, st)
        elif isinstance(t, ast.Subscript):
            self.assign_sub(t, v, st, aug=node.op)
        return [(T, "next", st, None)]

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, tuple) and len(v) == len(t.elts):
                for x, y in zip(t.elts, v):
                    self.assign(x, y, st)
            else:
                for i, x in enumerate(t.elts):
                    self.assign(x, unk("unpack"), st)
        elif isinstance(t, ast.Subscript):
            self.assign_sub(t, v, st)

    def assign_sub(self, t, v, st, aug=None):
        b = self.unmaybe(self.ev(t.value, st))
        if not isinstance(b, A) or st.heap[b.aid].e is None:
            return
        f = (lambda o, x: self.arith(aug, o, x)) if aug is not None else None
        if isinstance(t.slice, ast.Slice):
            r = self.slice(b, t.slice, st)
            if r is None:
                st.heap[b.aid] = Body(st.heap[b.aid].ln, st.heap[b.aid].var, unk("slice store"))
                return
            lo, ln = sub(r.off, b.off), r.ln
            if isinstance(v, A):
                y = st.heap[v.aid]
                val = (lambda p: subst(y.e, {y.var: add(v.off, p)})) if y.e is not None else unk("src")
            else:
                val = v if isinstance(v, N) else unk("src")
            whole = t.slice.lower is None and t.slice.upper is None and b.off is ZERO
            self.store(b, lo, ln, val, st, f, whole)
            return
        i = self.ev(t.slice, st)
        if isinstance(i, A):
            # scattered store through an index array: a[idx] += v
            y, kk = st.heap[i.aid], st.heap[b.aid]
            if isbool_arr(y):
                vv = v
                if isinstance(v, N):
                    cond = lambda p: subst(y.e, {y.var: add(i.off, p)})
                    k = kk.var
                    st.heap[b.aid] = Body(kk.ln, k, ite(cond(sub(k, b.off)), f(kk.e, vv) if f else vv, kk.e), kk.islist)
                    return
            if f is not None and y.e is not None and kk.e is not None and (isinstance(v, N) or isinstance(v, A) and st.heap[v.aid].e is not None):
                # positions are distinct (price levels, codes): each cell takes at most one of the values
                q = freshix()
                k = kk.var
                p_ = first(i.ln, q, cmp("==", num(subst(y.e, {y.var: add(i.off, q)})), sub(k, b.off)))
                val = v if isinstance(v, N) else subst(st.heap[v.aid].e, {st.heap[v.aid].var: add(v.off, p_)})
                st.heap[b.aid] = Body(kk.ln, k, ite(cmp(">", i.ln, p_), f(kk.e, num(val)), kk.e), kk.islist)
                return
            st.heap[b.aid] = Body(kk.ln, kk.var, unk("scatter", kk.var))
            return
        if not isinstance(i, N):
            st.heap[b.aid] = Body(st.heap[b.aid].ln, st.heap[b.aid].var, unk("index"))
            return
        self.store(b, self.index(b, num(i)), None, v, st, f)

    def st_Return(self, node, st):
        st = st.copy()
        v = self.ev(node.value, st) if node.value is not None else NONE
        return [(T, "return", st, v)]

    def st_Raise(self, node, st):
        return []

    def st_Assert(self, node, st):
        st = st.copy()
        c = self.cond(node.test, st)
        st.facts = st.facts | set(atoms_of(c))
        return [(T, "next", st, None)]

    def st_Break(self, node, st):
        return [(T, "break", st, None)]

    def st_Continue(self, node, st):
        return [(T, "continue", st, None)]

    def st_With(self, node, st):
        return self.block(node.body, st)

    def st_If(self, node, st):
        st = st.copy()
        c = self.csimp(self.cond(node.test, st), st)
        outs = []
        if c is not F:
            s1 = St(dict(st.env), dict(st.heap), st.facts | set(atoms_of(c)))
            for c2, k, s, v in self.block(node.body, s1):
                outs.append((and_(c, c2), k, s, v))
        if c is not T:
            s2 = St(dict(st.env), dict(st.heap), st.facts | set(atoms_of(not_(c))))
            for c2, k, s, v in (self.block(node.orelse, s2) if node.orelse else [(T, "next", s2, None)]):
                outs.append((and_(not_(c), c2), k, s, v))
        # the arms of one `if` join here (facts of the join: what both know)
        return outs

    def st_While(self, node, st):
        st = st.copy()
        names = sorted({n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        head = st.copy()
        v = freshix()
        pre = {}
        for n in names:
            x = head.env.get(n)
            if isinstance(x, N):
                pre[n] = mk("pre", n, v.a[0], True if isbool(x) else isint(x))
                head.env[n] = pre[n]
            elif x is not None and not isinstance(x, (Fnc, ModRef)):
                head.env[n] = unk("rebound " + n)
        c0 = self.cond(node.test, head)
        s0 = head.copy()
        s0.facts = s0.facts | set(atoms_of(c0))
        outs = self.block(node.body, s0)
        t = node.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name) \
                and t.left.id in pre and not node.orelse and isinstance(st.env.get(t.left.id), N):
            nm = t.left.id
            hi = self.ev(t.comparators[0], head)
            if isinstance(hi, N) and isint(num(hi)) and not any(x.h in ("pre", "prearr", "prelen") and x.a[1] == v.a[0] for x in find(hi, lambda x: True)) \
                    and all(s2.env.get(nm) is add(pre[nm], ONE) for c, k, s2, _ in outs if k in ("next", "continue")) \
                    and all(k in ("next", "continue") for _, k, _, _ in outs):
                hi = num(hi) if isinstance(t.ops[0], ast.Lt) else add(num(hi), ONE)
                lo = st.env[nm]
                fake = ast.For(target=ast.Name(id=nm, ctx=ast.Store()), iter=t, body=node.body, orelse=[], lineno=node.lineno)
                i = freshix()

                def bind(s, idx):
                    s.env[nm] = idx
                r = self.loop(fake, st, i, lo, hi, bind)
                for _, k, s2, _ in r:
                    if k == "next":
                        s2.env[nm] = ext("max", lo, hi)
                return r
        ok = not node.orelse and all(k in ("next", "continue", "break") for _, k, _, _ in outs)
        if ok:
            for c, k, s2, _ in outs:
                if any(s2.heap.get(a) is not b for a, b in head.heap.items()):
                    ok = False
        if not ok:
            self.taint_stmt(node, st, "while loop")
            return [(T, "next", st, None)]
        end = outs[-1][2]
        for c, k, s2, _ in reversed(outs[:-1]):
            end = self.merge(c, s2, end)
        brk = or_(*[c for c, k, _, _ in outs if k == "break"])
        names = [n for n in pre]
        ss = [pre[n] for n in names]
        inits = [num(st.env[n]) for n in names]
        bodies = [num(end.env[n]) if isinstance(end.env.get(n), N) else unk("while") for n in names]
        cond = c0
        if brk is not F:
            a = mk("pre", "alive", v.a[0], True)
            ss.append(a)
            inits.append(ONE)
            bodies.append(ite(brk, ZERO, ONE))
            cond = and_(c0, cmp(">=", a, ONE))
        for j, n in enumerate(names):
            if bodies[j] is ss[j]:
                continue
            need = X._needed(bodies, ss, j, (cond,))
            if cond.h == "unk" or any(bodies[q].h == "unk" or inits[q].h == "unk" for q in need):
                st.env[n] = unk("while loop")
            else:
                st.env[n] = wfold(v, ss, inits, cond, bodies, j)
        for n in {n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - set(names):
            st.env[n] = unk("while local")
        return [(T, "next", st, None)]

    def st_Try(self, node, st):
        return self.block(node.body, st)

    def st_FunctionDef(self, node, st):
        st = st.copy()
        st.env[node.name] = Fnc(node, self.mods[-1])
        return [(T, "next", st, None)]

    # ------------------------------------------------------------ loops
    def st_For(self, node, st):
        st = st.copy()
        it = node.iter
        i = freshix()
        binds = None
        if isinstance(it, ast.Call):
            f = it.func
            fname = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if fname in ("range", "prange"):
                a = [self.ev(x, st) for x in it.args]
                a = [num(x) if isinstance(x, N) else unk("range") for x in a]
                lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
                if len(a) == 3 and const(a[2]) == -1:
                    # lo, lo-1, ..., hi+1
                    def bind(s, idx):
                        self.assign(node.target, sub(lo, idx), s)
                    return self.loop(node, st, i, ZERO, sub(lo, hi), bind)
                if len(a) == 3 and const(a[2]) != 1:
                    self.taint_stmt(node, st, "strided loop")
                    return [(T, "next", st, None)]

                def bind(s, idx):
                    self.assign(node.target, idx, s)
                return self.loop(node, st, i, lo, hi, bind)
            if fname in ("enumerate", "zip"):
                arrs = [self.ev(x, st) for x in it.args]
                base = 0
                if all(isinstance(x, A) for x in arrs):
                    def bind(s, idx):
                        vs = tuple(self.cell(x, idx, s) for x in arrs)
                        self.assign(node.target, (idx, vs[0]) if fname == "enumerate" else vs, s)
                    return self.loop(node, st, i, ZERO, arrs[0].ln, bind)
        v = self.ev(it, st)
        if isinstance(v, A):
            def bind(s, idx):
                self.assign(node.target, self.cell(v, idx, s), s)
            return self.loop(node, st, i, ZERO, v.ln, bind)
        if isinstance(v, tuple):
            outs = []
            cur, cc = st, T
            for x in v:
                cur = cur.copy()
                self.assign(node.target, x, cur)
                r = self.block(node.body, cur)
                if any(k not in ("next", "continue") for _, k, _, _ in r):
                    self.taint_stmt(node, st, "loop exit")
                    return [(T, "next", st, None)]
                nx = [(c, s) for c, k, s, _ in r]
                cur = nx[-1][1]
                for c, s in reversed(nx[:-1]):
                    cur = self.merge(c, s, cur)
            return [(T, "next", cur, None)]
        self.taint_stmt(node, st, "iterable")
        return [(T, "next", st, None)]

    def loop(self, node, st, i, lo, hi, bind):
        uid = i.a[0]
        # what the body assigns
        names = sorted({n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        tgt = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        head = st.copy()
        head.facts = st.facts | {cmp(">=", i, lo), cmp(">=", sub(hi, ONE), i)}
        pre = {}
        for n in names:
            if n in tgt:
                continue
            v = head.env.get(n)
            if isinstance(v, N):
                pre[n] = mk("pre", n, uid, isint(v) if not isbool(v) else False)
                if isbool(v):
                    pre[n] = mk("pre", n, uid, True)
                head.env[n] = pre[n]
            elif v is not None and not isinstance(v, (Fnc, ModRef)):
                # an array / tuple variable rebound in the loop
                head.env[n] = unk("rebound " + n)
        for n in names:
            if n in tgt and n in head.env:
                del head.env[n]
        parr = {}
        for aid, b in list(head.heap.items()):
            if isinstance(b, Rec):
                continue
            if b.e is None and b.arr is not None and not b.islist:
                continue
            if b.islist:
                parr[aid] = ("list",)
                head.heap[aid] = Body(mk("prelen", aid, uid), b.var, mk("prearr", aid, uid, b.var) if b.e is not None else None, True, b.arr)
            else:
                parr[aid] = ("arr",)
                head.heap[aid] = Body(b.ln, b.var, mk("prearr", aid, uid, b.var), False)
        start_heap = dict(head.heap)
        s0 = head.copy()
        bind(s0, i)
        outs = self.block(node.body, s0)
        nxt = [(c, s) for c, k, s, v in outs if k in ("next", "continue")]
        exits = [(c, k, s, v) for c, k, s, v in outs if k in ("break", "return")]
        if not nxt:
            # every iteration leaves: one iteration at most
            self.taint_stmt(node, st, "loop always exits")
            return [(T, "next", st, None)]
        end = nxt[-1][1]
        for c, s in reversed(nxt[:-1]):
            end = self.merge(c, s, end)
        # ---- solve the carried values
        old = {a: st.heap[a] for a in parr}
        posts, arrs = {}, {}
        for n, P in pre.items():
            v = end.env.get(n)
            if isinstance(v, N):
                v = num(v)
                if v is not P:
                    posts[("v", n)] = v
            else:
                posts[("v", n)] = unk("type of " + n)
        lists = {}
        for aid in parr:
            b1, b0 = end.heap[aid], start_heap[aid]
            if b1 is b0:
                continue
            if b1.islist:
                lists[aid] = b1
                continue
            e1 = subst(b1.e, {b1.var: b0.var}) if b1.e is not None else unk("array")
            if e1 is not b0.e:
                posts[("a", aid)] = e1
        self.close = {}
        done = {}          # entity -> closed value before iteration i (arrays: as function of var)
        cur = dict(posts)
        inits = {}
        for ent in cur:
            inits[ent] = num(st.env[ent[1]]) if ent[0] == "v" else num(old[ent[1]].e)
        unchanged = {P: num(st.env[n]) for n, P in pre.items() if ("v", n) not in posts}

        def prune(e):
            """content of arrays that this loop leaves alone, scalars it leaves alone"""
            def f(x, go):
                if x.h == "prearr" and x.a[1] == uid:
                    aid = x.a[0]
                    if ("a", aid) not in posts and aid not in lists:
                        b = old[aid]
                        return subst(b.e, {b.var: go(x.a[2])})
                return None
            return subst(rewrite(e, f, 16), unchanged)

        def refs(e, me):
            r = set()
            for x in find(e, lambda x: x.h in ("pre", "prearr", "prelen") and x.a[1] == uid):
                if x.h == "pre":
                    r.add(("v", x.a[0]))
                elif x.h == "prearr":
                    r.add(("a", x.a[0]))
                else:
                    r.add(("l", x.a[0]))
            return r - {me}
        hst = St({}, {}, head.facts)

        def prune(e, prune=prune):
            r = prune(e)
            return self.deep(r, hst) if r is not e and e.fl & 16 and r.fl & 1 else r
        cur = {k: prune(v) for k, v in cur.items()}
        lo_i = lo

        def closed_subst(e):
            def f(x, go):
                if x.h == "prearr" and x.a[1] == uid and ("a", x.a[0]) in done:
                    var, g = done[("a", x.a[0])]
                    return subst(g, {var: go(x.a[2])})
                if x.h == "pre" and x.a[1] == uid and ("v", x.a[0]) in done:
                    return done[("v", x.a[0])]
                return None
            return rewrite(e, f, 16)
        if DEBUG: print("CUR", {k: show(v) for k, v in cur.items()})
        grow = self.growing(cur, pre, start_heap, uid, i)
        for m, adv, cells in grow:
            cur[("v", m)] = ite(adv, add(pre[m], ONE), pre[m])
            for aid, (sym, e) in cells.items():
                nm = f"cell {aid}"
                cur[("v", nm)] = e
                inits[("v", nm)] = subst(num(old[aid].e), {old[aid].var: inits[("v", m)]})
                pre[nm] = sym
                del cur[("a", aid)]
        pending = dict(cur)
        stuck = {}         # arrays without a closed form of their own
        progress = True
        while pending and progress:
            progress = False
            for ent in list(pending):
                e = closed_subst(pending[ent])
                if refs(e, ent):
                    pending[ent] = e
                    continue
                del pending[ent]
                progress = True
                if ent[0] == "v":
                    P = pre[ent[1]]
                    done[ent] = self.solve(e, P, inits[ent], i, lo)
                else:
                    var = start_heap[ent[1]].var
                    r = self.solve_arr(e, ent[1], uid, var, inits[ent], i, lo, st)
                    if r.h == "unk" and e.h != "unk" and not e.fl & 1:
                        stuck[ent] = e
                    else:
                        done[ent] = (var, r)
            if not progress and pending:
                # scalars that depend on each other: one vector recurrence
                grp = {e for e in pending if e[0] == "v"}
                ch = True
                while ch:
                    ch = False
                    for e in list(grp):
                        if refs(pending[e], e) - grp:
                            grp.discard(e)
                            ch = True
                grp = self.scc(grp, {e: refs(pending[e], e) for e in grp})
                if grp and not any(pending[e].h == "unk" or inits[e].h == "unk" for e in grp):
                    grp = sorted(grp)
                    v = freshix()
                    ss = [pre[e[1]] for e in grp]
                    bodies = [subst(pending[e], {i: add(lo, v)}) for e in grp]
                    for q, e in enumerate(grp):
                        done[e] = vfold(sub(i, lo), v, ss, [inits[x] for x in grp], bodies, q)
                    for e in grp:
                        del pending[e]
                    progress = True
                elif grp:
                    for e in grp:
                        done[e] = unk("carried")
                        del pending[e]
                    progress = True
        if stuck or pending:
            self.together({**pending, **stuck}, done, closed_subst, refs, pre, start_heap, old, inits, uid, i, lo)
            for ent in list(pending):
                if ent in done:
                    del pending[ent]
            for ent in stuck:
                if ent not in done:
                    pending[ent] = stuck[ent]
        for ent in pending:
            done[ent] = unk("mutual recurrence", i) if ent[0] == "v" else (start_heap[ent[1]].var, unk("mutual recurrence", i, start_heap[ent[1]].var))
        for m, adv, cells in grow:
            ac = closed_subst(adv)
            j = freshix()
            for aid in cells:
                nm = f"cell {aid}"
                del pre[nm]
                var = start_heap[aid].var
                init = inits[("a", aid)]
                m0, M, cv = inits[("v", m)], done[("v", m)], done[("v", nm)]
                t = sub(i, lo)
                g = or_(cmp("==", j, t), subst(ac, {i: add(lo, j)}))
                val = filt(add(t, ONE), j, g, subst(cv, {i: add(lo, j)}), sub(var, m0))
                done[("a", aid)] = (var, ite(and_(cmp(">=", var, m0), cmp(">=", M, var)), val, init))
        # ---- leave the loop
        n_it = sub(hi, lo)
        res = []
        stop = None
        if exits:
            ec = or_(*[c for c, *_ in exits])
            ec = closed_subst(prune(ec))
            v = freshix()
            if any(x.h in ("pre", "prearr") and x.a[1] == uid for x in find(ec, lambda x: x.h in ("pre", "prearr"))):
                self.taint_stmt(node, st, "exit condition")
                return [(T, "next", st, None)]
            stop = first(n_it, v, subst(ec, {i: add(lo, v)}))
        fin = st.copy()

        def final(ent, at_):
            d = done[ent]
            return subst(d, {i: at_}) if ent[0] == "v" else subst(d[1], {i: at_})

        def finish(s, at_, over=None):
            """state after the loop: entities at index at_ (over: state of an exit at that index)"""
            for n, P in pre.items():
                ent = ("v", n)
                if over is not None:
                    x = over.env.get(n)
                    s.env[n] = self.simp(subst(closed_subst(prune(num(x))), {i: at_}), s) if isinstance(x, N) else unk("exit")
                elif ent in posts:
                    s.env[n] = self.simp(final(ent, at_), s)
            for aid in parr:
                ent = ("a", aid)
                b = old[aid]
                if over is not None:
                    x = over.heap.get(aid)
                    if x is start_heap[aid]:
                        continue
                    if x.islist:
                        s.heap[aid] = Body(unk("list"), b.var, unk("list", b.var), True)
                        continue
                    e = subst(x.e, {x.var: b.var})
                    s.heap[aid] = Body(b.ln, b.var, subst(closed_subst(prune(e)), {i: at_}) if stop is None or ent in posts or True else b.e, b.islist)
                elif ent in posts:
                    var = done[ent][0]
                    s.heap[aid] = Body(b.ln, b.var, self.simp(subst(final(ent, at_), {var: b.var}), s))
            for aid, b1 in lists.items():
                s.heap[aid] = self.solve_list(aid, b1, old[aid], uid, i, lo, at_, closed_subst, prune, over)
            for n in names:
                if n not in pre:
                    x = end.env.get(n) if over is None else over.env.get(n)
                    # last value of a variable first assigned in the loop
                    if isinstance(x, N):
                        y = closed_subst(prune(num(x)))
                        last = sub(at_, ONE) if over is None else at_
                        s.env[n] = subst(y, {i: last})
                    else:
                        s.env[n] = unk("loop local " + n)
            return s
        if stop is None:
            finish(fin, hi)
            r = [(T, "next", fin, None)]
            if node.orelse:
                return self.block(node.orelse, fin)
            return r
        stopped = cmp(">", n_it, stop)
        stopped = self.csimp(stopped, st)
        at_ = add(lo, stop)
        # several exits: which one fires at the stop position
        alts = []
        for c, k, s, v in exits:
            cc = subst(closed_subst(prune(c)), {i: at_}) if len(exits) > 1 else T
            alts.append((cc, k, s, v))
        nextstates = [(not_(stopped), finish(St(dict(st.env), dict(st.heap), st.facts | {not_(stopped)}), hi))]
        seen = F
        for j, (cc, k, s, v) in enumerate(alts):
            c = and_(stopped, cc if j < len(alts) - 1 else T, not_(seen))
            seen = or_(seen, cc)
            s2 = finish(St(dict(st.env), dict(st.heap), st.facts | {stopped}), at_, over=s)
            if k == "return":
                def tr(x):
                    return self.simp(subst(closed_subst(prune(x)), {i: at_}), s2)
                res.append((c, "return", s2, vmap(v, tr)))
            else:
                nextstates.append((c, s2))
        if node.orelse:
            self.taint_stmt(node, st, "loop else")
        m = nextstates[-1][1]
        for c, s in reversed(nextstates[:-1]):
            m = self.merge(c, s, m)
        res.append((or_(*[c for c, _ in nextstates]), "next", m, None))
        return res

    def together(self, todo, done, closed_subst, refs, pre, start_heap, old, inits, uid, i, lo):
        """what no solver could separate: one recurrence over all of it, arrays carried as values"""
        ents = {e: closed_subst(x) for e, x in todo.items()}
        ch = True
        while ch:
            ch = False
            for e, x in list(ents.items()):
                if x.fl & 1 or refs(x, e) - ents.keys() or (e[0] == "v" and inits[e].fl & 1) or (e[0] == "a" and old[e[1]].ln is None):
                    del ents[e]
                    ch = True
        if not ents:
            return
        order = sorted(ents, key=str)
        v = freshix()
        sym = {e: pre[e[1]] if e[0] == "v" else mk("pre", f"arr{e[1]}", uid, False) for e in order}

        def sels(x, go):
            if x.h == "prearr" and x.a[1] == uid and ("a", x.a[0]) in ents:
                return mk("sel", sym[("a", x.a[0])], go(x.a[2]))
            return None
        bodies, begin = [], []
        for e in order:
            x = subst(rewrite(ents[e], sels), {i: add(lo, v)})
            if e[0] == "v":
                bodies.append(x)
                begin.append(inits[e])
            else:
                var, b = start_heap[e[1]].var, old[e[1]]
                bodies.append(X.lam(b.ln, var, x))
                begin.append(X.lam(b.ln, var, inits[e]))
        for q, e in enumerate(order):
            r = vfold(sub(i, lo), v, [sym[x] for x in order], begin, bodies, q)
            done[e] = r if e[0] == "v" else (start_heap[e[1]].var, mk("sel", r, start_heap[e[1]].var))

    def growing(self, cur, pre, start, uid, i):
        """arrays written at a counter that only ever moves to the next cell: (counter, advance, {array: (cell, next)})"""
        out = []
        for ent in list(cur):
            if ent[0] != "v" or cur[ent].h != "ite":
                continue
            P = pre[ent[1]]
            e = cur[ent]
            if e.a[1] is add(P, ONE) and e.a[2] is P:
                adv = e.a[0]
            elif e.a[2] is add(P, ONE) and e.a[1] is P:
                adv = not_(e.a[0])
            else:
                continue
            G = {}
            for q in cur:
                if q[0] == "a" and P in cur[q].fs:
                    G[q[1]] = mk("pre", f"cell {q[1]}", uid, False)
            while True:
                rep = {mk("prearr", a, uid, P): c for a, c in G.items()}
                adv2 = replace_atoms(adv, rep)
                flags = sorted(find(adv2, lambda x: x.h in ("isnone", "flag")))[:2]
                cells, bad = {}, None
                for a, c in G.items():
                    k = start[a].var
                    Pk = mk("prearr", a, uid, k)
                    f = replace_atoms(cur[("a", a)], rep)
                    N1 = mk("prearr", a, uid, add(P, ONE))
                    z = self.arms(f, frozenset([not_(cmp("==", k, P)), not_(cmp("==", k, add(P, ONE)))]))
                    if z is not Pk:
                        bad = a
                        break
                    atP = replace_atoms(subst(f, {k: P}), rep)
                    atN = subst(f, {k: add(P, ONE)})

                    def under_(asg, todo):
                        if todo:
                            x, y = under_(asg + [todo[0]], todo[1:]), under_(asg + [not_(todo[0])], todo[1:])
                            return None if x is None or y is None else ite(todo[0], x, y)
                        g = csimp(adv2, frozenset(asg))
                        yes, no = frozenset(atoms_of(g)) | {g} | set(asg), frozenset(atoms_of(not_(g))) | {not_(g)} | set(asg)
                        if self.arms(atP, yes) is not c or self.arms(atN, no) is not N1:
                            return None
                        return ite(g, replace_atoms(self.arms(atN, yes), {N1: unk("unwritten", i)}), self.arms(atP, no))
                    nxt = under_([], flags)
                    if DEBUG: print("NXT", a, show(f), nxt is not None and show(nxt))
                    if nxt is None or any(x.a[1] == uid for x in find(nxt, lambda x: x.h == "prearr")):
                        bad = a
                        break
                    cells[a] = (c, nxt)
                if bad is None:
                    break
                del G[bad]
            if DEBUG: print("GROW", show(adv2), {a: show(x[1]) for a, x in cells.items()}, "G", G, "bad", bad)
            if cells and not any(x.a[1] == uid and x.a[0] in cells for q, e2 in cur.items() if q[0] == "v" and q[1] != ent[1]
                                 for x in find(replace_atoms(e2, rep), lambda x: x.h == "prearr")):
                for q in cur:
                    if q[0] == "v":
                        cur[q] = replace_atoms(cur[q], rep)
                out.append((ent[1], adv2, cells))
                break
        return out

    def arms(self, e, facts):
        """choose the arms of guards decided by the facts"""
        if e.h == "ite":
            c = csimp(e.a[0], facts)
            if c is T:
                return self.arms(e.a[1], facts)
            if c is F:
                return self.arms(e.a[2], facts)
            return ite(c, self.arms(e.a[1], facts), self.arms(e.a[2], facts))
        return e

    def scc(self, nodes, deps):
        """a strongly connected group that depends on nothing outside itself"""
        if not nodes:
            return set()
        def reach(x):
            r, todo = set(), [x]
            while todo:
                y = todo.pop()
                for z in deps[y]:
                    if z not in r:
                        r.add(z)
                        todo.append(z)
            return r
        R = {x: reach(x) for x in nodes}
        return min(({x} | R[x] for x in sorted(nodes)), key=len)

    def solve(self, e, P, init, i, lo):
        """value before iteration i, given the value after one iteration e(P, i) and the initial value"""
        e = X.stamp(e, i)
        if e.h == "unk":
            return ite(cmp("==", i, lo), init, subst(e, {i: sub(i, ONE)}))
        if e is P:
            return init
        v = freshix()
        t = sub(i, lo)
        if P not in e.fs:
            return ite(cmp("==", i, lo), init, subst(e, {i: sub(i, ONE)}))
        d = self.delta(e, P)
        if d is not None:
            return add(init, red("sum", t, v, subst(d, {i: add(lo, v)})))
        for k, bot in (("max", neg(INF)), ("min", INF)):
            d = self.extr(e, P, k, bot)
            if d is not None:
                return ext(k, init, red(k, t, v, subst(d, {i: add(lo, v)})))
        r = self.lastpat(e, P)
        if r is not None:
            return red("last", t, v, subst(r, {i: add(lo, v)}), init)
        r = self.sliding(e, P, init, i, lo)
        if r is not None:
            return r
        return fold(t, v, P, init, subst(e, {i: add(lo, v)}))

    def sliding(self, e, P, init, i, lo):
        return None

    def delta(self, e, P):
        """e = P + d with d free of P"""
        if e is P:
            return ZERO
        if e.h == "ite":
            if P in e.a[0].fs:
                return None
            a, b = self.delta(e.a[1], P), self.delta(e.a[2], P)
            return None if a is None or b is None else ite(e.a[0], a, b)
        d = sub(e, P)
        return None if P in d.fs else d

    def extr(self, e, P, k, bot):
        if e is P:
            return bot
        if e.h == k and P in e.a[0]:
            r = [x for x in e.a[0] if x is not P]
            if any(P in x.fs for x in r):
                return None
            return ext(k, *r)
        if e.h == "ite" and P not in e.a[0].fs:
            a, b = self.extr(e.a[1], P, k, bot), self.extr(e.a[2], P, k, bot)
            return None if a is None or b is None else ite(e.a[0], a, b)
        return None

    def lastpat(self, e, P):
        if e is P:
            return NONE
        if P not in e.fs:
            return e
        if e.h == "ite" and P not in e.a[0].fs:
            a, b = self.lastpat(e.a[1], P), self.lastpat(e.a[2], P)
            return None if a is None or b is None else ite(e.a[0], a, b)
        return None

    def solve_arr(self, e, aid, uid, k, init, i, lo, st):
        """content at position k before iteration i; init: content at k before the loop"""
        e = X.stamp(e, i, k)
        if e.h == "unk":
            return e
        P = mk("prearr", aid, uid, k)
        # under a guard k == x, content at x is content at k
        e = self.eqcells(e, aid, uid, k)
        others = [x for x in find(e, lambda x: x.h == "prearr" and x.a[0] == aid and x.a[1] == uid) if x is not P]
        sel = self.selected(e, P, k, i)
        if DEBUG:
            print("solve_arr", show(e), "P", show(P), "sel", sel, others)
        if sel is not None:
            val = replace_atoms(sel[1], {mk("prearr", aid, uid, add(i, sel[0])): P})
            sel = sel[0], val
            others = [x for x in find(val, lambda x: x.h == "prearr" and x.a[0] == aid and x.a[1] == uid) if x is not P]
            c, val = sel         # written in the iteration where i == k - c (one position per iteration)
            if not others and P not in val.fs:
                w = subst(val, {i: sub(k, c)})
                return ite(and_(cmp(">=", sub(k, c), lo), cmp(">", i, sub(k, c))), w, init)
            if not others:
                w = subst(replace_atoms(val, {P: init}), {i: sub(k, c)})
                return ite(and_(cmp(">=", sub(k, c), lo), cmp(">", i, sub(k, c))), w, init)
            prev = add(i, sub(c, ONE))
            val = replace_atoms(val, {P: subst(init, {k: add(i, c)})}) if P in val.fs else val
            if all(x.a[2] is prev for x in others) and P not in val.fs:
                s = mk("pre", "cell", uid, isint(init))
                f = replace_atoms(val, {x: s for x in others})
                v0 = subst(init, {k: add(lo, sub(c, ONE))})
                X_ = self.solve(f, s, v0, i, lo)
                # value stored by iteration t = closed value before iteration t+1
                w = subst(X_, {i: add(sub(k, c), ONE)})
                return ite(and_(cmp(">=", sub(k, c), lo), cmp(">", i, sub(k, c))), w, init)
            return unk("array recurrence", i, k)
        if others:
            return unk("array recurrence", i, k)
        s = mk("pre", "cell", uid, isint(init))
        f = replace_atoms(e, {P: s})
        # a guard on k that does not involve i: one cell
        return self.solve(f, s, init, i, lo)

    def eqcells(self, e, aid, uid, k):
        """inside [k == x ? a : b] replace content(x) by content(k)"""
        if e.h != "ite":
            return e
        m = {}
        for c in atoms_of(e.a[0]):
            if c.h == "eq0" and k in c.a[0].fs:
                co = terms(c.a[0]).get(((k, Fr(1)),))
                if co in (1, -1):
                    x = sub(k, c.a[0]) if co == 1 else add(k, c.a[0])
                    m[mk("prearr", aid, uid, x)] = mk("prearr", aid, uid, k)
        a = replace_atoms(e.a[1], m) if m else e.a[1]
        return ite(e.a[0], self.eqcells(a, aid, uid, k), self.eqcells(e.a[2], aid, uid, k))

    def selected(self, e, P, k, i):
        """[k - i == c (and g) ? val : P]  ->  (c, val)"""
        if e.h != "ite":
            # the guard sits inside a sum or an extremum: bring it out
            inner = [x for m, _ in terms(e).items() for x, p in m if x.h == "ite" and p == 1] if e.h == "+" else list(e.a[0]) if e.h in ("max", "min") else []
            for x in inner:
                if x.h == "ite":
                    for c in atoms_of(x.a[0]):
                        if c.h == "eq0" and k in c.a[0].fs and i in c.a[0].fs:
                            no = simp(e, frozenset([not_(c)]))
                            if no is P:
                                yes = simp(e, frozenset([c]))
                                if yes.h == "ite" and yes.a[0].h == "eq0" and yes.a[0].a[0] is c.a[0]:
                                    yes = yes.a[1]
                                ts = terms(c.a[0])
                                ck, ci = ts.get(((k, Fr(1)),)), ts.get(((i, Fr(1)),))
                                if ck in (1, -1) and ci == -ck:
                                    off = sub(c.a[0], sub(k, i)) if ck == 1 else sub(c.a[0], sub(i, k))
                                    off = neg(off) if ck == 1 else off
                                    if i not in off.fs and k not in off.fs:
                                        return off, yes
            return None
        for c in atoms_of(e.a[0]):
            if c.h == "eq0":
                ts = terms(c.a[0])
                ck, ci = ts.get(((k, Fr(1)),)), ts.get(((i, Fr(1)),))
                if ck in (1, -1) and ci == -ck:
                    off = sub(c.a[0], sub(k, i)) if ck == 1 else sub(c.a[0], sub(i, k))
                    off = neg(off) if ck == 1 else off
                    if i in off.fs or k in off.fs:
                        continue
                    if e.a[2] is not P:
                        # a chain of writes at the same position
                        r = self.selected(e.a[2], P, k, i)
                        if r is None or r[0] is not off:
                            return None
                        v2 = r[1]
                    else:
                        v2 = P
                    rest = [x for x in atoms_of(e.a[0]) if x is not c]
                    val = ite(and_(*rest), e.a[1], v2) if rest else e.a[1]
                    return off, val
        # a guard around the selection
        if k not in e.a[0].fs:
            a = self.selected(e.a[1], P, k, i) if e.a[1] is not P else (None, P)
            b = self.selected(e.a[2], P, k, i) if e.a[2] is not P else (None, P)
            if a is None or b is None:
                return None
            off = a[0] if a[0] is not None else b[0]
            if off is None or (b[0] is not None and b[0] is not off):
                return None
            return off, ite(e.a[0], a[1], b[1])
        return None

    def solve_list(self, aid, b1, b0, uid, i, lo, at_, closed_subst, prune, over):
        bad = Body(unk("list"), b0.var, unk("list", b0.var), True)
        if over is not None:
            return bad
        PL = mk("prelen", aid, uid)
        d = sub(b1.ln, PL)
        if d is ONE and b0.ln is ZERO:
            if b1.arr is not None:
                # one array appended per iteration
                g = b1.arr
                j = freshix()
                f = lambda x: subst(closed_subst(prune(x)), {i: add(lo, j)})
                return Body(sub(at_, lo), b0.var, None, True, ArrEl(j, g.k, f(g.ln), f(g.e)))
            if b1.e is not None:
                e = b1.e
                # appended value: content at position PL
                v = subst(replace_atoms(e, {}), {b1.var: PL}) if PL in e.fs or b1.var in e.fs else e
                v = find_append(e, PL)
                if v is not None:
                    v = closed_subst(prune(v))
                    return Body(sub(at_, lo), b0.var, subst(v, {i: add(lo, b0.var)}), True)
        g = self.delta(b1.ln, PL)
        if g is not None and b1.e is not None and b0.e is not None and g.h == "ite" and set(g.a[1:]) == {ONE, ZERO}:
            # appended under a guard: a filtered list (order of the source)
            g = boolify(g)
            v = find_append(b1.e, PL)
            if v is not None and v.h != "unk":
                g, v = closed_subst(prune(g)), closed_subst(prune(v))
                if any(x.a[1] == uid for x in find(mk("pair", g, v), lambda x: x.h in ("pre", "prearr", "prelen"))):
                    return bad
                ln = sub(at_, lo)
                j, j2 = freshix(), freshix()
                g1, v1 = subst(g, {i: add(lo, j)}), subst(v, {i: add(lo, j)})
                cnt = red("sum", ln, j2, ite(subst(g1, {j: j2}), ONE, ZERO))
                k = b0.var
                e = filt(ln, j, g1, v1, sub(k, b0.ln))
                if b0.ln is not ZERO:
                    e = ite(cmp(">=", k, b0.ln), e, b0.e)
                return Body(add(b0.ln, cnt), k, e, True)
        if g is ONE and b1.e is not None and b0.e is not None:
            v = find_append(b1.e, PL)
            if v is not None:
                v = closed_subst(prune(v))
                k = b0.var
                return Body(add(b0.ln, sub(at_, lo)), k, ite(cmp(">=", k, b0.ln), subst(v, {i: add(lo, sub(k, b0.ln))}), b0.e), True)
        return bad

    # ------------------------------------------------------------ expressions
    def cond(self, node, st):
        v = self.ev(node, st)
        if isinstance(v, N):
            return boolify(v)
        if v is NONE:
            return F
        return mk("bfn", "cond", ast.unparse(node))

    def ev(self, node, st):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            return unk(type(node).__name__)
        return m(node, st)

    def ev_Constant(self, node, st):
        v = node.value
        if v is None:
            return NONE
        if v is True:
            return T
        if v is False:
            return F
        if isinstance(v, (int, float)):
            return C(v)
        if isinstance(v, str):
            return S(v)
        return unk("const")

    def ev_Name(self, node, st):
        v = st.env.get(node.id)
        if v is not None:
            return v
        return self.glob(node.id)

    def glob(self, name):
        mod = self.mods[-1] if self.mods else None
        if mod is not None:
            r = self.repo.resolve(mod.name, name)
            if r and r[0] == "func":
                return Fnc(r[1], r[1]._mod)
            if r and r[0] == "const":
                return self.ev(r[1], St({}, {}, frozenset()))
            if r and r[0] == "module":
                return ModRef({"numpy": "np", "pandas": "pd"}.get(r[1], r[1]))
            if r and r[0] == "ext":
                return ModRef(r[1])
        return ModRef(name)

    def ev_Attribute(self, node, st):
        b = self.ev(node.value, st)
        if isinstance(b, ModRef):
            if b.name in ("np", "math"):
                if node.attr == "nan":
                    return NAN
                if node.attr == "inf":
                    return INF
                if node.attr == "pi":
                    return par("pi")
            return ModRef(b.name + "." + node.attr)
        if isinstance(b, A):
            if node.attr == "size":
                return b.ln
            if node.attr == "shape":
                return (b.ln,)
            if node.attr in ("values", "T"):
                return b
        return unk("attr " + node.attr)

    def ev_Tuple(self, node, st):
        return tuple(self.ev(x, st) for x in node.elts)

    def ev_List(self, node, st):
        if not node.elts:
            v = freshix()
            return self.new(st, ZERO, ZERO, v, islist=True)
        return tuple(self.ev(x, st) for x in node.elts)

    def ev_Starred(self, node, st):
        return unk("star")

    def ev_JoinedStr(self, node, st):
        return unk("str")

    def ev_UnaryOp(self, node, st):
        v = self.ev(node.operand, st)
        if isinstance(node.op, ast.Not):
            return not_(boolify(v)) if isinstance(v, N) else unk("not")
        if isinstance(v, A):
            return self.elementwise(lambda x: neg(num(x)) if isinstance(node.op, ast.USub) else not_(boolify(x)) if isinstance(node.op, ast.Invert) else x, [v], st)
        if not isinstance(v, N):
            return unk("unary")
        if isinstance(node.op, ast.USub):
            return neg(num(v))
        if isinstance(node.op, ast.Invert):
            return not_(boolify(v)) if isbool(v) else unk("invert")
        return v

    def ev_BoolOp(self, node, st):
        vs = [self.ev(x, st) for x in node.values]
        if not all(isinstance(v, N) for v in vs):
            return unk("bool")
        cs = [boolify(v) for v in vs]
        return self.csimp(and_(*cs) if isinstance(node.op, ast.And) else or_(*cs), st)

    def ev_IfExp(self, node, st):
        c = self.csimp(self.cond(node.test, st), st)
        if c is T:
            return self.ev(node.body, st)
        if c is F:
            return self.ev(node.orelse, st)
        s1 = St(st.env, st.heap, st.facts | set(atoms_of(c)))
        s2 = St(st.env, st.heap, st.facts | set(atoms_of(not_(c))))
        return self.mergev(c, self.ev(node.body, s1), self.ev(node.orelse, s2), st)

    def ev_Compare(self, node, st):
        l = self.ev(node.left, st)
        cs = []
        for op, r in zip(node.ops, node.comparators):
            if isinstance(op, (ast.In, ast.NotIn)):
                items = self.ev(r, st)
                if isinstance(items, tuple) and isinstance(l, N) and all(isinstance(x, N) for x in items):
                    c = or_(*[cmp("==", l, x) for x in items])
                    c = not_(c) if isinstance(op, ast.NotIn) else c
                else:
                    return unk("in")
                cs.append(c)
                l = items
                continue
            rv = self.ev(r, st)
            cs.append(self.compare(op, l, rv, st))
            l = rv
        if len(cs) == 1:
            return cs[0]
        if all(isinstance(c, N) for c in cs):
            return self.csimp(and_(*cs), st)
        return unk("chain")

    OPS = {ast.Gt: ">", ast.GtE: ">=", ast.Lt: "<", ast.LtE: "<=", ast.Eq: "==", ast.NotEq: "!="}

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is NONE and b is NONE:
                r = T
            elif b is NONE:
                r = self.isnone(a)
            elif a is NONE:
                r = self.isnone(b)
            else:
                return unk("is")
            return not_(r) if isinstance(op, ast.IsNot) else r
        o = self.OPS.get(type(op))
        if a is b and isinstance(a, N) and o in ("==", "!=") and not isbool(a) and const(a) is None and not isint(a):
            return isnan(num(a)) if o == "!=" else not_(isnan(num(a)))      # x != x asks for a missing value
        if isinstance(a, S) or isinstance(b, S):
            if isinstance(a, S) and isinstance(b, S):
                r = T if a == b else F
                if str(a).startswith("{") or str(b).startswith("{"):
                    r = mk("streq", str(a), str(b))
                return r if o == "==" else not_(r)
            return unk("str")
        if isinstance(a, A) or isinstance(b, A):
            return self.elementwise(lambda x, y: cmp(o, num(x), num(y)), [a, b], st)
        if isinstance(a, N) and isinstance(b, N):
            if isbool(a) and isbool(b) and o in ("==", "!="):
                r = or_(and_(a, b), and_(not_(a), not_(b)))
                return r if o == "==" else not_(r)
            return self.csimp(self.cmpn(o, num(a), num(b)), st)
        return unk("compare")

    def cmpn(self, o, a, b):
        # comparisons of guarded values: guard the comparison
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.h == "ite":
                f = lambda z: self.cmpn(o, z, y) if not sw else self.cmpn(o, y, z)
                p, q = f(x.a[1]), f(x.a[2])
                return or_(and_(x.a[0], p), and_(not_(x.a[0]), q))
        return cmp(o, a, b)

    def isnone(self, v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "maybe":
            return mk("isnone", v[1][0])
        return F

    def ev_BinOp(self, node, st):
        return self.binop(node.op, self.ev(node.left, st), self.ev(node.right, st), st)

    def binop(self, op, a, b, st):
        a, b = self.unmaybe(a), self.unmaybe(b)
        if isinstance(a, A) or isinstance(b, A):
            return self.elementwise(lambda x, y: self.arith(op, x, y), [a, b], st)
        if isinstance(a, N) and isinstance(b, N):
            return self.arith(op, a, b)
        return unk("binop")

    def unmaybe(self, v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "maybe":
            return v[1][1]
        return v

    def arith(self, op, a, b):
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and isbool(a) and isbool(b):
            return and_(a, b) if isinstance(op, ast.BitAnd) else or_(a, b)
        a, b = num(a), num(b)
        # push arithmetic into guarded values (keeps guards outermost)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.h == "ite":
                f = lambda z: self.arith(op, z, y) if not sw else self.arith(op, y, z)
                return ite(x.a[0], f(x.a[1]), f(x.a[2]))
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            k = const(b)
            if k is not None and (k.denominator in (1, 2)) and abs(k) <= 6:
                return power(a, k)
            return fn("pow", a, b)
        if isinstance(op, ast.FloorDiv):
            if const(b) == 1 and isint(a):
                return a
            return fn("floordiv", a, b)
        if isinstance(op, ast.Mod):
            return fn("mod", a, b)
        return unk("op")

    def elementwise(self, f, vs, st):
        vs = [self.unmaybe(v) for v in vs]
        k = freshix()
        args, ln = [], None
        for v in vs:
            if isinstance(v, A):
                b = st.heap[v.aid]
                if b.e is None:
                    return unk("array of arrays")
                if ln is None:
                    ln = v.ln
                elif const(v.ln) == 1:
                    args.append(subst(b.e, {b.var: v.off}))
                    continue
                elif const(ln) == 1:
                    ln = v.ln
                args.append(subst(b.e, {b.var: add(v.off, k)}))
            elif isinstance(v, N):
                args.append(v)
            else:
                return unk("elementwise")
        s2 = St(st.env, st.heap, st.facts | {cmp(">=", k, ZERO), cmp(">=", sub(ln, ONE), k)})
        return self.new(st, ln, self.simp(self.lift(f, args), s2), k)

    def lift(self, f, args):
        for j, x in enumerate(args):
            if x.h == "ite" and not isbool(x):
                return ite(x.a[0], self.lift(f, args[:j] + [x.a[1]] + args[j + 1:]), self.lift(f, args[:j] + [x.a[2]] + args[j + 1:])) \
                    if not isbool(f(*(args[:j] + [x.a[1]] + args[j + 1:]))) else \
                    or_(and_(x.a[0], self.lift(f, args[:j] + [x.a[1]] + args[j + 1:])), and_(not_(x.a[0]), self.lift(f, args[:j] + [x.a[2]] + args[j + 1:])))
        return f(*args)

    def ev_Subscript(self, node, st):
        b = self.unmaybe(self.ev(node.value, st))
        if isinstance(b, tuple):
            i = self.ev(node.slice, st) if not isinstance(node.slice, ast.Slice) else None
            k = const(i) if isinstance(i, N) else None
            if k is not None and -len(b) <= k < len(b):
                return b[int(k)]
            return unk("tuple index")
        if isinstance(b, A):
            if isinstance(node.slice, ast.Slice):
                r = self.slice(b, node.slice, st)
                return r if r is not None else unk("slice")
            i = self.unmaybe(self.ev(node.slice, st))
            if isinstance(i, N):
                if isbool(i):
                    return unk("bool index")
                return self.cellx(b, self.index(b, i), st)
            if isinstance(i, A):
                y, x = st.heap[i.aid], st.heap[b.aid]
                if y.e is not None and x.e is not None and isbool_arr(y):
                    # boolean mask: filtered copy
                    j = freshix()
                    g = subst(y.e, {y.var: add(i.off, j)})
                    v = subst(x.e, {x.var: add(b.off, j)})
                    j3 = freshix()
                    cnt = red("sum", b.ln, j3, ite(subst(g, {j: j3}), ONE, ZERO))
                    k = freshix()
                    return self.new(st, cnt, filt(b.ln, j, g, v, k), k)
                if y.e is not None and x.e is not None:
                    k = freshix()
                    return self.new(st, i.ln, subst(x.e, {x.var: add(b.off, subst(y.e, {y.var: add(i.off, k)}))}), k)
            return unk("index")
        return unk("subscript")

    def cellx(self, b, i, st):
        if i.h == "ite":
            return self.mergev(i.a[0], self.cellx(b, i.a[1], st), self.cellx(b, i.a[2], st), st)
        return self.cell(b, i, st)

    def live(self, b, st):
        """a list's length is that of its body"""
        x = st.heap.get(b.aid)
        return A(b.aid, ZERO, x.ln) if x is not None and getattr(x, "islist", False) and b.off is ZERO else b

    def alive(self, v, st):
        return self.live(v, st) if type(v) is A else tuple(self.alive(x, st) for x in v) if type(v) is tuple and len(v) < 40 else v

    def slice(self, b, sl, st):
        b = self.live(b, st)
        if sl.step is not None:
            k = const(self.ev(sl.step, st)) if isinstance(self.ev(sl.step, st), N) else None
            if k == -1 and sl.lower is None and sl.upper is None and st.heap[b.aid].e is not None:
                v = freshix()
                x = st.heap[b.aid]
                return self.new(st, b.ln, subst(x.e, {x.var: sub(add(b.off, sub(b.ln, ONE)), v)}), v)
            if k != 1:
                return None

        def bound(n, d):
            if n is None:
                return d
            v = self.unmaybe(self.ev(n, st))
            if v is NONE:
                return d
            if not isinstance(v, N):
                return None
            v = num(v)
            # negative bounds count from the end
            k = const(v)
            if k is not None:
                return add(b.ln, v) if k < 0 else v
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                return add(b.ln, v)
            return v
        lo, hi = bound(sl.lower, ZERO), bound(sl.upper, b.ln)
        if lo is None or hi is None:
            return None
        if st.heap[b.aid].arr is not None:
            return A(b.aid, add(b.off, lo), sub(hi, lo))
        return A(b.aid, add(b.off, lo), sub(hi, lo))

    def ev_ListComp(self, node, st):
        if len(node.generators) == 1 and not node.generators[0].is_async:
            g = node.generators[0]
            it = g.iter
            i = freshix()
            lo = ZERO
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "prange"):
                a = [self.ev(x, st) for x in it.args]
                if not all(isinstance(x, N) for x in a) or len(a) > 2:
                    return unk("comp")
                lo, hi = (ZERO, a[0]) if len(a) == 1 else a
                val = add(lo, i)
                n = sub(hi, lo)
            else:
                v = self.ev(it, st)
                if not isinstance(v, A):
                    return unk("comp")
                val, n = self.cell(v, i, st), v.ln
            s = st.copy()
            s.facts = st.facts | {cmp(">=", i, ZERO), cmp(">=", sub(n, ONE), i)}
            self.assign(g.target, val, s)
            e = self.ev(node.elt, s)
            st.heap.update({k: v for k, v in s.heap.items() if k not in st.heap})
            if not isinstance(e, N):
                return unk("comp")
            if g.ifs:
                c = and_(*[self.cond(x, s) for x in g.ifs])
                j = freshix()
                k = freshix()
                return self.new(st, red("sum", n, j, ite(subst(c, {i: j}), ONE, ZERO)), filt(n, i, c, num(e), k), k, islist=True)
            return self.new(st, n, num(e), i, islist=True)
        return unk("comp")

    ev_GeneratorExp = ev_ListComp

    # ------------------------------------------------------------ calls
    def reduce(self, kind, a, st, what=None):
        """sum/max/min/.. over an array value"""
        b = st.heap[a.aid]
        if b.e is None:
            return unk("reduce")
        j = freshix()
        e = subst(b.e, {b.var: add(a.off, j)})
        if e.h == "filt" or e.fl & 8:
            fl = find(e, lambda x: x.h == "filt" and x.a[3] is j)
            w = freshix()
            op = {f: open_(f.a[1], f.a[2], w) for f in fl}
            if fl and len(set((f.a[0], op[f].a[0]) for f in fl)) == 1:
                f0 = fl[0]
                guard = op[f0].a[0]
                body = replace_atoms(e, {f: op[f].a[1] for f in fl})
                if j in body.fs:
                    return unk("filtered position")
                if kind in ("sum", "max", "min"):
                    z = ZERO if kind == "sum" else neg(INF) if kind == "max" else INF
                    return red(kind, f0.a[0], w, ite(guard, num(body), z))
                return mk("red", kind, f0.a[0], *X._close(ite(guard, num(body), NONE), w))
            return unk("filtered")
        if kind in ("sum", "max", "min"):
            s2 = St(st.env, st.heap, st.facts | {cmp(">=", j, ZERO), cmp(">=", sub(a.ln, ONE), j)})
            return red(kind, a.ln, j, self.simp(num(e), s2))
        s2 = St(st.env, st.heap, st.facts | {cmp(">=", j, ZERO), cmp(">=", sub(a.ln, ONE), j)})
        e = self.simp(e, s2)
        if kind == "all":
            return not_(mk("bfn", "any", a.ln, *X._close(not_(boolify(e)), j)))
        if kind == "any":
            return mk("bfn", "any", a.ln, *X._close(boolify(e), j))
        return red(kind, a.ln, j, e)

    def ev_Call(self, node, st):
        f = node.func
        kw = {k.arg: self.ev(k.value, st) for k in node.keywords if k.arg}
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, st)
            if isinstance(b, ModRef):
                if b.name in ("np", "math", "nb", "numba"):
                    return self.numpy(f.attr, [self.ev(x, st) for x in node.args], kw, node, st)
                if b.name.startswith("np.") or b.name.startswith("logger"):
                    return unk("call")
                r = self.glob(b.name + "." + f.attr)
                return unk("call " + f.attr)
            b = self.unmaybe(b)
            args = [self.ev(x, st) for x in node.args]
            if isinstance(b, A):
                if f.attr in ("sum", "max", "min", "mean", "median", "std", "var", "any", "all", "argmax", "argmin", "cumsum", "dot", "round"):
                    return self.numpy(f.attr, [b] + args, kw, node, st)
                if f.attr in ("astype", "view"):
                    return self.cast(b, node.args[0] if node.args else None, st)
                if f.attr == "copy":
                    return self.elementwise(lambda x: x, [b], st)
                if f.attr in ("ravel", "flatten", "tolist", "to_numpy"):
                    return b
                if f.attr == "get_loc":
                    return unk("call")
            if isinstance(b, N):
                if f.attr in ("item", "astype"):
                    return b
                if f.attr == "sum":
                    return b
            return unk("method " + f.attr)
        args = [self.ev(x, st) for x in node.args]
        if isinstance(f, ast.Name):
            v = st.env.get(f.id) or self.glob(f.id)
            if isinstance(v, Fnc):
                return self.inline(v, args, kw, node, st)
            return self.builtin(f.id, args, kw, node, st)
        return unk("call")

    def inline(self, f, args, kw, node, st):
        if self.depth > 6:
            return unk("depth")
        ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        if f.node.args.vararg or f.node.args.kwarg or len(args) > len(ps):
            return unk("varargs")
        env = dict(zip(ps, args))
        env.update({k: v for k, v in kw.items() if k in ps})
        pos = f.node.args.posonlyargs + f.node.args.args
        for p, d in zip(pos[::-1], f.node.args.defaults[::-1]):
            if p.arg not in env:
                env[p.arg] = self.ev(d, St({}, st.heap, frozenset()))
        for p, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.ev(d, St({}, st.heap, frozenset()))
        for p in ps:
            if p not in env:
                return unk("arguments")
        self.calls.append(f.node.name)
        if self.depth >= 1 and self.heavy(f, env, st):
            v = self.lazy(f, ps, env, st)
            if v is not None:
                return v
        v = self.run(f, env, st)
        return v

    # ---- calls kept as calls: the callee is summarised once, over symbolic arrays, and applied where a value is needed
    def heavy(self, f, env, st):
        if not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(f.node)):
            return False
        return any(isinstance(v, A) and st.heap[v.aid].e is not None and
                   find(st.heap[v.aid].e, lambda x: x.h in ("red", "fold", "vfold", "prearr", "app")) for v in env.values()) \
            and sum(isinstance(v, A) for v in env.values()) >= self.lazy_min

    lazy_min = 2
    _lazy = {}

    def lazy(self, f, ps, env, st):
        groups, sig, ar, sc = {}, [], [], []
        for p in ps:
            v = self.unmaybe(env[p])
            if isinstance(v, A):
                b = st.heap[v.aid]
                if b.e is None or b.islist:
                    return None
                g = groups.setdefault(v.ln, len(groups))
                k = freshix()
                e = subst(b.e, {b.var: add(v.off, k)})
                ar.append((p, v.ln, k, e))
                sig.append((p, "a", g, isint(e), isbool(e)))
            elif v is T or v is F or v is NONE or isinstance(v, S):
                sig.append((p, "k", v))
            elif isinstance(v, N) and not isbool(v):
                sc.append((p, v))
                sig.append((p, "s", isint(v)))
            else:
                return None
        key = (f.node, tuple(sig))
        if key not in Summ._lazy:
            Summ._lazy[key] = self.callee(f, sig)
        cal = Summ._lazy[key]
        if cal is None:
            return None
        v, outs = cal
        args = tuple((mk("s", p), ln, *X._close(num(e), k)) for p, ln, k, e in ar) + tuple((mk("s", p), x) for p, x in sc)
        st2 = st

        def apply(v):
            if isinstance(v, list):
                return tuple(apply(x) for x in v)
            if v[0] == "num":
                return mk("app", cal_id(key), v[1], args, ZERO)
            _, j, ln = v[:3]
            k = freshix()
            # lengths of results in terms of the argument lengths
            m = {mk("len", f"g{g}"): l for l, g in groups.items()}
            l2 = replace_atoms(ln, m)
            if l2.fs - frozenset().union(*[x.fs for x in groups]) or any(
                    x.h in ("el", "par", "len") and (str(x.a[0]).startswith(f.node.name + ".") or x.a[0] in {f"g{g}" for g in groups.values()})
                    for x in find(l2, lambda x: True)):
                l2 = mk("app", cal_id(key), v[3], args, ZERO)
            e = mk("app", cal_id(key), j, args, k)
            if outs[j][2]:
                e = mk("bfn", "app", e)
            return self.new(st2, l2, e, k)
        try:
            return apply(v)
        except Giveup:
            return None

    def callee(self, f, sig):
        s = Summ(self.repo)
        s.lazy_min = 99
        st = St({}, {}, frozenset())
        env, ids = {}, {}
        for p, kind, *r in sig:
            if kind == "a":
                k = freshix()
                role = f"{f.node.name}.{p}" + (".b" if r[2] else ".i" if r[1] else "")
                if r[1] or r[2]:
                    X.INTROLES.add(role)
                env[p] = s.new(st, mk("len", f"g{r[0]}"), cmp("==", el(role, k), ONE) if r[2] else el(role, k), k)
                ids[env[p].aid] = st.heap[env[p].aid]
                st.facts = st.facts | {cmp(">=", mk("len", f"g{r[0]}"), ONE)}
            elif kind == "k":
                env[p] = r[0]
            else:
                env[p] = par(f"{f.node.name}.{p}", r[0])
        v = s.run(f, env, st)
        if any(st.heap[a] is not b for a, b in ids.items()):
            return None
        outs = []

        def go(v):
            if isinstance(v, tuple):
                return [go(x) for x in v]
            if isinstance(v, A):
                v = s.live(v, st)
            if isinstance(v, A) and st.heap[v.aid].e is not None:
                b = st.heap[v.aid]
                k = freshix()
                e = subst(b.e, {b.var: add(v.off, k)})
                outs.append((num(e), k, isbool(e)))
                outs.append((v.ln, None, False))
                return ("arr", len(outs) - 2, v.ln, len(outs) - 1)
            if isinstance(v, N):
                outs.append((num(v), None, isbool(v)))
                return ("num", len(outs) - 1)
            raise Giveup
        try:
            r = go(v)
        except Giveup:
            return None
        APPS[cal_id((f.node, tuple(sig)))] = (f.node.name, sig, outs)
        return r, outs

    def run(self, f, env, st):
        """value returned; heap effects go into st"""
        self.depth += 1
        self.mods.append(f.mod)
        try:
            env[OK] = T
            s = St(env, dict(st.heap), st.facts)
            outs = self.block(f.node.body, s)
        finally:
            self.depth -= 1
            self.mods.pop()
        self.settle(outs, st)
        rets = [(c, s2, v if k == "return" else NONE) for c, k, s2, v in outs if k in ("return", "next")]
        if not rets:
            return unk("never returns")
        c, m, v = rets[-1]
        for c, s2, v2 in reversed(rets[:-1]):
            mm = self.merge(c, St({}, s2.heap, s2.facts), St({}, m.heap, m.facts))
            v = self.mergev(c, v2, v, mm)
            m = mm
        st.heap.clear()
        st.heap.update(m.heap)
        return self.alive(v, st)

    def settle(self, outs, st):
        """the condition under which nothing was refused"""
        ok = or_(*[and_(c, s2.env.get(OK, T)) for c, k, s2, v in outs if k in ("return", "next")])
        if ok is not T:
            st.env[OK] = and_(st.env.get(OK, T), ok)

    def cast(self, b, tnode, st):
        t = ast.unparse(tnode) if tnode is not None else ""
        if "int" in t and isinstance(b, A):
            return self.elementwise(lambda x: num(x) if isint(num(x)) else fn("int", num(x)), [b], st)
        if "bool" in t and isinstance(b, A):
            return self.elementwise(lambda x: boolify(x), [b], st)
        return b

    def scalar(self, f, args, st):
        args = [self.unmaybe(a) for a in args]
        if any(isinstance(a, A) for a in args):
            return self.elementwise(f, args, st)
        if all(isinstance(a, N) for a in args):
            return self.lift(f, args)
        return unk("scalar")

    def builtin(self, n, args, kw, node, st):
        args = [self.unmaybe(a) for a in args]
        if n == "len":
            if isinstance(args[0], A):
                return args[0].ln if not st.heap[args[0].aid].islist or args[0].off is not ZERO else st.heap[args[0].aid].ln
            if isinstance(args[0], tuple):
                return C(len(args[0]))
            return unk("len")
        if n == "sum" and len(args) == 1 and isinstance(args[0], A):
            a = args[0]
            return self.reduce("sum", A(a.aid, a.off, st.heap[a.aid].ln if st.heap[a.aid].islist else a.ln), st)
        if n in ("max", "min"):
            if len(args) == 1 and isinstance(args[0], A):
                return self.reduce(n, args[0], st)
            if all(isinstance(a, N) for a in args):
                return self.lift(lambda *x: ext(n, *[num(y) for y in x]), args)
            return unk(n)
        if n == "abs":
            return self.scalar(lambda x: fn("abs", num(x)), args, st)
        if n in ("float",):
            if args and isinstance(args[0], S):
                return INF if args[0] == "inf" else neg(INF) if args[0] == "-inf" else NAN
            return num(args[0]) if args and isinstance(args[0], N) else unk("float")
        if n == "int":
            return self.scalar(lambda x: fn("int", num(x)), args, st) if args else unk("int")
        if n == "bool":
            return boolify(args[0]) if isinstance(args[0], N) else unk("bool")
        if n == "round":
            return self.scalar(lambda x: fn("round", num(x)), args[:1], st) if len(args) == 1 else unk("round")
        if n in ("NumbaList", "List", "list") and not args:
            v = freshix()
            return self.new(st, ZERO, ZERO, v, islist=True)
        if n == "print":
            return NONE
        if n == "tuple" and args and isinstance(args[0], tuple):
            return args[0]
        if n in ("ValueError",):
            return NONE
        return unk("call " + n)

    ALLOC = {"zeros": ZERO, "ones": ONE, "zeros_like": ZERO, "ones_like": ONE}

    def numpy(self, n, args, kw, node, st):
        args = [self.unmaybe(a) for a in args]
        a0 = args[0] if args else None

        def ln():
            if n.endswith("_like"):
                return a0.ln if isinstance(a0, A) else None
            x = a0 if a0 is not None else kw.get("shape")
            if isinstance(x, tuple) and len(x) == 1:
                x = x[0]
            return num(x) if isinstance(x, N) else None
        if n in ("zeros", "ones", "zeros_like", "ones_like", "empty", "empty_like", "full", "full_like"):
            L_ = ln()
            if L_ is None:
                return unk("alloc")
            k = freshix()
            if n.startswith("empty"):
                e = unk("uninitialised", k)
            elif n.startswith("full"):
                x = args[1] if len(args) > 1 else kw.get("fill_value")
                e = x if isinstance(x, N) else unk("fill")
            else:
                e = self.ALLOC[n]
            dt = kw.get("dtype")
            dtxt = next((ast.unparse(q.value) for q in node.keywords if q.arg == "dtype"), ast.unparse(node.args[-1]) if len(node.args) > 1 and n in ("zeros", "ones") else "")
            if "bool" in dtxt:
                e = boolify(e) if e.h != "unk" else e
            return self.new(st, L_, e, k)
        if n == "arange":
            k = freshix()
            xs = [num(x) for x in args if isinstance(x, N)]
            if len(xs) == 3 == len(args):
                return self.new(st, fn("ceil", div(sub(xs[1], xs[0]), xs[2])), add(xs[0], mul(k, xs[2])), k)
            if len(xs) != len(args) or len(xs) > 2:
                return unk("arange")
            lo, hi = (ZERO, xs[0]) if len(xs) == 1 else xs
            return self.new(st, sub(hi, lo), add(lo, k), k)
        if n in ("asarray", "array", "ascontiguousarray", "float64", "float32", "int64", "int32", "int8"):
            if isinstance(a0, A):
                return a0 if n != "array" else self.elementwise(lambda x: x, [a0], st)
            if isinstance(a0, N):
                return num(a0)
            if isinstance(a0, tuple) and a0 and all(isinstance(x, N) for x in a0):
                k = freshix()
                e = num(a0[-1])
                for q in range(len(a0) - 2, -1, -1):
                    e = ite(cmp("==", k, C(q)), num(a0[q]), e)
                return self.new(st, C(len(a0)), e, k)
            return unk(n)
        if n in ("sum", "nansum", "max", "min", "amax", "amin", "nanmax", "nanmin", "mean", "nanmean", "any", "all", "median", "argmax", "argmin", "prod"):
            if isinstance(a0, N):
                return a0
            if not isinstance(a0, A):
                return unk(n)
            kind = {"amax": "max", "amin": "min"}.get(n, n)
            if n in ("nansum", "nanmean"):
                a1 = self.elementwise(lambda x: ite(isnan(num(x)), ZERO, num(x)), [a0], st)
                s = self.reduce("sum", a1, st)
                if n == "nansum":
                    return s
                c = self.reduce("sum", self.elementwise(lambda x: ite(isnan(num(x)), ZERO, ONE), [a0], st), st)
                return self.arith(ast.Div(), s, c)
            if n == "mean":
                return self.arith(ast.Div(), self.reduce("sum", a0, st), a0.ln)
            if n in ("nanmax", "nanmin"):
                return unk(n)
            return self.reduce(kind, a0, st)
        if n in ("percentile", "quantile") and isinstance(a0, A):
            q = args[1]
            if not isinstance(q, N):
                return unk(n)
            b = st.heap[a0.aid]
            if b.e is None:
                return unk(n)
            j = freshix()
            return mk("red", n, a0.ln, *X._close(subst(b.e, {b.var: add(a0.off, j)}), j), q)
        if n in ("std", "var") and isinstance(a0, A):
            dd = kw.get("ddof", ZERO)
            m = self.arith(ast.Div(), self.reduce("sum", a0, st), a0.ln)
            sq = self.elementwise(lambda x: power(sub(num(x), m), 2), [a0], st)
            v = self.arith(ast.Div(), self.reduce("sum", sq, st), sub(a0.ln, dd))
            return v if n == "var" else power(v, Fr(1, 2))
        if n == "sqrt":
            return self.scalar(lambda x: power(num(x), Fr(1, 2)), args, st)
        if n == "square":
            return self.scalar(lambda x: power(num(x), 2), args, st)
        if n in ("abs", "absolute", "fabs"):
            return self.scalar(lambda x: fn("abs", num(x)), args, st)
        if n in ("log", "exp", "log1p", "sin", "cos", "arctan", "sign", "ceil", "floor", "degrees", "log2", "log10", "tanh", "round", "rint"):
            if n == "log":
                return self.scalar(lambda x: self.log(num(x)), args, st)
            d = kw.get("decimals", args[1] if len(args) > 1 else ZERO) if n == "round" else ZERO
            if d is not ZERO:
                d = const(d) if isinstance(d, N) else None
                if d is None or d != int(d):
                    return unk("round to so many digits")
                d = C(Fr(10) ** int(d))
                return self.scalar(lambda x: self.arith(ast.Div(), fn(n, mul(num(x), d)), d), args[:1], st)
            return self.scalar(lambda x: fn(n, num(x)), args[:1], st)
        if n == "gcd" and len(args) == 2:
            return self.scalar(lambda x, y: fn("gcd", num(x), num(y)), args, st)
        if n == "isnan":
            return self.scalar(lambda x: isnan(num(x)), args, st)
        if n in ("isfinite", "isinf"):
            return self.scalar(lambda x: mk("bfn", n, num(x)), args, st)
        if n in ("maximum", "minimum", "fmax", "fmin"):
            h = "max" if "max" in n else "min"
            if n in ("fmax", "fmin"):
                return self.scalar(lambda x, y: ext(h, num(x), num(y)), args, st)
            return self.scalar(lambda x, y: nanprop([x, y], ext(h, num(x), num(y))), args, st)
        if n == "where" and len(args) == 3:
            return self.scalar(lambda c, x, y: ite(boolify(c), num(x), num(y)), args, st)
        if n == "clip" and len(args) == 3:
            return self.scalar(lambda x, l, h: nanprop([x], ext("min", ext("max", num(x), num(l)), num(h))), args, st)
        if n in ("logical_and", "logical_or"):
            return self.scalar(lambda x, y: and_(boolify(x), boolify(y)) if n == "logical_and" else or_(boolify(x), boolify(y)), args, st)
        if n == "logical_not":
            return self.scalar(lambda x: not_(boolify(x)), args, st)
        if n == "cumsum" and isinstance(a0, A):
            b = st.heap[a0.aid]
            if b.e is None:
                return unk(n)
            j, k = freshix(), freshix()
            return self.new(st, a0.ln, red("sum", add(k, ONE), j, num(subst(b.e, {b.var: add(a0.off, j)}))), k)
        if n == "diff" and isinstance(a0, A) and len(args) == 1:
            b = st.heap[a0.aid]
            if b.e is None:
                return unk(n)
            k = freshix()
            g = lambda p: num(subst(b.e, {b.var: add(a0.off, p)}))
            return self.new(st, sub(a0.ln, ONE), sub(g(add(k, ONE)), g(k)), k)
        if n == "digitize" and len(args) == 2 and isinstance(args[1], A) and st.heap[args[1].aid].e is not None and not kw:
            x = args[1]
            b = st.heap[x.aid]
            j = freshix()
            body, lv = X._close(subst(b.e, {b.var: add(x.off, j)}), j)
            return self.scalar(lambda y: mk("fn", "searchsorted", "right", x.ln, body, lv, num(y)), [a0], st)
        if n == "argsort" and isinstance(a0, A) and st.heap[a0.aid].e is not None:
            b = st.heap[a0.aid]
            j, k = freshix(), freshix()
            body, lv = X._close(num(subst(b.e, {b.var: add(a0.off, j)})), j)
            return self.new(st, a0.ln, mk("fn", "argsort", a0.ln, body, lv, k), k)
        if n == "unique" and isinstance(a0, A) and st.heap[a0.aid].e is not None and len(args) == 1 and not kw:
            b = st.heap[a0.aid]
            j, k = freshix(), freshix()
            body, lv = X._close(num(subst(b.e, {b.var: add(a0.off, j)})), j)
            return self.new(st, mk("fn", "nunique", a0.ln, body, lv), mk("fn", "unique", a0.ln, body, lv, k), k)
        if n == "dot" and len(args) == 2 and all(isinstance(x, A) for x in args):
            return self.reduce("sum", self.elementwise(lambda x, y: mul(num(x), num(y)), args, st), st)
        if n in ("add", "subtract", "multiply", "divide", "true_divide", "power"):
            op = {"add": ast.Add(), "subtract": ast.Sub(), "multiply": ast.Mult(), "divide": ast.Div(), "true_divide": ast.Div(), "power": ast.Pow()}[n]
            return self.scalar(lambda x, y: self.arith(op, x, y), args, st)
        if n == "searchsorted" and isinstance(a0, A):
            side = kw.get("side", args[2] if len(args) > 2 else S("left"))
            b = st.heap[a0.aid]
            if b.e is None or not isinstance(side, S):
                return unk(n)
            j = freshix()
            body, lv = X._close(subst(b.e, {b.var: add(a0.off, j)}), j)
            return self.scalar(lambda x: mk("fn", "searchsorted", str(side), a0.ln, body, lv, num(x)), [args[1]], st)
        return unk("np." + n)

    def log(self, x):
        return fn("log", x)


APPS = {}          # applied summaries: id -> (function, signature, outputs)
_ids = {}


def cal_id(key):
    return _ids.setdefault(key, f"{key[0].name}#{len(_ids)}")


def isbool_arr(b):
    return b.e is not None and isbool(b.e)


def find(e, p):
    out, seen = [], set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            if p(x):
                out.append(x)
            for y in x.a:
                go(y)
    go(e)
    return out


def find_append(e, PL):
    """value appended: the arm of [k == len ? v : old]"""
    while e.h == "ite":
        for c in atoms_of(e.a[0]):
            if c.h == "eq0" and PL in find(c.a[0], lambda x: x is PL):
                return e.a[1]
        e2 = e.a[2]
        if find_append(e2, PL) is not None:
            return find_append(e2, PL)
        e = e.a[1]
    return None

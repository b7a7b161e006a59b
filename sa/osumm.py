"""Object-level summaries: classes, closures, frames and configuration dictionaries are evaluated structurally while every
number, array and column stays a closed form (summ.py).  Names built from parameters stay templates.  pandas operations are
replaced by their definitions.  Whatever is not modelled becomes `unk` and is never judged."""
from __future__ import annotations
import ast, re
from fractions import Fraction as Fr
from .expr import *
from . import expr as X
from .summ import OK, Summ, St, Body, Rec, A, S, ArrEl, NONE, Fnc, ModRef, num, isbool, boolify, isbool_arr, find, Giveup, nanprop
from .repo import is_njit, AnalysisBroken, docless


class PyExc(Exception):
    """the evaluated code raises here, on every execution"""


class Ser(A):
    """a pandas column: reductions skip missing values"""
    __slots__ = ("name", "dt")

    def __init__(self, aid, off, ln, name=NONE, dt=None):
        super().__init__(aid, off, ln)
        self.name, self.dt = name, dt


class Idx(A):
    """a datetime index; cells are nanoseconds; loose: order not known"""
    __slots__ = ("loose",)


class Ref:
    __slots__ = ("aid", "kind")

    def __init__(self, aid, kind):
        self.aid, self.kind = aid, kind

    def __repr__(self):
        return f"<{self.kind} {self.aid}>"


class Cls:
    def __init__(self, node):
        self.node = node

    def __eq__(self, o):
        return isinstance(o, Cls) and o.node is self.node

    def __hash__(self):
        return hash(self.node)


class Clo:
    """lambda or nested function with its captured environment"""

    def __init__(self, node, env, mod, cls=None):
        self.node, self.env, self.mod, self.cls = node, env, mod, cls


class Bound:
    def __init__(self, self_, f):
        self.self_, self.f = self_, f


class Meth:
    """method of a built-in or modelled value"""

    def __init__(self, base, name):
        self.base, self.name = base, name


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Td:
    def __init__(self, ns):
        self.ns = ns


class Ts:
    def __init__(self, ns):
        self.ns = ns


class Roll:
    def __init__(self, ser, kind, kw):
        self.ser, self.kind, self.kw = ser, kind, kw


class View:
    """accessor: columns / iloc / loc / dt / rolling"""

    def __init__(self, base, kind):
        self.base, self.kind = base, kind


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class TypeOf:
    def __init__(self, k):
        self.k = k


class Sig:
    def __init__(self, fn):
        self.fn = fn


class Ext:
    """a modelled external call: name and arguments (compared structurally)"""

    def __init__(self, name, args):
        self.name, self.args = name, args


NOTIMPL = mk("flag", "NotImplemented")
HOLE0 = 0xE000


class Holes:
    """one private character per formatted run-time value"""
    val, key = [], {}

    @classmethod
    def of(cls, v, fmt=""):
        k = (v.ns if isinstance(v, (Td, Ts)) else v, fmt)
        if k not in cls.key:
            cls.key[k] = chr(HOLE0 + len(cls.val))
            cls.val.append((v, fmt))
        return cls.key[k]

    @classmethod
    def get(cls, ch):
        return cls.val[ord(ch) - HOLE0]


def ishole(ch):
    return HOLE0 <= ord(ch) < HOLE0 + 6000


def show(s):
    return "".join("{" + short(Holes.get(c)[0]) + "}" if ishole(c) else c for c in str(s))


def short(v):
    if isinstance(v, (Td, Ts)):
        v = v.ns
    if isinstance(v, N) and v.h == "par":
        return str(v.a[0])
    return str(v)[:40]


def template_re(s):
    return "".join(r"(?:[-+0-9.einfa]+|None)" if ishole(c) else re.escape(c) for c in s)


def holeset(ch):
    v = Holes.get(ch)[0]
    if isinstance(v, (Td, Ts)):
        return None
    if isinstance(v, N) and not isbool(v) and v.h not in ("flag", "unk"):
        return set("0123456789-") if isint(v) and v.h == "par" else set("0123456789-+.einfa")
    return None


def overlap(a, b):
    """can two templates denote the same text?  (holes of one number each, taken independently)"""
    todo, seen = [(0, 0, False, False)], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        i, j, p, q = t               # p/q: the hole at i/j has already produced a character
        if p:
            todo.append((i + 1, j, False, q))
        if q:
            todo.append((i, j + 1, p, False))
        if i == len(a) and j == len(b):
            return True
        if i == len(a) or j == len(b):
            continue
        x, y = a[i], b[j]
        hx, hy = ishole(x), ishole(y)
        cx, cy = holeset(x) if hx else {x}, holeset(y) if hy else {y}
        if cx is None or cy is None or cx & cy:
            todo.append((i if hx else i + 1, j if hy else j + 1, hx, hy))
    return False


def streq(a, b):
    if a == b:
        return T
    ha, hb = any(map(ishole, a)), any(map(ishole, b))
    if not ha and not hb:
        return F
    if ha and not hb:
        return F if not re.fullmatch(template_re(a), b) else mk("streq", show(a), show(b))
    if hb and not ha:
        return streq(b, a)
    if not overlap(a, b):
        return F
    return mk("streq", show(a), show(b))


class OSumm(Summ):
    def __init__(self, repo, mono=()):
        super().__init__(repo, mono)
        self.native = [False]
        self.unknown = []          # constructs met and not modelled
        self.nonempty = set()      # lengths of row selections taken as having a row
        self.fuel = 200000
        self.extcalls = []         # (name, args) of modelled external effects

    lazy_min = 1

    # ------------------------------------------------------------ heap records
    def rec(self, st, kind, cls=None, d=None, ln=None, ix=None):
        self.aid += 1
        st.heap[self.aid] = Rec(kind, cls, d if d is not None else {}, ln, ix)
        return Ref(self.aid, kind)

    def plist(self, st, items, kind="list"):
        return self.rec(st, kind, d={"items": tuple(items)})

    def items(self, v, st):
        """python sequence -> tuple of values, or None"""
        if isinstance(v, tuple) and not (len(v) == 2 and v[0] == "maybe" and not isinstance(v[0], S)):
            return v
        if isinstance(v, Ref):
            r = st.heap[v.aid]
            if r.kind in ("list", "set") and "items" in r.d:
                return r.d["items"] if isinstance(r.d["items"], tuple) else None
            if r.kind == "dict":
                return tuple(k for k in r.d)
        if isinstance(v, View) and v.kind == "columns":
            return tuple(st.heap[v.base.aid].d)
        if isinstance(v, View) and v.kind == "keys":
            return tuple(st.heap[v.base.aid].d)
        if isinstance(v, S):
            return tuple(S(c) for c in v)
        return None

    def nope(self, why, node=None):
        self.unknown.append((why, getattr(node, "lineno", 0)))
        return unk(why)

    def key(self, k):
        return k

    def mergerec(self, c, x, y, st):
        if isinstance(x, Rec) and isinstance(y, Rec) and x.kind == y.kind:
            d = {}
            for k in list(x.d) + [k for k in y.d if k not in x.d]:
                if k == "items":
                    a, b = x.d[k], y.d[k]
                    d[k] = tuple(self.mergev(c, p, q, st) for p, q in zip(a, b)) if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) else unk("list")
                elif k in x.d and k in y.d:
                    d[k] = self.mergev(c, x.d[k], y.d[k], st)
                else:
                    d[k] = unk("only on some paths")
            ln, ix = x.ln, x.ix
            if isinstance(x.ln, N) and isinstance(y.ln, N) and x.ln is not y.ln:
                ln = ite(c, x.ln, y.ln)
            if isinstance(ix, A) and isinstance(y.ix, A) and not (ix.aid == y.ix.aid and ix.off is y.ix.off and ix.ln is y.ix.ln):
                v = super().mergev(c, A(ix.aid, ix.off, ix.ln), A(y.ix.aid, y.ix.off, y.ix.ln), st)
                ix = Idx(v.aid, v.off, v.ln) if isinstance(v, A) else None
            return Rec(x.kind, x.cls, d, ln, ix)
        return x if isinstance(x, Rec) else y

    def mergev(self, c, a, b, st):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.aid == b.aid:
            return a
        if isinstance(a, Ser) and isinstance(b, Ser):
            n = self.mergev(c, a.name, b.name, st) if not (isinstance(a.name, S) and isinstance(b.name, S) and a.name == b.name) else a.name
            r = super().mergev(c, a, b, st)
            return Ser(r.aid, r.off, r.ln, n) if isinstance(r, A) else r
        if isinstance(a, (Td, Ts)) and type(a) is type(b):
            return type(a)(ite(c, a.ns, b.ns))
        if isinstance(a, (Cls, TypeOf)) and a == b:
            return a
        if isinstance(a, (Ref, Cls, Clo, Bound, Td, Ts, View, Fnc, Ext)) or isinstance(b, (Ref, Cls, Clo, Bound, Td, Ts, View, Fnc, Ext)):
            if a is NONE or b is NONE:
                pass
            else:
                return unk("merge")
        return super().mergev(c, a, b, st)

    # ------------------------------------------------------------ statements
    def stmt(self, node, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise Giveup("fuel")
        return super().stmt(node, st)

    def st_Raise(self, node, st):
        if self.native[-1]:
            return []
        raise PyExc(ast.unparse(node.exc)[:80] if node.exc else "raise")

    def st_If(self, node, st):
        if self.native[-1]:
            return super().st_If(node, st)
        st = st.copy()
        c = self.csimp(self.cond(node.test, st), st)
        if c is T:
            return self.block(node.body, st)
        if c is F:
            return self.block(node.orelse, st) if node.orelse else [(T, "next", st, None)]
        outs, dead = [], 0
        for cc, body in ((c, node.body), (not_(c), node.orelse)):
            s1 = St(dict(st.env), dict(st.heap), st.facts | set(atoms_of(cc)))
            try:
                r = self.block(body, s1) if body else [(T, "next", s1, None)]
            except PyExc:
                dead += 1
                continue
            outs += [(and_(cc, c2), k, s, v) for c2, k, s, v in r]
        if dead == 2:
            raise PyExc("both arms")
        if dead == 1 and len(outs) == 1:
            # the other arm raises: here its condition is known
            for c2, k, s, v in outs:
                s.env[OK] = and_(s.env.get(OK, T), c2)
            return [(T, k, s, v) for _, k, s, v in outs]
        return outs

    def st_Try(self, node, st):
        if self.native[-1]:
            return super().st_Try(node, st)
        h0 = dict(st.heap)
        try:
            r = self.block(node.body, st.copy())
            if node.orelse:
                out = []
                for c, k, s, v in r:
                    if k == "next":
                        out += [(and_(c, c2), k2, s2, v2) for c2, k2, s2, v2 in self.block(node.orelse, s)]
                    else:
                        out.append((c, k, s, v))
                r = out
        except PyExc:
            s = St(dict(st.env), h0, st.facts)
            if not node.handlers:
                raise
            if node.handlers[0].name:
                s.env[node.handlers[0].name] = unk("exception")
            r = self.block(node.handlers[0].body, s)
        if node.finalbody:
            out = []
            for c, k, s, v in r:
                for c2, k2, s2, v2 in self.block(node.finalbody, s):
                    out.append((and_(c, c2), k2, s2, v2) if k2 != "next" else (and_(c, c2), k, s2, v))
            r = out
        return r

    def st_With(self, node, st):
        st = st.copy()
        for it in node.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(node.body, st)

    def st_FunctionDef(self, node, st):
        if self.native[-1]:
            return super().st_FunctionDef(node, st)
        st = st.copy()
        env = dict(st.env)
        f = Clo(node, env, self.mods[-1])
        env[node.name] = f
        st.env[node.name] = f
        return [(T, "next", st, None)]

    def st_Delete(self, node, st):
        st = st.copy()
        for t in node.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                if isinstance(b, Ref) and isinstance(k, S):
                    r = st.heap[b.aid]
                    st.heap[b.aid] = Rec(r.kind, r.cls, {x: y for x, y in r.d.items() if x != k}, r.ln, r.ix)
        return [(T, "next", st, None)]

    def st_ImportFrom(self, node, st):
        if self.native[-1]:
            return [(T, "next", st, None)]
        st = st.copy()
        base = node.module or ""
        if node.level:
            pkg = self.mods[-1].name.rpartition(".")[0] if not self.mods[-1].path.endswith("__init__.py") else self.mods[-1].name
            p = pkg.split(".")
            p = p[: len(p) - (node.level - 1)]
            base = ".".join(p + ([node.module] if node.module else []))
        for a in node.names:
            st.env[a.asname or a.name] = self.fromres(self.repo.resolve(base, a.name), f"{base}.{a.name}")
        return [(T, "next", st, None)]

    def st_Import(self, node, st):
        if self.native[-1]:
            return [(T, "next", st, None)]
        st = st.copy()
        for a in node.names:
            st.env[a.asname or a.name.split(".")[0]] = ModRef({"numpy": "np", "pandas": "pd"}.get(a.name, a.name if a.asname else a.name.split(".")[0]))
        return [(T, "next", st, None)]

    def st_Expr(self, node, st):
        if self.native[-1]:
            return super().st_Expr(node, st)
        st = st.copy()
        if not isinstance(node.value, ast.Constant):
            self.ev(node.value, st)
        return [(T, "next", st, None)]

    def st_AugAssign(self, node, st):
        if self.native[-1]:
            return super().st_AugAssign(node, st)
        t = node.target
        if isinstance(t, ast.Name) and isinstance(st.env.get(t.id), A) and not isinstance(st.env.get(t.id), Ser):
            return super().st_AugAssign(node, st)
        st = st.copy()
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            if isinstance(b, A):
                return super().st_AugAssign(node, st)
        load = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields if f != "ctx"}, ctx=ast.Load()), t)
        old = self.ev(load, st)
        v = self.ev(node.value, st)
        self.assign(t, self.binop(node.op, old, v, st), st)
        return [(T, "next", st, None)]

    def assign(self, t, v, st):
        if self.native[-1]:
            return super().assign(t, v, st)
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.items(v, st)
            if xs is not None and len(xs) == len(t.elts):
                for x, y in zip(t.elts, xs):
                    self.assign(x, y, st)
            elif xs is not None and sum(isinstance(x, ast.Starred) for x in t.elts) == 1:
                j = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
                r = len(t.elts) - j - 1
                for x, y in zip(t.elts[:j], xs[:j]):
                    self.assign(x, y, st)
                self.assign(t.elts[j].value, self.plist(st, xs[j:len(xs) - r]), st)
                for x, y in zip(t.elts[j + 1:], xs[len(xs) - r:]):
                    self.assign(x, y, st)
            else:
                for x in t.elts:
                    self.assign(x, self.nope("unpack", t), st)
        elif isinstance(t, ast.Attribute):
            self.setattr_(t, v, st)
        elif isinstance(t, ast.Subscript):
            self.setitem(t, v, st)

    def setattr_(self, t, v, st):
        b = self.ev(t.value, st)
        if isinstance(b, Ser):
            if t.attr == "name":
                b2 = Ser(b.aid, b.off, b.ln, v, b.dt)
                self.rebind(t.value, b2, st)
            return
        if isinstance(b, Ref) and b.kind == "obj":
            return self.setattrv(b, t.attr, v, st)
        if isinstance(b, Ref) and b.kind == "frame":
            r = st.heap[b.aid]
            if t.attr in r.d:
                st.heap[b.aid] = r.but(**{t.attr: self.column(v, r, t.attr, st)})
            elif t.attr == "columns":
                xs = self.items(v, st)
                if xs is not None and len(xs) == len(r.d):
                    st.heap[b.aid] = Rec("frame", None, {k: self.renamed(c, k) for k, c in zip(xs, r.d.values())}, r.ln, r.ix)
                else:
                    self.nope("columns", t)
            elif t.attr == "index" and isinstance(v, Idx):
                st.heap[b.aid] = Rec("frame", None, r.d, r.ln, v)
            elif t.attr not in ("index",):
                self.nope("frame attribute", t)

    def renamed(self, c, name):
        return Ser(c.aid, c.off, c.ln, name, c.dt) if isinstance(c, Ser) else c

    def setattrv(self, b, name, v, st):
        r = st.heap[b.aid]
        p = self.findm(r.cls, name)
        if p is not None:
            for q in reversed(self.repo.mro(r.cls)):
                for m in q.body:
                    if isinstance(m, ast.FunctionDef) and m.name == name and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in m.decorator_list):
                        return self.callf(m, r.cls, [b, v], {}, st)
        st.heap[b.aid] = r.but(**{name: v})

    def rebind(self, node, v, st):
        """x.name = .. mutates the value x denotes: follow it to where it is stored"""
        if isinstance(node, ast.Name):
            old = st.env.get(node.id)
            for k, x in list(st.env.items()):
                if x is old:
                    st.env[k] = v
        elif isinstance(node, ast.Attribute):
            b = self.ev(node.value, st)
            if isinstance(b, Ref) and b.kind == "obj":
                self.setattrv(b, node.attr, v, st)

    def column(self, v, r, name, st):
        if isinstance(v, A):
            b = self.cellat(v, st)              # pandas copies the values into the frame
            if b is not None:
                k = freshix()
                x = self.new(st, v.ln, b(k), k)
                v = Ser(x.aid, x.off, x.ln, name, getattr(v, "dt", None))
            return Ser(v.aid, v.off, v.ln, name, getattr(v, "dt", None))
        if isinstance(v, (N, S)) and v is not NONE and isinstance(v, N) and r.ln is not None:
            k = freshix()
            x = self.new(st, r.ln, v, k)
            return Ser(x.aid, x.off, x.ln, name)
        xs = self.items(v, st) if not isinstance(v, A) else None
        if xs is not None and all(isinstance(x, N) for x in xs):
            x = Summ.numpy(self, "array", [tuple(xs)], {}, None, st)
            if isinstance(x, A):
                return Ser(x.aid, x.off, x.ln, name)
        return v

    def setitem(self, t, v, st):
        b = self.unmaybe(self.ev(t.value, st))
        if isinstance(b, View) and b.kind in ("iloc", "loc", "iat", "at"):
            b = b.base if isinstance(b.base, A) else b
        if isinstance(b, A):
            return Summ.assign_sub(self, ast.copy_location(ast.Subscript(ast.copy_location(_Val(b), t), t.slice, t.ctx), t), v, st)
        if isinstance(b, Ref):
            r = st.heap[b.aid]
            if isinstance(t.slice, ast.Slice):
                return self.nope("slice store", t)
            k = self.ev(t.slice, st)
            if b.kind == "frame":
                if isinstance(k, S):
                    if r.ln is None and isinstance(v, A):
                        r = Rec("frame", None, r.d, v.ln, r.ix)
                    st.heap[b.aid] = r.but(**{k: self.column(v, r, k, st)}) if True else None
                    return
                xs = self.items(k, st)
                if isinstance(v, Ref) and v.kind == "frame" and xs is not None:
                    w = st.heap[v.aid]
                    if len(w.d) == len(xs):
                        st.heap[b.aid] = r.but(**{n: self.renamed(c, n) for n, c in zip(xs, w.d.values())})
                        return
                return self.nope("frame store", t)
            if b.kind == "dict":
                k = self.dkey(k)
                if k is None:
                    st.heap[b.aid] = Rec(r.kind, r.cls, {}, None, "open")
                    return self.nope("dict key", t)
                d = dict(r.d)
                d[k] = v
                st.heap[b.aid] = Rec(r.kind, r.cls, d, r.ln, r.ix)
                return
            if b.kind == "list" and isinstance(k, N) and const(k) is not None and isinstance(r.d["items"], tuple):
                xs = list(r.d["items"])
                j = int(const(k))
                if -len(xs) <= j < len(xs):
                    xs[j] = v
                    st.heap[b.aid] = r.but(items=tuple(xs))
                    return
        self.nope("store", t)

    def dkey(self, k):
        if isinstance(k, (S, N, Cls)) or isinstance(k, Ref) and k.kind == "future":
            return k
        if isinstance(k, tuple) and all(isinstance(x, (S, N)) for x in k):
            return k
        return None

    # ------------------------------------------------------------ loops
    def st_For(self, node, st):
        if self.native[-1]:
            return super().st_For(node, st)
        st = st.copy()
        it = node.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "prange"):
            a = [self.ev(x, st) for x in it.args]
            ks = [const(num(x)) if isinstance(x, N) else None for x in a]
            if None in ks or any(k.denominator != 1 for k in ks):
                return super().st_For(node, st)
            return self.unroll(node, st, [C(i) for i in range(*[int(k) for k in ks])])
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "zip"):
            a = [self.ev(x, st) for x in it.args]
            if all(isinstance(x, A) for x in a):
                return super().st_For(node, st)
        v = self.ev(it, st)
        xs = self.iter_(v, st)
        if xs is None:
            if isinstance(v, A):
                return super().st_For(node, st)
            self.nope("iterable", node)
            self.taint_stmt(node, st, "iterable")
            return [(T, "next", st, None)]
        return self.unroll(node, st, xs)

    def iter_(self, v, st):
        if isinstance(v, Iter):
            return v.xs
        return self.items(v, st)

    def unroll(self, node, st, xs):
        outs, cur, live = [], st, T
        broke = []
        for x in xs:
            cur = cur.copy()
            self.assign(node.target, x, cur)
            r = self.block(node.body, cur)
            nx = []
            for c, k, s, v in r:
                if k in ("next", "continue"):
                    nx.append((c, s))
                elif k == "break":
                    broke.append((and_(live, c), s))
                else:
                    outs.append((and_(live, c), k, s, v))
            if not nx:
                live = F
                break
            live = and_(live, or_(*[c for c, _ in nx]))
            cur = nx[-1][1]
            for c, s in reversed(nx[:-1]):
                cur = self.merge(c, s, cur)
        if live is not F:
            if node.orelse:
                for c, k, s, v in self.block(node.orelse, cur):
                    (broke if k == "next" else outs).append((and_(live, c), s) if k == "next" else (and_(live, c), k, s, v))
            else:
                broke.append((live, cur))
        outs += [(c, "next", s, None) for c, s in broke]
        return outs

    def st_While(self, node, st):
        if self.native[-1]:
            return super().st_While(node, st)
        cur = st.copy()
        for _ in range(300):
            c = self.csimp(self.cond(node.test, cur), cur)
            if c is F:
                return self.block(node.orelse, cur) if node.orelse else [(T, "next", cur, None)]
            if c is not T:
                break
            r = self.block(node.body, cur)
            if len(r) == 1 and r[0][1] in ("next", "continue"):
                cur = r[0][2]
                continue
            if len(r) == 1 and r[0][1] == "break":
                return [(T, "next", r[0][2], None)]
            if len(r) == 1 and r[0][1] == "return":
                return r
            if all(k in ("next", "continue") for _, k, _, _ in r) and r:
                m = r[-1][2]
                for c, _, s, _ in reversed(r[:-1]):
                    m = self.merge(c, s, m)
                cur = m
                continue
            break
        if c is not T:
            return super().st_While(node, cur)
        self.nope("while", node)
        self.taint_stmt(node, cur, "while")
        return [(T, "next", cur, None)]

    def loop(self, node, st, i, lo, hi, bind):
        if self.native[-1]:
            return super().loop(node, st, i, lo, hi, bind)
        s0 = st.copy()
        before = {a: b for a, b in s0.heap.items() if isinstance(b, Rec)}
        bind(s0, i)
        n_un = len(self.unknown)
        try:
            r = self.block(node.body, s0)
        except PyExc:
            r = []
        del self.unknown[n_un:]
        touched = {}
        for _, _, s, _ in r:
            for a, b in before.items():
                q = s.heap.get(a)
                if q is not b:
                    same = isinstance(q, Rec) and q.kind == b.kind == "obj" and q.ix == b.ix
                    ks = {k for k in set(q.d) | set(b.d) if q.d.get(k) is not b.d.get(k)} if same else None
                    touched[a] = None if ks is None or touched.get(a, 0) is None else touched.get(a, set()) | ks
        outs = super().loop(node, st, i, lo, hi, bind)
        for a, ks in touched.items():
            for _, _, s, _ in outs:
                b = s.heap.get(a)
                if isinstance(b, Rec):
                    d = {k: unk("changed in a loop") for k in b.d} if ks is None else {**b.d, **{k: unk("changed in a loop") for k in ks}}
                    s.heap[a] = Rec(b.kind, b.cls, d, b.ln, b.ix)
        return outs

    def taint_stmt(self, node, st, why):
        if not self.native[-1]:
            for n in ast.walk(node):
                base = None
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    base = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    base = n.func.value
                elif isinstance(n, ast.Call):
                    for x in n.args:
                        self._taint(x, st, why)
                if base is not None:
                    self._taint(base, st, why)
        super().taint_stmt(node, st, why)

    def _taint(self, x, st, why):
        try:
            v = self.ev(x, st) if isinstance(x, (ast.Name, ast.Attribute)) else None
        except Exception:
            v = None
        if isinstance(v, Ref):
            b = st.heap[v.aid]
            st.heap[v.aid] = Rec(b.kind, b.cls, {k: unk(why) for k in b.d}, b.ln, "open")

    # ------------------------------------------------------------ names and attributes
    def fromres(self, r, name):
        if r is None:
            return ModRef(name)
        if r[0] == "func":
            return Fnc(r[1], r[1]._mod)
        if r[0] == "class":
            return Cls(r[1])
        if r[0] == "module":
            return ModRef({"numpy": "np", "pandas": "pd"}.get(r[1], r[1]))
        if r[0] == "ext":
            return ModRef({"numpy": "np", "pandas": "pd"}.get(r[1], r[1]))
        return None

    BUILTINS = {"len", "range", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "str", "int", "float", "bool", "list", "tuple", "dict", "set",
                "frozenset", "abs", "min", "max", "sum", "sorted", "enumerate", "zip", "map", "filter", "any", "all", "type", "print", "repr",
                "round", "callable", "super", "iter", "next", "reversed", "object", "slice", "ValueError", "TypeError", "KeyError", "Exception", "id", "vars", "input", "NotImplemented", "open",
                "RuntimeError", "NotImplementedError", "AssertionError", "IndexError", "prange"}

    def glob(self, name):
        if self.native[-1]:
            return super().glob(name)
        mod = self.mods[-1] if self.mods else None
        if name == "NotImplemented":
            return NOTIMPL
        if mod is not None:
            r = self.repo.resolve(mod.name, name)
            if r and r[0] == "const":
                key = ("const", r[2].name, name)
                c = self.gl.get(key)
                if c is None:
                    self.mods.append(r[2])
                    try:
                        c = self.ev(r[1], self.st0)
                    finally:
                        self.mods.pop()
                    self.gl[key] = c
                return c
            v = self.fromres(r, name)
            if r:
                return v
        return ModRef(name)

    gl = None
    st0 = None

    def begin(self, st):
        """module-level values live in the initial heap"""
        self.gl = {}
        self.st0 = st

    def ev_Name(self, node, st):
        v = st.env.get(node.id)
        if v is not None:
            return v
        if not self.native[-1]:
            self.st0 = st
        return self.glob(node.id)

    def ev__Val(self, node, st):
        return node.v

    def ev_Constant(self, node, st):
        if node.value is Ellipsis:
            return unk("...")
        return super().ev_Constant(node, st)

    def ev_NamedExpr(self, node, st):
        v = self.ev(node.value, st)
        self.assign(node.target, v, st)
        return v

    def ev_Attribute(self, node, st):
        if self.native[-1]:
            return super().ev_Attribute(node, st)
        b = self.ev(node.value, st)
        return self.getattr_(b, node.attr, st, node)

    def findm(self, cls, name):
        """first definition of a method along the class order (setters skipped)"""
        for q in self.repo.mro(cls):
            for m in q.body:
                if isinstance(m, ast.FunctionDef) and m.name == name and not any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in m.decorator_list):
                    m._cls = q
                    return m
        return None

    def classattr(self, cls, name, st):
        for q in self.repo.mro(cls):
            for m in q.body:
                if isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in m.targets):
                    self.mods.append(q._mod)
                    try:
                        return self.ev(m.value, st)
                    finally:
                        self.mods.pop()
                if isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name) and m.target.id == name and m.value is not None:
                    self.mods.append(q._mod)
                    try:
                        return self.ev(m.value, st)
                    finally:
                        self.mods.pop()
        return None

    def deco(self, f):
        return {ast.unparse(d) for d in f.decorator_list}

    def bindm(self, m, cls, obj, st):
        d = self.deco(m)
        if "property" in d or "cached_property" in d or "functools.cached_property" in d:
            return self.callf(m, m._cls, [obj], {}, st)
        if "staticmethod" in d:
            return Bound(None, m)
        if "classmethod" in d:
            return Bound(Cls(cls), m)
        return Bound(obj, m)

    def getattr_(self, b, name, st, node=None, default=None):
        if isinstance(b, ModRef):
            if b.name in ("np", "math"):
                if name == "nan":
                    return NAN
                if name == "inf":
                    return INF
                if name == "pi":
                    return par("pi")
            if b.name in self.repo.modules:
                self.mods.append(self.repo.modules[b.name])
                try:
                    r = self.repo.resolve(b.name, name)
                    if r:
                        return self.glob(name)
                finally:
                    self.mods.pop()
            return ModRef(b.name + "." + name)
        if isinstance(b, Super):
            mro = self.repo.mro(st.heap[b.obj.aid].cls if isinstance(b.obj, Ref) else b.obj.node)
            k = mro.index(b.cls) + 1 if b.cls in mro else len(mro)
            for q in mro[k:]:
                for m in q.body:
                    if isinstance(m, ast.FunctionDef) and m.name == name:
                        m._cls = q
                        return self.bindm(m, q, b.obj, st)
            if name == "__init__":
                return Meth(b.obj, "object.__init__")
            return self.nope("super." + name, node)
        if isinstance(b, Ref):
            r = st.heap[b.aid]
            if b.kind == "obj":
                if name == "__class__":
                    return Cls(r.cls)
                if name == "__dict__":
                    return View(b, "attrs")
                m = self.findm(r.cls, name)
                if m is not None and ("property" in self.deco(m)):
                    return self.bindm(m, r.cls, b, st)
                if name in r.d:
                    return r.d[name]
                if m is not None:
                    return self.bindm(m, r.cls, b, st)
                v = self.classattr(r.cls, name, st)
                if v is not None:
                    return v
                if r.ix == "open":
                    return self.nope("attribute " + name, node)
                if default is not None:
                    return default
                raise PyExc("AttributeError " + name)
            if b.kind in ("store", "storer"):
                from . import ohdf
                return ohdf.attr(self, b, name, node, st)
            if b.kind == "frame":
                if name == "columns":
                    return View(b, "columns")
                if name == "index":
                    return r.ix if r.ix is not None else self.nope("index", node)
                if name in r.d and not name in ("count", "copy", "values", "index", "size", "shape"):
                    return r.d[S(name)]
                if name in ("loc", "iloc", "at", "iat"):
                    return View(b, name)
                if name == "empty":
                    return cmp("<=", r.ln, ZERO) if r.ln is not None else unk("empty")
                if name == "shape":
                    return (r.ln, C(len(r.d)))
                return Meth(b, name)
            return Meth(b, name)
        if isinstance(b, Cls):
            if name == "__name__":
                return S(b.node.name)
            if name == "__module__":
                return S(b.node._mod.name)
            m = self.findm(b.node, name)
            if m is not None:
                d = self.deco(m)
                if "classmethod" in d:
                    return Bound(b, m)
                return Bound(None, m)
            if name == "__new__":
                return Meth(b, "__new__")
            v = self.classattr(b.node, name, st)
            if v is not None:
                return v
            if default is not None:
                return default
            return self.nope("class attribute " + name, node)
        if isinstance(b, (Fnc, Clo, Bound)):
            f = b.f if isinstance(b, Bound) else b.node
            if name == "__name__":
                return S(getattr(f, "name", "<lambda>"))
            if name == "__module__":
                return S(b.mod.name if not isinstance(b, Bound) else f._mod.name)
            return default if default is not None else self.nope("function attribute " + name, node)
        if isinstance(b, Ser):
            if name in ("values",):
                return A(b.aid, b.off, b.ln)
            if name == "name":
                return b.name
            if name == "index":
                return self.serindex(b, st)
            if name in ("iloc", "loc", "at", "iat"):
                return View(b, name)
            if name == "dt":
                return View(b, "dt")
            if name == "empty":
                return cmp("==", b.ln, ZERO)
            if name == "size":
                return b.ln
            if name == "dtype":
                return unk("dtype")
            if name in ("is_monotonic_increasing", "is_monotonic_decreasing"):
                return self.monotone(b, name.endswith("increasing"), st)
            if name == "is_unique":
                return self.sermeth(b, name, [], {}, node, st)
            return Meth(b, name)
        if isinstance(b, Idx):
            if name in ("values",):
                return A(b.aid, b.off, b.ln)
            if name == "is_monotonic_increasing":
                return self.monotone(b, True, st) if getattr(b, "loose", False) else T
            if name in ("size",):
                return b.ln
            if name in ("tz", "freq", "name"):
                return NONE
            return Meth(b, name)
        if isinstance(b, A):
            if name == "size":
                return b.ln
            if name == "shape":
                return (b.ln,)
            if name in ("values", "T"):
                return b
            if name == "dtype":
                return unk("dtype")
            if name == "ndim":
                return ONE
            return Meth(b, name)
        if isinstance(b, View):
            if b.kind == "dt":
                return Meth(b, name)
            return Meth(b, name)
        if isinstance(b, Td) and name in ("days", "seconds", "microseconds", "nanoseconds", "value"):
            fl = lambda q: fn("floor", q)
            day, sec = div(b.ns, C(86400 * 10 ** 9)), div(b.ns, C(10 ** 9))
            return {"days": lambda: fl(day), "seconds": lambda: sub(fl(sec), mul(C(86400), fl(day))), "value": lambda: b.ns,
                    "microseconds": lambda: sub(fl(div(b.ns, C(1000))), mul(C(10 ** 6), fl(sec))),
                    "nanoseconds": lambda: sub(b.ns, mul(C(1000), fl(div(b.ns, C(1000)))))}[name]()
        if isinstance(b, Ts) and name == "value":
            return b.ns
        if isinstance(b, Ts) and name in ("year", "month", "day", "hour", "minute", "second", "dayofweek", "quarter"):
            return mk("fn", name, b.ns)
        if isinstance(b, Ts) and name in ("tz", "tzinfo"):
            return NONE
        if isinstance(b, Slice):
            return {"start": b.lo, "stop": b.hi, "step": b.step}.get(name, unk(name))
        if isinstance(b, (S, tuple, Td, Ts, Roll, N, Sig, Ext, Iter, TypeOf)):
            if isinstance(b, Sig) and name == "parameters":
                a = b.fn.args
                return self.rec(st, "dict", d={S(x.arg): NONE for x in a.posonlyargs + a.args + a.kwonlyargs})
            if isinstance(b, TypeOf) and name == "__name__":
                return S(b.k)
            return Meth(b, name)
        if type(b).__name__ == "Grp":
            return Meth(b, name)
        return self.nope("attribute " + name, node)

    def serindex(self, b, st):
        r = getattr(self, "indexof", {}).get(b.aid) or getattr(self, "rowidx", None)
        if r is not None and r.ln is b.ln:
            return r
        if getattr(self, "plain", False):      # rows are numbered
            return NONE
        return View(b, "index")

    def monotone(self, b, up, st):
        x = st.heap[b.aid]
        if x.e is None:
            return unk("monotone")
        j = freshix()
        g = lambda p: subst(x.e, {x.var: add(b.off, p)})
        bad = cmp("<" if up else ">", g(add(j, ONE)), g(j))
        return not_(mk("bfn", "any", sub(b.ln, ONE), *X._close(bad, j)))

    # ------------------------------------------------------------ literals
    def ev_List(self, node, st):
        if self.native[-1]:
            return super().ev_List(node, st)
        return self.plist(st, self.star(node.elts, st))

    def star(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.items(self.ev(x.value, st), st)
                if v is None:
                    raise Giveup("star")
                out += list(v)
            else:
                out.append(self.ev(x, st))
        return out

    def ev_Tuple(self, node, st):
        return tuple(self.star(node.elts, st))

    def ev_Set(self, node, st):
        return self.mkset(self.star(node.elts, st), st)

    def mkset(self, xs, st):
        out = []
        for x in xs:
            if not any(self.same(x, y, st) is T for y in out):
                out.append(x)
        return self.plist(st, out, "set")

    def ev_Dict(self, node, st):
        d = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                m = self.ev(v, st)
                if isinstance(m, Ref) and m.kind == "dict":
                    d.update(st.heap[m.aid].d)
                    continue
                raise Giveup("dict")
            kk = self.dkey(self.ev(k, st))
            if kk is None:
                return self.nope("dict key", node)
            d[kk] = self.ev(v, st)
        return self.rec(st, "dict", d=d)

    def ev_Lambda(self, node, st):
        return Clo(node, dict(st.env), self.mods[-1])

    def fmt(self, v, spec, conv, st):
        if isinstance(v, S):
            return str(v)
        if v is NONE:
            return "None"
        if v is T or v is F:
            return str(v is T)
        if isinstance(v, N) and v.h != "unk":
            k = const(v)
            if k is not None and not spec:
                return str(int(k)) if k.denominator == 1 else repr(float(k))
            return Holes.of(v, spec)
        if isinstance(v, (Td, Ts)):
            return Holes.of(v, spec)
        xs = self.items(v, st)
        if xs is not None and isinstance(v, (tuple, Ref)):
            body = ", ".join(repr(str(x)) if isinstance(x, S) else self.fmt(x, "", None, st) for x in xs)
            return ("[" + body + "]") if isinstance(v, Ref) else "(" + body + ("," if len(xs) == 1 else "") + ")"
        if isinstance(v, Ref) and v.kind == "obj":
            m = self.findm(st.heap[v.aid].cls, "__str__") or self.findm(st.heap[v.aid].cls, "__repr__")
            if m is not None:
                r = self.callf(m, m._cls, [v], {}, st)
                if isinstance(r, S):
                    return str(r)
        return None

    def ev_JoinedStr(self, node, st):
        if self.native[-1]:
            return super().ev_JoinedStr(node, st)
        out = ""
        for p in node.values:
            if isinstance(p, ast.Constant):
                out += str(p.value)
            else:
                v = self.ev(p.value, st)
                spec = ast.unparse(p.format_spec) if p.format_spec is not None else ""
                t = self.fmt(v, spec, p.conversion, st)
                if t is None:
                    return unk("str")
                out += t
        return S(out)

    # ------------------------------------------------------------ operators
    DUN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow", ast.FloorDiv: "floordiv", ast.Mod: "mod"}

    def binop(self, op, a, b, st):
        if self.native[-1]:
            return super().binop(op, a, b, st)
        declined = False
        for x, y, pre in ((a, b, ""), (b, a, "r")):
            if isinstance(x, Ref) and x.kind == "obj":
                m = self.findm(st.heap[x.aid].cls, f"__{pre}{self.DUN.get(type(op), '?')}__")
                if m is not None:
                    v = self.callf(m, m._cls, [x, y], {}, st)
                    if v is not NOTIMPL:
                        return v
                    declined = True
        if declined and (isinstance(a, S) or isinstance(b, S)):
            raise PyExc("TypeError operands")
        if isinstance(a, S) and isinstance(b, S) and isinstance(op, ast.Add):
            return S(str(a) + str(b))
        if isinstance(a, S) and isinstance(op, ast.Mult) and isinstance(b, N) and const(b) is not None:
            return S(str(a) * int(const(b)))
        xs, ys = (self.items(a, st) if isinstance(a, (tuple, Ref)) else None), (self.items(b, st) if isinstance(b, (tuple, Ref)) else None)
        if xs is not None and ys is not None and isinstance(op, ast.Add):
            return tuple(xs + ys) if isinstance(a, tuple) else self.plist(st, xs + ys)
        if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isinstance(a, Ref) and isinstance(b, Ref) and "set" in (a.kind, b.kind):
            has = lambda v, s: any(self.same(v, y, st) is T for y in s)
            if isinstance(op, ast.BitOr):
                return self.mkset(xs + ys, st)
            return self.mkset([x for x in xs if has(x, ys) == isinstance(op, ast.BitAnd)], st)
        if isinstance(a, (Td, Ts)) or isinstance(b, (Td, Ts)):
            return self.timeop(op, a, b, st)
        if isinstance(a, (S, Ref, Cls)) or isinstance(b, (S, Ref, Cls)):
            return self.nope("operator")
        return super().binop(op, a, b, st)

    def timeop(self, op, a, b, st):
        raw = lambda v: v.ns if isinstance(v, (Td, Ts)) else v
        r = super().binop(op, raw(a), raw(b), st)
        if isinstance(r, A):
            src = a if isinstance(a, A) else b
            if isinstance(src, Idx) and isinstance(op, (ast.Add, ast.Sub)) and (isinstance(a, Td) or isinstance(b, Td)):
                return Idx(r.aid, r.off, r.ln)
            return r
        if isinstance(a, Ts) != isinstance(b, Ts):
            return Ts(r)
        if isinstance(op, (ast.Mult, ast.Add, ast.Sub)) or (isinstance(op, (ast.Div, ast.FloorDiv)) and isinstance(b, N)):
            return Td(r)
        return r

    def ev_UnaryOp(self, node, st):
        if self.native[-1]:
            return super().ev_UnaryOp(node, st)
        v = self.ev(node.operand, st)
        if isinstance(node.op, ast.Not):
            return not_(self.truth(v, st))
        if isinstance(v, Ref) and v.kind == "obj" and isinstance(node.op, ast.USub):
            m = self.findm(st.heap[v.aid].cls, "__neg__")
            return self.callf(m, m._cls, [v], {}, st) if m is not None else self.nope("neg", node)
        if isinstance(v, Td) and isinstance(node.op, ast.USub):
            return Td(neg(v.ns))
        if isinstance(v, A) and isinstance(node.op, (ast.USub, ast.Invert)):
            f = (lambda x: neg(num(x))) if isinstance(node.op, ast.USub) else (lambda x: not_(boolify(x)))
            return self.elementwise(f, [v], st)
        if not isinstance(v, N):
            return self.nope("unary", node)
        if isinstance(node.op, ast.USub):
            return neg(num(v))
        if isinstance(node.op, ast.Invert):
            return not_(boolify(v)) if isbool(v) else unk("invert")
        return v

    def truth(self, v, st):
        if isinstance(v, N):
            if v is NONE:
                return F
            if v.h == "unk":
                return mk("bfn", "unk", v)
            return boolify(v)
        if isinstance(v, S):
            return T if len(v) else F
        xs = self.items(v, st) if not isinstance(v, A) else None
        if xs is not None:
            return T if xs else F
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "maybe":
            return and_(not_(mk("isnone", v[1][0])), self.truth(v[1][1], st)) if isinstance(v[1][1], N) else not_(mk("isnone", v[1][0]))
        if isinstance(v, A):
            return unk("truth of an array") if False else mk("bfn", "truth", v.ln)
        if isinstance(v, (Ref, Cls, Clo, Bound, Fnc, Td, Ts, ModRef)):
            return T
        return mk("bfn", "unk", unk("truth"))

    def cond(self, node, st):
        if self.native[-1]:
            return super().cond(node, st)
        if isinstance(node, ast.BoolOp):
            return self.truth(self.boolop(node, st, True), st)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not_(self.cond(node.operand, st))
        return self.truth(self.ev(node, st), st)

    def ev_BoolOp(self, node, st):
        if self.native[-1]:
            return super().ev_BoolOp(node, st)
        return self.boolop(node, st, False)

    def boolop(self, node, st, test):
        """test: only the truth of the result matters; otherwise `a or b` is one of its operands"""
        isand = isinstance(node.op, ast.And)
        acc, vals = [], []
        last = None
        s = st
        for j, x in enumerate(node.values):
            try:
                last = self.ev(x, s)
            except PyExc:
                if acc:
                    break
                raise
            t = self.csimp(self.truth(last, s), s)
            if t is (F if isand else T) and not acc:
                return last
            if j == len(node.values) - 1 and not acc:
                return last
            if t is (F if isand else T) or j == len(node.values) - 1:
                acc.append(t)
                vals.append(last)
                break
            if t is not (T if isand else F):
                acc.append(t)
                vals.append(last)
                s = St(s.env, s.heap, s.facts | set(atoms_of(t if isand else not_(t))))
        if not test and not all(isinstance(v, N) and (isbool(v) or v.h == "unk") for v in vals):
            if not all(isinstance(v, N) and v is not NONE for v in vals):
                return self.nope("one of several values", node)
            v = num(vals[-1])
            for x, t in reversed(list(zip(vals[:-1], acc[:-1]))):
                v = ite(t, v, num(x)) if isand else ite(t, num(x), v)
            return v
        return self.csimp(and_(*acc) if isand else or_(*acc), st)

    def ev_IfExp(self, node, st):
        if self.native[-1]:
            return super().ev_IfExp(node, st)
        c = self.csimp(self.cond(node.test, st), st)
        if c is T:
            return self.ev(node.body, st)
        if c is F:
            return self.ev(node.orelse, st)
        s1 = St(st.env, st.heap, st.facts | set(atoms_of(c)))
        s2 = St(st.env, st.heap, st.facts | set(atoms_of(not_(c))))
        try:
            a = self.ev(node.body, s1)
        except PyExc:
            return self.ev(node.orelse, s2)
        try:
            b = self.ev(node.orelse, s2)
        except PyExc:
            return a
        return self.mergev(c, a, b, st)

    def same(self, a, b, st):
        """a == b"""
        if isinstance(a, S) and isinstance(b, S):
            return streq(str(a), str(b))
        if (a is NONE) != (b is NONE):
            if isinstance(a, N) and isinstance(b, N) and "unk" in (a.h, b.h):
                return mk("bfn", "unk", a if a.h == "unk" else b)
            o = b if a is NONE else a
            if isinstance(o, tuple) and len(o) == 2 and o[0] == "maybe":
                return mk("isnone", o[1][0])
            return F
        if a is b:
            return T
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "future":
            return T if a.aid == b.aid else F
        if isinstance(a, (TypeOf, Cls)) or isinstance(b, (TypeOf, Cls)):
            if isinstance(a, TypeOf) and isinstance(b, TypeOf):
                return T if a.k == b.k else F
            if isinstance(a, TypeOf) and isinstance(b, ModRef) or isinstance(b, TypeOf) and isinstance(a, ModRef):
                t, m = (a, b) if isinstance(a, TypeOf) else (b, a)
                return T if t.k == m.name else F
            return T if a == b else F
        if isinstance(a, (Td, Ts)) and isinstance(b, (Td, Ts)):
            return self.cmpn("==", a.ns, b.ns)
        if isinstance(a, S) != isinstance(b, S):
            o = b if isinstance(a, S) else a
            return F if not (isinstance(o, N) and o.h == "unk") else mk("bfn", "unk", o)
        if isinstance(a, (Ref, tuple)) and isinstance(b, (Ref, tuple)):
            xs, ys = self.items(a, st), self.items(b, st)
            ka, kb = (a.kind if isinstance(a, Ref) else "tuple"), (b.kind if isinstance(b, Ref) else "tuple")
            if xs is not None and ys is not None:
                if ka != kb or (ka != "set" and len(xs) != len(ys)):
                    return F
                if ka == "dict":
                    if set(xs) != set(ys):
                        return F
                    return and_(*[self.same(st.heap[a.aid].d[k], st.heap[b.aid].d[k], st) for k in xs])
                if ka == "set":
                    return T if all(any(self.same(x, y, st) is T for y in ys) for x in xs) and len(xs) == len(ys) else F
                return and_(*[self.same(x, y, st) for x, y in zip(xs, ys)]) if xs else T
            return T if isinstance(a, Ref) and isinstance(b, Ref) and a.aid == b.aid else F
        if isinstance(a, N) and isinstance(b, N):
            if a.h == "unk" or b.h == "unk":
                return mk("bfn", "unk", a if a.h == "unk" else b)
            return self.cmpn("==", num(a), num(b)) if not (isbool(a) and isbool(b)) else or_(and_(a, b), and_(not_(a), not_(b)))
        if isinstance(a, ModRef) and isinstance(b, ModRef):
            return T if a.name == b.name else F
        if type(a) is not type(b):
            return F if not (isinstance(a, N) and a.h == "unk" or isinstance(b, N) and b.h == "unk") else mk("bfn", "unk", unk("=="))
        return mk("bfn", "unk", unk("=="))

    def contains(self, x, c, st):
        if isinstance(c, S) and isinstance(x, S):
            if str(x) in str(c):
                return T
            return F if not any(map(ishole, str(c) + str(x))) else mk("bfn", "unk", unk("in"))
        if isinstance(c, Ref) and c.kind == "obj":
            m = self.findm(st.heap[c.aid].cls, "__contains__")
            return self.truth(self.callf(m, m._cls, [c, x], {}, st), st) if m is not None else mk("bfn", "unk", unk("in"))
        if isinstance(c, Ref) and c.kind == "store":
            from . import ohdf
            return ohdf.contains(self, c, x, st)
        if isinstance(c, Ref) and c.kind == "frame":
            c = View(c, "columns")
        if isinstance(c, (View, Ref)) and isinstance(st.heap.get(c.base.aid if isinstance(c, View) else c.aid), Rec) \
                and st.heap[c.base.aid if isinstance(c, View) else c.aid].ix == "open":
            return mk("bfn", "unk", unk("in"))
        xs = self.iter_(c, st)
        if xs is None:
            return mk("bfn", "unk", unk("in"))
        if not xs:
            return F
        return self.csimp(or_(*[self.same(x, y, st) for y in xs]), st)

    def ev_Compare(self, node, st):
        if self.native[-1]:
            return super().ev_Compare(node, st)
        l = self.ev(node.left, st)
        cs = []
        for op, rn in zip(node.ops, node.comparators):
            r = self.ev(rn, st)
            if isinstance(op, (ast.In, ast.NotIn)):
                c = self.contains(l, r, st)
                c = not_(c) if isinstance(op, ast.NotIn) else c
            elif isinstance(op, (ast.Eq, ast.NotEq)) and not isinstance(l, A) and not isinstance(r, A) and not (isinstance(l, N) and isinstance(r, N)):
                c = self.same(l, r, st)
                c = not_(c) if isinstance(op, ast.NotEq) else c
            elif isinstance(op, (ast.Is, ast.IsNot)):
                if (l is NONE) or (r is NONE) or isinstance(l, tuple) or isinstance(r, tuple):
                    o = r if l is NONE else l
                    if l is NONE and r is NONE:
                        c = T
                    elif isinstance(o, N) and o.h == "unk":
                        c = mk("bfn", "unk", o)
                    else:
                        c = self.isnone(o)
                else:
                    c = self.same(l, r, st)
                c = not_(c) if isinstance(op, ast.IsNot) else c
            else:
                raw = lambda v: v.ns if isinstance(v, (Td, Ts)) else v
                c = self.compare(op, raw(l), raw(r), st)
            cs.append(c)
            l = r
        if len(cs) == 1:
            return cs[0]
        if all(isinstance(c, N) for c in cs):
            return self.csimp(and_(*cs), st)
        return self.nope("chain", node)

    # ------------------------------------------------------------ arrays / columns
    def elementwise(self, f, vs, st):
        r = super().elementwise(f, vs, st)
        if isinstance(r, A) and any(isinstance(v, Ser) for v in vs) and not self.native[-1]:
            names = {str(v.name) if isinstance(v.name, S) else None for v in vs if isinstance(v, Ser)}
            nm = S(names.pop()) if len(names) == 1 and None not in names else NONE
            return Ser(r.aid, r.off, r.ln, nm)
        return r

    def slice(self, b, sl, st):
        r = super().slice(b, sl, st)
        if isinstance(r, A):
            if isinstance(b, Ser):
                return Ser(r.aid, r.off, r.ln, b.name, b.dt)
            if isinstance(b, Idx):
                return Idx(r.aid, r.off, r.ln)
        return r

    def ev_Slice(self, node, st):
        g = lambda x: self.ev(x, st) if x is not None else NONE
        return Slice(g(node.lower), g(node.upper), g(node.step))

    def ev_Subscript(self, node, st):
        if self.native[-1]:
            return super().ev_Subscript(node, st)
        b = self.unmaybe(self.ev(node.value, st))
        return self.getitem(b, node, st)

    def getitem(self, b, node, st, key=None):
        if isinstance(b, View) and b.kind in ("iloc", "loc", "iat", "at") and isinstance(b.base, A):
            if b.kind in ("loc", "at"):
                k = self.ev(node.slice, st) if not isinstance(node.slice, ast.Slice) else None
                if not isinstance(k, A):
                    return self.nope("label access", node)
            b = b.base
        if isinstance(b, View) and b.kind in ("iloc", "loc") and isinstance(b.base, Ref):
            return self.frameloc(b, node, st)
        if isinstance(b, A):
            k = self.ev(node.slice, st) if not isinstance(node.slice, ast.Slice) else None
            if isinstance(k, Slice):
                sl = ast.copy_location(ast.Slice(*[_Val(x) if x is not NONE else None for x in (k.lo, k.hi, k.step)]), node)
                r = self.slice(b, sl, st)
                return r if r is not None else self.nope("slice", node)
            r = Summ.ev_Subscript(self, ast.copy_location(ast.Subscript(_Val(b), node.slice if k is None else _Val(k), ast.Load()), node), st)
            if isinstance(r, A) and isinstance(b, (Ser, Idx)) and type(r) is A:
                return Ser(r.aid, r.off, r.ln, b.name, b.dt) if isinstance(b, Ser) else Idx(r.aid, r.off, r.ln)
            if isinstance(b, Idx) and isinstance(r, N) and r.h != "unk":
                return Ts(r)
            return r
        if isinstance(b, Ref) and b.kind == "obj":
            m = self.findm(st.heap[b.aid].cls, "__getitem__")
            if m is not None:
                return self.callf(m, m._cls, [b, self.ev(node.slice, st)], {}, st)
            return self.nope("subscript", node)
        if isinstance(node.slice, ast.Slice):
            xs = self.items(b, st)
            if xs is None:
                return self.nope("slice", node)
            ks = []
            for q in (node.slice.lower, node.slice.upper, node.slice.step):
                v = self.ev(q, st) if q is not None else NONE
                if v is NONE:
                    ks.append(None)
                elif isinstance(v, N) and const(v) is not None:
                    ks.append(int(const(v)))
                else:
                    return self.nope("slice", node)
            if isinstance(b, S):
                return S(str(b)[slice(*ks)])
            r = xs[slice(*ks)]
            return tuple(r) if isinstance(b, tuple) else self.plist(st, r)
        k = self.unmaybe(self.ev(node.slice, st))
        if isinstance(b, Ref) and b.kind == "frame":
            return self.framecol(b, k, st, node)
        if isinstance(b, Ref) and b.kind == "store":
            from . import ohdf
            return ohdf.fetch(self, b, k, node, st)
        if isinstance(b, Ref) and b.kind == "dict":
            r = st.heap[b.aid]
            return self.dictget(r, k, st, node)
        if type(b).__name__ == "Grp" and isinstance(b.base, Ref):
            from . import ogroup
            c = self.framecol(b.base, k, st, node)
            return ogroup.Grp(c, b.key, b.sort) if isinstance(c, (Ser, Ref)) else self.nope("groupby column", node)
        xs = self.items(b, st)
        if xs is not None and isinstance(k, N):
            j = const(num(k))
            if j is not None and -len(xs) <= j < len(xs):
                return S(xs[int(j)]) if isinstance(b, S) else xs[int(j)]
            if j is not None:
                raise PyExc("IndexError")
        return self.nope("subscript", node)

    def dictget(self, r, k, st, node=None, default=None):
        if r.ix == "open":
            return self.nope("dict", node)
        kk = self.dkey(k)
        if kk is None:
            return self.nope("dict key", node)
        for q, v in r.d.items():
            c = self.same(kk, q, st)
            if c is T:
                return v
            if c is not F:
                return self.nope("dict key", node)
        if default is not None:
            return default
        raise PyExc(f"KeyError {show(kk) if isinstance(kk, S) else kk}")

    def framecol(self, b, k, st, node=None):
        r = st.heap[b.aid]
        if isinstance(k, S):
            for q, v in r.d.items():
                c = self.same(k, q, st)
                if c is T:
                    return v
                if c is not F:
                    return self.nope("column", node)
            if r.ix == "open":
                return self.nope("column", node)
            raise PyExc("KeyError " + show(k))
        xs = self.items(k, st) if isinstance(k, (Ref, tuple, View)) else None
        if xs is not None and all(isinstance(x, S) for x in xs):
            d = {}
            for x in xs:
                d[x] = self.framecol(b, x, st, node)
            return self.rec(st, "frame", d=d, ln=r.ln, ix=r.ix)
        if isinstance(k, A) and st.heap[k.aid].e is not None and isbool_arr(st.heap[k.aid]):
            return self.framefilter(b, k, st)
        return self.nope("column", node)

    def framefilter(self, b, k, st):
        """rows where the mask holds, every column alike"""
        r = st.heap[b.aid]
        d = {}
        ln = None
        for n, c in list(r.d.items()):
            if isinstance(c, A):
                v = Summ.ev_Subscript(self, ast.Subscript(_Val(A(c.aid, c.off, c.ln)), _Val(k), ast.Load()), st)
                if isinstance(v, A):
                    d[n] = Ser(v.aid, v.off, v.ln, n)
                    ln = v.ln
                    continue
            d[n] = c if isinstance(c, (S, N)) else unk("filter")
        ix = r.ix
        if isinstance(ix, A):
            v = Summ.ev_Subscript(self, ast.Subscript(_Val(A(ix.aid, ix.off, ix.ln)), _Val(k), ast.Load()), st)
            loose = getattr(ix, "loose", False)
            ix = Idx(v.aid, v.off, v.ln) if isinstance(v, A) else None
            if ix is not None:
                ix.loose = loose
            ln = ix.ln if ix is not None else ln
        return self.rec(st, "frame", d=d, ln=ln, ix=ix)

    def frameloc(self, b, node, st):
        r = st.heap[b.base.aid]
        k = self.ev(node.slice, st)
        if isinstance(k, A) and st.heap[k.aid].e is not None and isbool_arr(st.heap[k.aid]):
            return self.framefilter(b.base, k, st)
        if isinstance(k, Slice) and k.lo is NONE and k.hi is NONE:
            return b.base
        if isinstance(k, Slice) and b.kind == "loc" and k.step is NONE and isinstance(r.ix, A) and all(q is NONE or isinstance(q, Ts) for q in (k.lo, k.hi)):
            x = A(r.ix.aid, r.ix.off, r.ix.ln)          # both labels belong to the slice
            k = Slice(*[NONE if q is NONE else Summ.numpy(self, "searchsorted", [x, q.ns], {"side": S(side)}, node, st) for q, side in ((k.lo, "left"), (k.hi, "right"))], NONE)
            b = View(b.base, "iloc")
        if isinstance(k, Slice) and b.kind == "iloc":
            sl = ast.Slice(*[_Val(x) if x is not NONE else None for x in (k.lo, k.hi, k.step)])
            d = {n: (self.slice(c, sl, st) if isinstance(c, A) else unk("slice")) for n, c in r.d.items()}
            ix = self.slice(r.ix, sl, st) if isinstance(r.ix, A) else r.ix
            ln = next((c.ln for c in d.values() if isinstance(c, A)), None)
            return self.rec(st, "frame", d=d, ln=ln, ix=ix)
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Slice) and k[0].lo is NONE and k[0].hi is NONE:
            return self.framecol(b.base, k[1], st, node)
        if isinstance(k, A) and b.kind == "loc" and isinstance(r.ix, A) and not isbool_arr(st.heap[k.aid]) and (getattr(r.ix, "sorted", False) or r.ix is self.rowidx):
            # the rows with the given labels, in their order; the index is sorted and has distinct labels
            if k.aid == r.ix.aid:
                at = lambda c: type(c)(c.aid, add(c.off, sub(k.off, r.ix.off)), k.ln, c.name) if isinstance(c, Ser) else type(c)(c.aid, add(c.off, sub(k.off, r.ix.off)), k.ln)
            else:
                x = A(r.ix.aid, r.ix.off, r.ix.ln)
                pos = Summ.numpy(self, "searchsorted", [x, A(k.aid, k.off, k.ln)], {}, node, st)
                if not isinstance(pos, A):
                    return self.nope("loc", node)

                def at(c):
                    v = Summ.ev_Subscript(self, ast.Subscript(_Val(A(c.aid, c.off, c.ln)), _Val(pos), ast.Load()), st)
                    return Ser(v.aid, v.off, v.ln, c.name) if isinstance(c, Ser) else Idx(v.aid, v.off, v.ln)
            d = {n: at(c) if isinstance(c, Ser) else c if isinstance(c, (S, N)) else unk("loc") for n, c in r.d.items()}
            return self.rec(st, "frame", d=d, ln=k.ln, ix=at(r.ix))
        return self.nope("loc", node)

    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(self, node, st):
        if self.native[-1]:
            return super().ev_ListComp(node, st)
        xs = self.comp(node.generators, node.elt, st)
        if xs is None:
            if len(node.generators) == 1 and isinstance(node, ast.ListComp):
                return super().ev_ListComp(node, st)
            return self.nope("comprehension", node)
        return self.plist(st, xs)

    def ev_GeneratorExp(self, node, st):
        if self.native[-1]:
            return super().ev_ListComp(node, st)
        xs = self.comp(node.generators, node.elt, st)
        if xs is None:
            return super().ev_ListComp(node, st) if len(node.generators) == 1 else self.nope("comprehension", node)
        return Iter(tuple(xs))

    def ev_SetComp(self, node, st):
        xs = self.comp(node.generators, node.elt, st)
        return self.mkset(xs, st) if xs is not None else self.nope("comprehension", node)

    def ev_DictComp(self, node, st):
        xs = self.comp(node.generators, ast.copy_location(ast.Tuple([node.key, node.value], ast.Load()), node), st)
        if xs is None:
            return self.nope("comprehension", node)
        d = {}
        for k, v in xs:
            kk = self.dkey(k)
            if kk is None:
                return self.nope("dict key", node)
            for q in list(d):
                if self.same(kk, q, st) is T:
                    kk = q
            d[kk] = v
        return self.rec(st, "dict", d=d)

    def comp(self, gens, elt, st):
        g, rest = gens[0], gens[1:]
        v = self.ev(g.iter, st)
        xs = self.iter_(v, st)
        if xs is None:
            return None
        out = []
        env0 = dict(st.env)
        for x in xs:
            self.assign(g.target, x, st)
            ok = T
            for c in g.ifs:
                ok = self.csimp(and_(ok, self.cond(c, st)), st)
                if ok is F:
                    break
            if ok is F:
                continue
            if ok is not T:
                st.env = env0
                return None
            if rest:
                r = self.comp(rest, elt, st)
                if r is None:
                    st.env = env0
                    return None
                out += r
            else:
                out.append(self.ev(elt, st))
        st.env.clear()
        st.env.update(env0)
        return out

    # ------------------------------------------------------------ calls
    def callf(self, f, cls, args, kw, st, clo=None, mod=None):
        """evaluate a python function definition or lambda"""
        if self.depth > 40:
            return self.nope("depth")
        a = f.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = dict(clo) if clo else {}
        mod = mod or getattr(f, "_mod", None) or (cls._mod if cls is not None else self.mods[-1])
        if len(args) > len(ps) and not a.vararg:
            raise PyExc("TypeError arguments")
        loc = dict(zip(ps, args))
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(ps):])
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in ps or k in kwo:
                loc[k] = v
            elif a.kwarg:
                extra[S(k)] = v
            else:
                raise PyExc("TypeError keyword " + k)
        self.mods.append(mod)
        try:
            for p, d in list(zip(ps[::-1], a.defaults[::-1])) + [(k, d) for k, d in zip(kwo, a.kw_defaults) if d is not None]:
                if p not in loc:
                    loc[p] = self.ev(d, St(dict(env), st.heap, frozenset()))
        finally:
            self.mods.pop()
        if a.kwarg:
            loc[a.kwarg.arg] = self.rec(st, "dict", d=extra)
        for p in ps + kwo:
            if p not in loc:
                raise PyExc("TypeError missing " + p)
        env.update(loc)
        if cls is not None:
            env["__class__"] = Cls(cls)
            if ps:
                env["__self__"] = loc[ps[0]]
        if isinstance(f, ast.Lambda):
            self.depth += 1
            self.mods.append(mod)
            try:
                return self.ev(f.body, St(env, st.heap, st.facts))
            finally:
                self.depth -= 1
                self.mods.pop()
        if is_njit(f):
            return self.native_call(f, mod, loc, st)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return self.nope("generator")
        self.native.append(False)
        try:
            return self.run(Fnc(f, mod), env, st)
        finally:
            self.native.pop()

    def native_call(self, f, mod, loc, st):
        env = {}
        for k, v in loc.items():
            v2 = self.tonative(v, st)
            env[k] = v2
        self.calls.append(f.name)
        ps = [x.arg for x in f.args.posonlyargs + f.args.args]
        self.native.append(True)
        d0 = self.depth
        self.depth = 1
        try:
            if any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(f)) and any(isinstance(v, A) for v in env.values()):
                v = self.lazy(Fnc(f, mod), ps, env, st)
                if v is not None:
                    return v
            self.depth = 0
            return self.run(Fnc(f, mod), env, st)
        finally:
            self.depth = d0
            self.native.pop()

    def tonative(self, v, st):
        if isinstance(v, (Ser, Idx)):
            return A(v.aid, v.off, v.ln)
        if isinstance(v, Ref) and v.kind == "list":
            xs = self.items(v, st)
            return tuple(xs) if xs is not None else unk("list")
        if isinstance(v, (Ref, Cls, Clo, Bound, Td, Ts, View)):
            return unk("object")
        return v

    def run(self, f, env, st):
        """as in the array engine, but a function that raises on every path raises"""
        self.depth += 1
        self.mods.append(f.mod)
        try:
            env[OK] = T
            s = St(env, dict(st.heap), st.facts)
            outs = self.block(f.node.body, s)
        finally:
            self.depth -= 1
            self.mods.pop()
        self.settle(outs, st)
        rets = [(c, s2, v if k == "return" else NONE) for c, k, s2, v in outs if k in ("return", "next") and c is not F]
        if not rets:
            if self.native[-1]:
                return unk("never returns")
            raise PyExc("never returns")
        c, m, v = rets[-1]
        for c, s2, v2 in reversed(rets[:-1]):
            mm = self.merge(c, St({}, s2.heap, s2.facts), St({}, m.heap, m.facts))
            v = self.mergev(c, v2, v, mm)
            m = mm
        st.heap.clear()
        st.heap.update(m.heap)
        return self.alive(v, st)

    def construct(self, cls, args, kw, st):
        o = self.rec(st, "obj", cls=cls)
        m = self.findm(cls, "__init__")
        if m is not None:
            self.callf(m, m._cls, [o] + args, kw, st)
        elif any("dataclass" in ast.unparse(d) for q in self.repo.mro(cls) for d in q.decorator_list):
            fields = []
            for q in reversed(self.repo.mro(cls)):
                for x in q.body:
                    if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        fields = [f for f in fields if f[0] != x.target.id] + [(x.target.id, x.value, q)]
            d = dict(zip([f[0] for f in fields], args))
            for k, v in kw.items():
                if k not in [f[0] for f in fields]:
                    raise PyExc("TypeError keyword " + k)
                d[k] = v
            for n, dv, q in fields:
                if n not in d:
                    if dv is None:
                        raise PyExc("TypeError missing " + n)
                    self.mods.append(q._mod)
                    try:
                        d[n] = self.ev(dv, st)
                    finally:
                        self.mods.pop()
            st.heap[o.aid] = Rec("obj", cls, d)
            p = self.findm(cls, "__post_init__")
            if p is not None:
                self.callf(p, p._cls, [o], {}, st)
        return o

    def ev_Call(self, node, st):
        if self.native[-1]:
            return super().ev_Call(node, st)
        f = node.func
        if isinstance(f, ast.Name) and f.id == "super" and not node.args:
            return Super(st.env.get("__self__"), st.env["__class__"].node) if "__class__" in st.env else self.nope("super", node)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "logger":
            return NONE
        fv = self.ev(f, st)
        if isinstance(fv, ModRef) and (fv.name.startswith("logger") or fv.name in ("print",) or fv.name.startswith("warnings.") or fv.name.startswith("logging.")):
            return NONE
        args = self.star(node.args, st)
        kw = {}
        for k in node.keywords:
            if k.arg:
                kw[k.arg] = self.ev(k.value, st)
            else:
                m = self.ev(k.value, st)
                if isinstance(m, Ref) and m.kind == "dict" and all(isinstance(q, S) for q in st.heap[m.aid].d) and st.heap[m.aid].ix != "open":
                    kw.update({str(q): v for q, v in st.heap[m.aid].d.items()})
                else:
                    raise Giveup("keywords")
        return self.call(fv, args, kw, node, st)

    def call(self, fv, args, kw, node, st):
        if isinstance(fv, Bound):
            return self.callf(fv.f, fv.f._cls, ([fv.self_] if fv.self_ is not None else []) + args, kw, st)
        if isinstance(fv, Clo):
            return self.callf(fv.node, fv.cls, args, kw, st, fv.env, fv.mod)
        if isinstance(fv, Fnc):
            if fv.mod.name.startswith("finmlkit.utils.log"):
                return ModRef("logger")
            return self.callf(fv.node, None, args, kw, st, mod=fv.mod)
        if isinstance(fv, Cls):
            return self.construct(fv.node, args, kw, st)
        if isinstance(fv, Ref) and fv.kind == "obj":
            m = self.findm(st.heap[fv.aid].cls, "__call__")
            if m is None:
                raise PyExc("not callable")
            return self.callf(m, m._cls, [fv] + args, kw, st)
        if isinstance(fv, Meth):
            return self.method(fv.base, fv.name, args, kw, node, st)
        if isinstance(fv, ModRef):
            return self.external(fv.name, args, kw, node, st)
        if isinstance(fv, tuple) and len(fv) == 2 and fv[0] == "maybe":
            return self.call(fv[1][1], args, kw, node, st)
        return self.nope("call", node)

    # ------------------------------------------------------------ external functions
    def isinst(self, v, t, st):
        if isinstance(t, tuple) or isinstance(t, Ref) and t.kind == "list":
            return or_(*[self.isinst(v, x, st) for x in self.items(t, st)])
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "maybe":
            return and_(not_(mk("isnone", v[1][0])), self.isinst(v[1][1], t, st))
        if isinstance(v, N) and v.h == "unk":
            return mk("bfn", "unk", v)
        if isinstance(t, Cls):
            if isinstance(v, Ref) and v.kind == "obj":
                return T if t.node in self.repo.mro(st.heap[v.aid].cls) else F
            return F
        if not isinstance(t, ModRef):
            return mk("bfn", "unk", unk("isinstance"))
        n = t.name
        short_ = n.split(".")[-1]
        kinds = self.pytypes(v, st)
        if kinds is None:
            return mk("bfn", "unk", unk("isinstance"))
        return T if short_ in kinds else F

    def pytypes(self, v, st):
        if v is NONE:
            return {"NoneType"}
        if isinstance(v, N):
            if isbool(v):
                return {"bool", "int"}
            if v.h == "flag":
                return {"bool", "int"}
            return {"int", "integer", "Integral", "Number"} if isint(v) else {"float", "Number"}
        if isinstance(v, S):
            return {"str", "Sequence"}
        if isinstance(v, tuple):
            return {"tuple", "Sequence"}
        if isinstance(v, Ser):
            return {"Series"}
        if isinstance(v, Idx):
            return {"DatetimeIndex", "Index"}
        if isinstance(v, A):
            return {"ndarray"}
        if isinstance(v, Ref):
            return {"list": {"list", "Sequence"}, "set": {"set"}, "dict": {"dict", "Mapping"}, "frame": {"DataFrame"}, "obj": {"object"}}[v.kind]
        if isinstance(v, Td):
            return {"Timedelta", "timedelta"}
        if isinstance(v, Ts):
            return {"Timestamp", "datetime"}
        if isinstance(v, Slice):
            return {"slice"}
        if isinstance(v, Cls):
            return {"type"}
        if isinstance(v, (Clo, Bound, Fnc)):
            return {"function", "Callable", "FunctionType"}
        return None

    def external(self, n, args, kw, node, st):
        if "." not in n:
            r = self.pybuiltin(n, args, kw, node, st)
            if r is not None:
                return r
        head, _, tail = n.partition(".")
        head = {"numpy": "np", "pandas": "pd"}.get(head, head)
        if n == "callable" and args:
            v = args[0]
            if isinstance(v, (Clo, Bound, Fnc, Cls, ModRef)):
                return T
            if isinstance(v, (N, S, tuple, A)) or v is NONE or isinstance(v, Ref) and v.kind != "obj":
                return F
        if head in ("np", "math"):
            return self.npcall(tail, args, kw, node, st)
        if head == "pd":
            return self.pdcall(tail, args, kw, node, st)
        if n == "inspect.signature" and args:
            v = args[0]
            f = v.f if isinstance(v, Bound) else v.node if isinstance(v, (Fnc, Clo)) else None
            return Sig(f) if f is not None else self.nope(n, node)
        if n in ("importlib.import_module", "__import__") and isinstance(args[0], S):
            return ModRef(str(args[0]))
        if n in ("copy.copy", "copy.deepcopy") and args:
            return self.copyv(args[0], st)
        if n in ("numba.typed.List", "NumbaList", "typed.List"):
            return args[0] if args else self.plist(st, [])
        if n in ("functools.reduce", "reduce"):
            xs = self.iter_(args[1], st)
            if xs is not None:
                acc = args[2] if len(args) > 2 else xs[0]
                for x in (xs if len(args) > 2 else xs[1:]):
                    acc = self.call(args[0], [acc, x], {}, node, st)
                return acc
        if n.startswith("operator."):
            op = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "pow": ast.Pow}.get(n.split(".")[1])
            if op and len(args) == 2:
                return self.binop(op(), args[0], args[1], st)
        if n in ("dict.fromkeys",):
            xs = self.iter_(args[0], st)
            if xs is not None:
                s = self.mkset(xs, st)
                return self.rec(st, "dict", d={x: (args[1] if len(args) > 1 else NONE) for x in self.items(s, st)})
        if n in ("dt.time", "datetime.time") and len(args) <= 4 and not kw and all(isinstance(x, N) for x in args):
            t = ZERO
            for x, u in zip(args, (3600 * 10 ** 9, 60 * 10 ** 9, 10 ** 9, 1000)):
                t = add(t, mul(num(x), C(u)))
            return Td(t)
        if n in ("os.makedirs", "os.remove", "multiprocessing.set_start_method", "mp.set_start_method"):
            return NONE
        if n in ("os.path.abspath", "os.path.dirname", "os.path.expanduser", "os.path.realpath") and isinstance(a0_ := args[0], S):
            return a0_
        if n.endswith(".cpu_count"):
            return par("cpus", True)
        if n.split(".")[-1] in ("ProcessPoolExecutor", "ThreadPoolExecutor", "Pool"):
            return self.rec(st, "pool", d={})
        if n.split(".")[-1] == "as_completed" and args:
            xs = self.iter_(args[0], st)          # completion order is not the order of submission
            if xs is not None:
                return self.plist(st, list(xs)[::-1])
        if n == "tqdm" or n.endswith("tqdm.tqdm"):
            return args[0] if args else self.nope(n, node)
        if n in ("time.time", "time.perf_counter"):
            return par("time()")
        if n.endswith("stats.kurtosis") and args and isinstance(args[0], A) and set(kw) <= {"nan_policy"}:
            return self.pdop("kurtosis", [A(args[0].aid, args[0].off, args[0].ln)], st)
        if n.endswith("stats.linregress") and len(args) == 2 and all(isinstance(x, A) for x in args) and not kw:
            v = self.pdop("slope", [A(x.aid, x.off, x.ln) for x in args], st)
            return (v,) + tuple(unk("linregress", i) for i in range(4))
        if n.endswith("Error") or n.endswith("Exception"):
            return NONE
        return self.nope("call " + n, node)

    def copyv(self, v, st):
        if isinstance(v, Ref):
            r = st.heap[v.aid]
            return self.rec(st, r.kind, r.cls, dict(r.d), r.ln, r.ix)
        return v

    def pybuiltin(self, n, args, kw, node, st):
        a0 = args[0] if args else None
        if n == "isinstance":
            return self.csimp(self.isinst(a0, args[1], st), st)
        if n == "issubclass" and isinstance(a0, Cls) and isinstance(args[1], Cls):
            return T if args[1].node in self.repo.mro(a0.node) else F
        if n in ("hasattr", "getattr"):
            if not isinstance(args[1], S) or any(map(ishole, args[1])):
                return self.nope(n, node)
            try:
                v = self.getattr_(a0, str(args[1]), st, node)
            except PyExc:
                if n == "hasattr":
                    return F
                if len(args) > 2:
                    return args[2]
                raise
            if isinstance(v, Meth) and isinstance(a0, (Ref, N, S, tuple)) and n == "hasattr":
                return F if isinstance(a0, Ref) and a0.kind == "obj" else mk("bfn", "unk", unk("hasattr"))
            if n == "hasattr":
                return T if not (isinstance(v, N) and v.h == "unk") else mk("bfn", "unk", v)
            return v
        if n == "setattr" and isinstance(a0, Ref) and a0.kind == "obj" and isinstance(args[1], S):
            self.setattrv(a0, str(args[1]), args[2], st)
            return NONE
        if n == "len":
            xs = self.items(a0, st) if not isinstance(a0, A) else None
            if xs is not None:
                return C(len(xs)) if not isinstance(a0, S) or not any(map(ishole, a0)) else self.nope("len", node)
            if isinstance(a0, Ref) and a0.kind == "frame":
                r = st.heap[a0.aid]
                return r.ln if r.ln is not None else self.nope("len", node)
            if isinstance(a0, Ref) and a0.kind == "obj":
                m = self.findm(st.heap[a0.aid].cls, "__len__")
                if m is not None:
                    return self.callf(m, m._cls, [a0], {}, st)
            if isinstance(a0, A):
                b = st.heap[a0.aid]
                return b.ln if b.islist and a0.off is ZERO else a0.ln
            return self.nope("len", node)
        if n == "str":
            if not args:
                return S("")
            t = self.fmt(a0, "", None, st)
            return S(t) if t is not None else unk("str")
        if n == "repr":
            t = self.fmt(a0, "", None, st)
            return S(repr(t) if isinstance(a0, S) else t) if t is not None else unk("repr")
        if n in ("int", "float") and args and isinstance(a0, S):
            t = str(a0)
            if len(t) == 1 and ishole(t):
                v, f = Holes.get(t)
                if isinstance(v, N) and not f:
                    if n == "int" and not isint(v):
                        raise PyExc("ValueError int")
                    return v
            if any(map(ishole, t)):
                # an exact number around a hole cannot be parsed symbolically
                return self.nope(n + " of a formatted name", node)
            try:
                return C(int(t)) if n == "int" else (C(Fr(t)) if "inf" not in t and "nan" not in t else (NAN if "nan" in t else INF))
            except (ValueError, ZeroDivisionError):
                raise PyExc("ValueError " + t)
        if n in ("int", "float") and args and isinstance(a0, N):
            if a0 is NONE:
                raise PyExc("TypeError")
            return num(a0) if n == "float" or isint(num(a0)) else fn("int", num(a0))
        if n == "bool":
            return self.truth(a0, st) if args else F
        if n in ("list", "tuple", "set", "frozenset", "sorted", "reversed"):
            xs = self.iter_(a0, st) if args else ()
            if xs is None:
                if isinstance(a0, A):
                    return a0
                return self.nope(n, node)
            if n == "sorted" and kw and not set(kw) - {"key", "reverse"} and len(xs) > 1 and kw.get("reverse", F) in (T, F):
                ks = xs if kw.get("key", NONE) is NONE else [self.call(kw["key"], [x], {}, node, st) for x in xs]
                if all(isinstance(k, S) and not any(map(ishole, k)) for k in ks):
                    ks = [str(k) for k in ks]
                elif all(isinstance(k, N) and const(k) is not None for k in ks):
                    ks = [const(k) for k in ks]
                else:
                    return self.nope("sorted", node)
                order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=kw.get("reverse", F) is T)
                return self.plist(st, [xs[i] for i in order])
            if n == "sorted":
                if kw or not all(isinstance(x, S) and not any(map(ishole, x)) for x in xs):
                    if len(xs) <= 1:
                        return self.plist(st, xs)
                    return self.plist(st, xs) if not kw and all(isinstance(x, S) for x in xs) else self.nope("sorted", node)
                return self.plist(st, sorted(xs))
            if n == "reversed":
                return Iter(tuple(reversed(xs)))
            if n == "tuple":
                return tuple(xs)
            return self.plist(st, xs) if n == "list" else self.mkset(xs, st)
        if n == "dict":
            d = {}
            if args:
                if isinstance(a0, Ref) and a0.kind == "dict":
                    d.update(st.heap[a0.aid].d)
                else:
                    xs = self.iter_(a0, st)
                    if xs is None or not all(isinstance(x, tuple) and len(x) == 2 for x in xs):
                        return self.nope("dict", node)
                    d.update({self.dkey(k): v for k, v in xs})
            d.update({S(k): v for k, v in kw.items()})
            return self.rec(st, "dict", d=d)
        if n == "enumerate":
            xs = self.iter_(a0, st)
            s = int(const(kw.get("start", args[1] if len(args) > 1 else ZERO)) or 0)
            return Iter(tuple((C(i + s), x) for i, x in enumerate(xs))) if xs is not None else self.nope(n, node)
        if n == "zip":
            ys = [self.iter_(x, st) for x in args]
            return Iter(tuple(zip(*ys))) if None not in ys else self.nope(n, node)
        if n == "map":
            ys = [self.iter_(x, st) for x in args[1:]]
            return Iter(tuple(self.call(a0, list(q), {}, node, st) for q in zip(*ys))) if None not in ys else self.nope(n, node)
        if n == "range":
            ks = [const(num(x)) if isinstance(x, N) else None for x in args]
            return Iter(tuple(C(i) for i in range(*map(int, ks)))) if None not in ks else self.nope(n, node)
        if n in ("any", "all"):
            xs = self.iter_(a0, st)
            if xs is not None:
                ts = [self.truth(x, st) for x in xs]
                return self.csimp(or_(*ts) if n == "any" else and_(*ts), st) if ts else (F if n == "any" else T)
        if n == "next":
            xs = self.iter_(a0, st)
            if xs:
                return xs[0]
            if xs == () and len(args) > 1:
                return args[1]
        if n == "iter":
            return a0
        if n == "callable":
            return T if isinstance(a0, (Clo, Bound, Fnc, Cls, Meth, ModRef)) else F if a0 is NONE or isinstance(a0, (S, tuple)) else self.nope(n, node)
        if n == "type" and len(args) == 1:
            if isinstance(a0, Ref) and a0.kind == "obj":
                return Cls(st.heap[a0.aid].cls)
            k = self.pytypes(a0, st)
            if k is None:
                return self.nope("type", node)
            return TypeOf(sorted(k)[0] if len(k) > 1 and not isinstance(a0, (Ref, tuple, S)) else ("list" if "list" in k else "tuple" if "tuple" in k else "str" if "str" in k else "dict" if "dict" in k else sorted(k)[0]))
        if n == "slice":
            xs = args + [NONE] * 3
            return Slice(*(xs[:3] if len(args) > 1 else [NONE, a0, NONE]))
        if n == "abs":
            if isinstance(a0, Ref) and a0.kind == "obj":
                m = self.findm(st.heap[a0.aid].cls, "__abs__")
                return self.callf(m, m._cls, [a0], {}, st) if m is not None else self.nope(n, node)
            if isinstance(a0, Td):
                return Td(fn("abs", a0.ns))
            return self.scalar(lambda x: fn("abs", num(x)), args, st)
        if n == "round" and len(args) == 1:
            return self.scalar(lambda x: fn("round", num(x)), args, st)
        if n in ("max", "min"):
            xs = self.iter_(a0, st) if len(args) == 1 and not isinstance(a0, A) else args if len(args) > 1 else None
            if xs is not None and len(xs) == 2 and all(isinstance(x, (Td, Ts, N)) and x is not NONE for x in xs):
                q = [x if isinstance(x, N) else x.ns for x in xs]
                if not any(isbool(x) or x.h == "unk" for x in q):
                    c = self.csimp(cmp("<=", q[0], q[1]), st)
                    if c is T or c is F:
                        return xs[0] if (c is T) == (n == "min") else xs[1]
            if xs is not None and xs and all(isinstance(x, (Td, Ts)) for x in xs):
                r = ext(n, *[x.ns for x in xs])
                return type(xs[0])(r)
            if xs is not None and all(isinstance(x, N) for x in xs) and xs:
                return self.lift(lambda *q: ext(n, *[num(y) for y in q]), list(xs)) if len(xs) > 1 else xs[0]
            if len(args) == 1 and isinstance(a0, A):
                return self.reduce(n, a0, st)
            return self.nope(n, node)
        if n == "sum":
            xs = self.iter_(a0, st)
            if xs is not None:
                acc = args[1] if len(args) > 1 else ZERO
                for x in xs:
                    acc = self.binop(ast.Add(), acc, x, st)
                return acc
            if isinstance(a0, A):
                return self.reduce("sum", a0, st)
        if n in ("object",):
            return self.rec(st, "obj", cls=None)
        if n in ("ValueError", "TypeError", "KeyError", "Exception", "RuntimeError", "NotImplementedError"):
            return NONE
        if n == "open":
            return Ext("open", tuple(args))
        if n == "NumbaList":
            return args[0] if args else self.plist(st, [])
        return None

    def npcall(self, n, args, kw, node, st):
        a = []
        for x in args:
            if isinstance(x, Ref) and x.kind == "list":
                xs = self.items(x, st)
                x = tuple(xs) if xs is not None else x
            if isinstance(x, Ext):
                return Ext("np." + n, tuple(args))
            a.append(x)
        if n in ("int8", "int32", "int64", "float64", "float32", "bool_", "uint8") and a and not isinstance(a[0], N):
            pass
        kw2 = {k: v for k, v in kw.items()}
        if n in ("array", "asarray") and a and isinstance(a[0], A) and type(a[0]) is not A:
            x = a[0]
            return A(x.aid, x.off, x.ln)
        if n in ("array", "asarray") and a and isinstance(a[0], A) and isinstance(st.heap[a[0].aid], Body) and st.heap[a[0].aid].arr is not None:
            self.aid += 1
            st.heap[self.aid] = st.heap[a[0].aid]
            return A(self.aid, a[0].off, a[0].ln)
        if n in ("array", "asarray") and a and isinstance(a[0], tuple) and a[0] and not all(isinstance(x, N) for x in a[0]):
            return Ext("np.array", tuple(a))
        if n in ("array", "asarray") and a and isinstance(a[0], tuple) and a[0] and n == "asarray":
            n = "array"
        if n in ("where", "nonzero", "flatnonzero") and len(a) == 1 and not kw and isinstance(a[0], A) and isinstance(st.heap[a[0].aid], Body) and st.heap[a[0].aid].e is not None:
            x = st.heap[a[0].aid]
            j, j2, k = freshix(), freshix(), freshix()
            g = subst(x.e, {x.var: add(a[0].off, j)})
            g = g if isbool(g) else cmp("!=", num(g), ZERO)
            v = self.new(st, red("sum", a[0].ln, j2, ite(subst(g, {j: j2}), ONE, ZERO)), X.filt(a[0].ln, j, g, j, k), k)
            return v if n == "flatnonzero" else (v,)
        if n == "polyfit" and len(a) == 3 and a[2] is ONE and all(isinstance(x, A) for x in a[:2]) and not kw:
            return (self.pdop("slope", [A(x.aid, x.off, x.ln) for x in a[:2]], st), unk("polyfit", 1))
        if n == "isscalar" and a:
            return T if isinstance(a[0], (N, S)) else F
        if n == "ndim" and a:
            return ONE if isinstance(a[0], A) else ZERO
        if n in ("max", "min", "amax", "amin") and a and isinstance(a[0], tuple):
            a = [self.npcall("array", [a[0]], {}, node, st)]
        if n in ("log", "exp", "sqrt", "abs", "sign", "isnan", "log1p", "square", "maximum", "minimum", "where", "clip", "add", "subtract", "multiply", "divide"):
            if n == "clip" and len(a) == 1:
                a = a + [kw.get("a_min", kw.get("min", NONE)), kw.get("a_max", kw.get("max", NONE))]
            if n == "clip" and len(a) == 3 and (a[1] is NONE or a[2] is NONE):
                v = a[0]
                if a[1] is not NONE:
                    v = self.scalar(lambda x, l: nanprop([x], ext("max", num(x), num(l))), [v, a[1]], st)
                if a[2] is not NONE:
                    v = self.scalar(lambda x, l: nanprop([x], ext("min", num(x), num(l))), [v, a[2]], st)
                return v
            r = Summ.numpy(self, n, a, kw2, node, st)
            if n == "where" and isinstance(r, Ser):
                return A(r.aid, r.off, r.ln)
            return r
        a = [A(x.aid, x.off, x.ln) if isinstance(x, (Ser, Idx)) else x for x in a]
        if n == "var" and a and isinstance(a[0], A) or n == "std" and a and isinstance(a[0], A):
            pass
        r = Summ.numpy(self, n, a, kw2, node, st)
        if isinstance(r, N) and r.h == "unk":
            self.nope("np." + n, node)
        return r

    # ------------------------------------------------------------ pandas
    def tdval(self, args, kw, node):
        UN = {"s": 10 ** 9, "seconds": 10 ** 9, "S": 10 ** 9, "second": 10 ** 9, "ms": 10 ** 6, "milliseconds": 10 ** 6, "us": 1000, "microseconds": 1000, "ns": 1, "nanoseconds": 1,
              "min": 60 * 10 ** 9, "minutes": 60 * 10 ** 9, "m": 60 * 10 ** 9, "T": 60 * 10 ** 9, "h": 3600 * 10 ** 9, "hours": 3600 * 10 ** 9, "days": 86400 * 10 ** 9, "D": 86400 * 10 ** 9, "d": 86400 * 10 ** 9}
        tot = None
        if args:
            v = args[0]
            if isinstance(v, Td):
                return v
            u = kw.get("unit", args[1] if len(args) > 1 else S("ns"))
            if isinstance(v, N) and isinstance(u, S) and str(u) in UN:
                tot = mul(num(v), C(UN[str(u)]))
            elif isinstance(v, S):
                m = re.fullmatch(r"([0-9.]+)\s*([a-zA-Z]+)", str(v))
                if m and m[2] in UN:
                    tot = C(Fr(m[1]) * UN[m[2]])
        for k, v in kw.items():
            if k in UN and isinstance(v, N):
                x = mul(num(v), C(UN[k]))
                tot = x if tot is None else add(tot, x)
        return Td(tot) if tot is not None else self.nope("Timedelta", node)

    def unit(self, v):
        """length of a frequency such as 5min, h or 1D"""
        if isinstance(v, Td):
            return v
        if isinstance(v, S):
            t = str(v).strip()
            t = "1" + t if t[:1].isalpha() else t
            t = re.sub("H$", "h", re.sub("S$", "s", t))
            n = len(self.unknown)
            u = self.tdval([S(t)], {}, None)
            if isinstance(u, Td):
                return u
            del self.unknown[n:]
        return None

    def mkser(self, v, st, name=NONE, index=None):
        if isinstance(v, A):
            return Ser(v.aid, v.off, v.ln, name, getattr(v, "dt", None))
        ln = index.ln if isinstance(index, A) else index.base.ln if isinstance(index, View) and isinstance(index.base, A) else None
        if isinstance(v, N) and ln is not None:
            k = freshix()
            x = self.new(st, ln, v, k)
            return Ser(x.aid, x.off, x.ln, name)
        xs = self.items(v, st) if not isinstance(v, A) else None
        if xs and all(isinstance(x, N) for x in xs):
            x = Summ.numpy(self, "array", [tuple(xs)], {}, None, st)
            if isinstance(x, A):
                return Ser(x.aid, x.off, x.ln, name)
        return None

    def pdcall(self, n, args, kw, node, st):
        a0 = args[0] if args else None
        if n == "Timedelta":
            return self.tdval(args, kw, node)
        if n == "Timestamp":
            if isinstance(a0, N):
                u = self.tdval([ONE], {"unit": kw.get("unit", S("ns"))}, node)
                return Ts(mul(num(a0), u.ns)) if isinstance(u, Td) else u
            return a0 if isinstance(a0, Ts) else self.nope("Timestamp", node)
        if n == "Series":
            v = kw.get("data", a0)
            if isinstance(v, Ref) and v.kind == "dict":
                return self.copyv(v, st)
            r = self.mkser(v, st, kw.get("name", args[3] if len(args) > 3 else NONE), kw.get("index", args[1] if len(args) > 1 else None)) if v is not None else None
            return r if r is not None else self.nope("Series", node)
        if n == "HDFStore":
            from . import ohdf
            return ohdf.open_(self, args, kw, node, st)
        if n == "Grouper" and not args and not set(kw) - {"freq", "closed", "label"} and "freq" in kw:
            return Ext("pd.Grouper", (kw["freq"], kw.get("closed", NONE), kw.get("label", NONE)))
        if n == "DataFrame":
            return self.mkframe(kw.get("data", a0), kw.get("index", args[1] if len(args) > 1 else None), kw.get("columns", args[2] if len(args) > 2 else None), node, st)
        if n == "to_datetime":
            u = kw.get("unit", S("ns"))
            if isinstance(a0, A):
                t = self.tdval([ONE], {"unit": u}, node)
                if not isinstance(t, Td):
                    return t
                v = a0 if const(t.ns) == 1 else self.elementwise(lambda x: mul(num(x), t.ns), [a0], st)
                return Idx(v.aid, v.off, v.ln) if not isinstance(a0, Ser) else Ser(v.aid, v.off, v.ln, a0.name, "dt")
            if isinstance(a0, Ts):
                return a0
            if isinstance(a0, N):
                t = self.tdval([ONE], {"unit": u}, node)
                return Ts(mul(num(a0), t.ns)) if isinstance(t, Td) else t
            return self.nope("to_datetime", node)
        if n in ("isna", "isnull", "notna", "notnull"):
            if a0 is NONE:
                return T if n.startswith("is") else F
            return self.scalar(lambda x: isnan(num(x)) if n.startswith("is") else not_(isnan(num(x))), [a0], st)
        if n == "DatetimeIndex" and isinstance(a0, A):
            return Idx(a0.aid, a0.off, a0.ln)
        if n.startswith("api.types.is_"):
            if "datetime64" in n:
                return T if isinstance(a0, Idx) or isinstance(a0, Ser) and a0.dt == "dt" else F
            if isinstance(a0, A) and st.heap[a0.aid].e is not None:
                e = st.heap[a0.aid].e
                if n.endswith("integer_dtype"):
                    return T if isint(e) else F
                if n.endswith("numeric_dtype"):
                    return T
                if n.endswith("float_dtype"):
                    return F if isint(e) else T
                if n.endswith("bool_dtype"):
                    return T if isbool(e) else F
            return mk("bfn", "unk", unk(n))
        if n == "concat":
            xs = self.iter_(a0, st)
            if xs == () or xs == []:
                raise PyExc("ValueError: no objects to concatenate")
            if xs and all(isinstance(x, Ref) and x.kind == "frame" for x in xs) and const(kw.get("axis", ZERO)) == 0 and not set(kw) - {"axis", "copy", "ignore_index", "sort", "objs"}:
                from . import ohdf
                f = ohdf.concat(self, list(xs), st, kw.get("ignore_index") is T)
                return f if f is not None else self.nope("concat", node)
            if xs is not None and all(isinstance(x, Ref) and x.kind == "frame" or isinstance(x, Ser) for x in xs) and const(kw.get("axis", ZERO)) == 1:
                d, ln, ix = {}, None, None
                for x in xs:
                    if isinstance(x, Ser):
                        d[x.name] = x
                        ln = x.ln
                    else:
                        d.update(st.heap[x.aid].d)
                        ln, ix = st.heap[x.aid].ln, st.heap[x.aid].ix
                return self.rec(st, "frame", d=d, ln=ln, ix=ix)
        return self.nope("pd." + n, node)

    def mkframe(self, v, index, columns, node, st):
        ix = index if isinstance(index, Idx) else None
        if isinstance(index, View) and index.kind == "index":
            ix = getattr(self, "rowidx", None)
        ln = ix.ln if ix is not None else None
        if isinstance(v, Ref) and v.kind == "dict":
            d = {}
            src = st.heap[v.aid].d
            for k, x in src.items():
                if isinstance(x, A) and ln is None:
                    ln = x.ln
            r = Rec("frame", None, {}, ln, ix)
            for k, x in src.items():
                d[k] = self.column(x, r, k, st)
            return self.rec(st, "frame", d=d, ln=ln, ix=ix)
        cs = self.items(columns, st) if columns is not None and columns is not NONE else None
        if isinstance(v, A) and cs is not None and len(cs) == 1:
            return self.rec(st, "frame", d={cs[0]: Ser(v.aid, v.off, v.ln, cs[0])}, ln=v.ln, ix=ix)
        if v is None or v is NONE:
            return self.rec(st, "frame", d={}, ln=ln, ix=ix)
        if isinstance(v, Ref) and v.kind == "frame":
            return self.copyv(v, st)
        xs = self.iter_(v, st)
        if xs and ix is None and cs is None and all(isinstance(x, Ref) and x.kind == "dict" and st.heap[x.aid].ix != "open" for x in xs):
            ks = list(st.heap[xs[0].aid].d)                  # one row for each record
            if all(set(map(str, st.heap[x.aid].d)) == set(map(str, ks)) for x in xs):
                d = {}
                for k in ks:
                    vs = [next(w for q, w in st.heap[x.aid].d.items() if str(q) == str(k)) for x in xs]
                    if all(isinstance(w, N) for w in vs):
                        j = freshix()
                        e = vs[-1]
                        for i in range(len(vs) - 2, -1, -1):
                            e = ite(cmp("<=", j, C(i)), vs[i], e)
                        c = self.new(st, C(len(vs)), e, j)
                        d[k] = Ser(c.aid, c.off, c.ln, k)
                    else:
                        d[k] = vs[0] if len(vs) == 1 and isinstance(vs[0], S) else unk("column")
                return self.rec(st, "frame", d=d, ln=C(len(xs)))
        return self.nope("DataFrame", node)

    def pdop(self, name, args, st):
        """apply a definition of sa/spec/pdops.py"""
        m = self.repo.modules["sa.spec.pdops"]
        f = m.funcs[name]
        ps = [x.arg for x in f.args.args]
        v = self.native_call(f, m, dict(zip(ps, args)), st)
        return v

    def method(self, b, n, args, kw, node, st):
        if n == "object.__init__":
            return NONE
        if n == "__new__" and isinstance(b, Cls):
            return self.rec(st, "obj", cls=args[0].node if args and isinstance(args[0], Cls) else b.node)
        if isinstance(b, S):
            return self.strmeth(b, n, args, kw, node, st)
        if isinstance(b, Ref) and b.kind in ("list", "set"):
            return self.listmeth(b, n, args, kw, node, st)
        if isinstance(b, Ref) and b.kind == "dict":
            return self.dictmeth(b, n, args, kw, node, st)
        if isinstance(b, tuple):
            if n == "index":
                for i, x in enumerate(b):
                    if self.same(x, args[0], st) is T:
                        return C(i)
            if n == "count":
                return C(sum(self.same(x, args[0], st) is T for x in b))
            return self.nope("tuple." + n, node)
        if isinstance(b, Td):
            if n == "total_seconds":
                return div(b.ns, C(10 ** 9))
            return self.nope("Timedelta." + n, node)
        if isinstance(b, Ts):
            if n in ("floor", "normalize", "ceil"):
                u = Td(C(86400 * 10 ** 9)) if n == "normalize" else self.tdval([args[0] if args else kw.get("freq")], kw if args else {}, node) if args and not (isinstance(args[0], S) and str(args[0])[0].isalpha()) else \
                    self.tdval([S("1" + str(args[0]))], {}, node) if args and isinstance(args[0], S) else None
                if isinstance(u, Td):
                    q = mul(fn("floordiv", b.ns, u.ns), u.ns)
                    return Ts(q if n != "ceil" else neg(mul(fn("floordiv", neg(b.ns), u.ns), u.ns)))
            if n == "time":
                return Td(sub(b.ns, mul(fn("floordiv", b.ns, C(86400 * 10 ** 9)), C(86400 * 10 ** 9))))
            if n == "strftime" and len(args) == 1 and isinstance(args[0], S):
                f = {"Y": ("year", "04d"), "m": ("month", "02d"), "d": ("day", "02d"), "H": ("hour", "02d"), "M": ("minute", "02d"), "S": ("second", "02d")}
                parts = re.split(r"%(.)", str(args[0]))
                if all(q in f for q in parts[1::2]):
                    return S("".join(q if i % 2 == 0 else Holes.of(mk("fn", f[q][0], num(b.ns)), f[q][1]) for i, q in enumerate(parts)))
            if n in ("isoformat", "__str__"):
                return S(Holes.of(b, ""))
            if n == "to_pydatetime" or n == "tz_localize" and args and args[0] is NONE:
                return b
            return self.nope("Timestamp." + n, node)
        if isinstance(b, Ref) and b.kind == "frame":
            return self.framemeth(b, n, args, kw, node, st)
        if isinstance(b, Ref) and b.kind in ("store", "storer"):
            from . import ohdf
            return ohdf.method(self, b, n, args, kw, node, st)
        if isinstance(b, Ref) and b.kind == "pool":
            if n == "submit" and args:
                try:
                    return self.rec(st, "future", d={"value": self.call(args[0], args[1:], kw, node, st)})
                except PyExc as x:
                    return self.rec(st, "future", d={"error": x})
            if n in ("map", "starmap", "imap") and len(args) > 1:
                xs = self.iter_(args[1], st)
                if xs is not None and len(args) == 2:
                    return self.plist(st, [self.call(args[0], list(self.iter_(x, st)) if n == "starmap" else [x], {}, node, st) for x in xs])
            if n in ("shutdown", "close", "join", "terminate"):
                return NONE
            return self.nope("pool." + n, node)
        if isinstance(b, Ref) and b.kind == "future":
            r = st.heap[b.aid]
            if n == "result":
                if "error" in r.d:
                    raise r.d["error"]
                v = r.d["value"]
                if isinstance(v, Ref) and v.kind == "frame" and st.heap[v.aid].ln in self.nonempty:
                    st.facts = st.facts | {cmp(">=", st.heap[v.aid].ln, ONE)}
                return r.d["value"]
            if n == "exception":
                return unk("exception") if "error" in r.d else NONE
            return self.nope("future." + n, node)
        if isinstance(b, View):
            return self.viewmeth(b, n, args, kw, node, st)
        if isinstance(b, Roll):
            return self.rollmeth(b, n, args, kw, node, st)
        if type(b).__name__ == "Grp":
            from . import ogroup
            return ogroup.method(self, b, n, args, kw, node, st)
        if isinstance(b, Ser):
            return self.sermeth(b, n, args, kw, node, st)
        if isinstance(b, A):
            return self.arrmeth(b, n, args, kw, node, st)
        if isinstance(b, N):
            if n in ("item", "astype"):
                return b
            if n == "is_integer":
                k = const(b)
                if k is not None:
                    return T if k.denominator == 1 else F
                return T if isint(b) else mk("bfn", "isinteger", num(b))
            if n in ("sum", "mean", "max", "min"):
                return b
        if isinstance(b, Ext):
            return Ext("method " + n, (b,) + tuple(args))
        return self.nope("method " + n, node)

    def strmeth(self, b, n, args, kw, node, st):
        t = str(b)
        a = [str(x) if isinstance(x, S) else x for x in args]
        hole = any(map(ishole, t))
        if n in ("startswith", "endswith") and a:
            opts = [str(x) for x in self.items(args[0], st)] if not isinstance(args[0], S) else [a[0]]
            r = F
            for p in opts:
                q = t if n == "startswith" else t[::-1]
                p2 = p if n == "startswith" else p[::-1]
                if any(map(ishole, p2)):
                    if q.startswith(p2):
                        return T
                    return self.nope(n, node)
                ok = None
                for x, y in zip(p2, q):
                    if ishole(y):
                        if not re.match(r"[-+0-9.einfaN]", x):
                            ok = False
                        break
                    if x != y:
                        ok = False
                        break
                else:
                    ok = len(q) >= len(p2)
                if ok is True:
                    return T
                if ok is None:
                    r = mk("bfn", "unk", unk(n))
            return r
        if n == "split" or n == "rsplit":
            if a and isinstance(a[0], str):
                if any(map(ishole, a[0])):
                    return self.nope(n, node)
                mx = int(const(args[1])) if len(args) > 1 else int(const(kw["maxsplit"])) if "maxsplit" in kw else -1
                return self.plist(st, [S(x) for x in (t.split(a[0], mx) if n == "split" else t.rsplit(a[0], mx))])
            return self.plist(st, [S(x) for x in t.split()])
        if n == "partition" and a:
            return tuple(S(x) for x in t.partition(a[0]))
        if n == "rpartition" and a:
            return tuple(S(x) for x in t.rpartition(a[0]))
        if n == "join":
            xs = self.iter_(args[0], st)
            if xs is not None and all(isinstance(x, S) for x in xs):
                return S(t.join(str(x) for x in xs))
            return self.nope("join", node)
        if n == "replace" and len(a) >= 2 and isinstance(a[0], str) and isinstance(a[1], str):
            return S(t.replace(a[0], a[1]))
        if n in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize") and (not hole or n in ("lower", "upper", "strip")):
            return S(getattr(t, n)(*[x for x in a if isinstance(x, str)]))
        if n in ("removeprefix", "removesuffix") and a:
            return S(getattr(t, n)(a[0]))
        if n == "format":
            out, k = "", 0
            for lit, fld, spec, _ in __import__("string").Formatter().parse(t):
                out += lit
                if fld is not None:
                    if fld == "":
                        v, k = args[k], k + 1
                    elif fld.isdigit():
                        v = args[int(fld)]
                    elif fld in kw:
                        v = kw[fld]
                    else:
                        return self.nope("format", node)
                    x = self.fmt(v, repr(spec) if spec else "", None, st)
                    if x is None:
                        return unk("format")
                    out += x
            return S(out)
        if n in ("isdigit", "isnumeric") and not hole:
            return T if t.isdigit() else F
        if n in ("find", "index", "count") and not hole and a:
            return C(getattr(t, n)(a[0]))
        return self.nope("str." + n, node)

    def listmeth(self, b, n, args, kw, node, st):
        r = st.heap[b.aid]
        xs = r.d.get("items")
        if not isinstance(xs, tuple):
            return self.nope("list." + n, node)
        put = lambda ys: st.heap.__setitem__(b.aid, r.but(items=tuple(ys)))
        if n == "append":
            put(xs + (args[0],))
            return NONE
        if n == "add":
            put(self.items(self.mkset(xs + (args[0],), st), st))
            return NONE
        if n in ("extend", "update"):
            for q in args:
                ys = self.iter_(q, st)
                if ys is None:
                    st.heap[b.aid] = r.but(items=unk("list"))
                    return self.nope("extend", node)
                xs = xs + tuple(ys)
            put(self.items(self.mkset(xs, st), st) if b.kind == "set" else xs)
            return NONE
        if n == "pop" and b.kind == "list":
            j = int(const(args[0])) if args and const(args[0]) is not None else -1
            if not xs:
                raise PyExc("IndexError")
            ys = list(xs)
            v = ys.pop(j)
            put(ys)
            return v
        if n == "pop":
            if not xs:
                raise PyExc("KeyError")
            put(xs[1:])
            return xs[0]
        if n in ("remove", "discard"):
            put([x for x in xs if self.same(x, args[0], st) is not T])
            return NONE
        if n == "insert":
            ys = list(xs)
            ys.insert(int(const(args[0])), args[1])
            put(ys)
            return NONE
        if n == "index":
            for i, x in enumerate(xs):
                if self.same(x, args[0], st) is T:
                    return C(i)
            raise PyExc("ValueError")
        if n == "copy":
            return self.plist(st, xs, b.kind)
        if n == "reverse":
            put(reversed(xs))
            return NONE
        if n == "sort" and not kw and all(isinstance(x, S) for x in xs):
            put(sorted(xs))
            return NONE
        if n in ("union", "intersection", "difference"):
            ys = [y for q in args for y in (self.iter_(q, st) or ())]
            has = lambda v, s: any(self.same(v, y, st) is T for y in s)
            return self.mkset(list(xs) + ys if n == "union" else [x for x in xs if has(x, ys) == (n == "intersection")], st)
        if n == "count":
            return C(sum(self.same(x, args[0], st) is T for x in xs))
        if n == "clear":
            put(())
            return NONE
        return self.nope("list." + n, node)

    def dictmeth(self, b, n, args, kw, node, st):
        r = st.heap[b.aid]
        if r.ix == "open":
            return self.nope("dict", node)
        if n == "get":
            return self.dictget(r, args[0], st, node, args[1] if len(args) > 1 else NONE)
        if n == "items":
            return Iter(tuple((k, v) for k, v in r.d.items()))
        if n == "keys":
            return View(b, "keys")
        if n == "values":
            return Iter(tuple(r.d.values()))
        if n == "update":
            d = dict(r.d)
            for q in args:
                if isinstance(q, Ref) and q.kind == "dict":
                    d.update(st.heap[q.aid].d)
                else:
                    st.heap[b.aid] = Rec(r.kind, r.cls, d, None, "open")
                    return self.nope("update", node)
            d.update({S(k): v for k, v in kw.items()})
            st.heap[b.aid] = Rec(r.kind, r.cls, d, r.ln, r.ix)
            return NONE
        if n in ("setdefault", "pop"):
            k = self.dkey(args[0])
            hit = next((q for q in r.d if self.same(k, q, st) is T), None)
            if n == "pop":
                if hit is None:
                    if len(args) > 1:
                        return args[1]
                    raise PyExc("KeyError")
                d = {q: v for q, v in r.d.items() if q is not hit}
                st.heap[b.aid] = Rec(r.kind, r.cls, d, r.ln, r.ix)
                return r.d[hit]
            if hit is not None:
                return r.d[hit]
            d = dict(r.d)
            d[k] = args[1] if len(args) > 1 else NONE
            st.heap[b.aid] = Rec(r.kind, r.cls, d, r.ln, r.ix)
            return d[k]
        if n in ("copy", "to_dict"):
            return self.copyv(b, st)
        if n == "clear":
            st.heap[b.aid] = Rec(r.kind, r.cls, {}, r.ln, r.ix)
            return NONE
        return self.nope("dict." + n, node)

    def put(self, b, r, kw, st):
        """in-place or new frame"""
        if kw.get("inplace") is T:
            st.heap[b.aid] = r
            return NONE
        self.aid += 1
        st.heap[self.aid] = r
        return Ref(self.aid, "frame")

    def permuted(self, b, keys, st, kw, node):
        """rows in ascending order of the key columns: one permutation for all columns"""
        r = st.heap[b.aid]
        k = freshix()
        perm = None
        for q in reversed(keys):                  # the last key first: stable sorts compose
            c = self.framecol(b, q, st, node)
            if not isinstance(c, A) or st.heap[c.aid].e is None:
                return None
            x = st.heap[c.aid]
            j = freshix()
            at = j if perm is None else subst(perm, {k: j})
            nxt = mk("fn", "argsort", r.ln, *X._close(num(subst(x.e, {x.var: add(c.off, at)})), j), k)
            perm = nxt if perm is None else subst(perm, {k: nxt})
        return self.taken(r, lambda p: subst(perm, {k: p}), r.ln, st)

    def taken(self, r, at, ln, st, ix=True):
        d = {}
        for n, c in r.d.items():
            if isinstance(c, A) and st.heap[c.aid].e is not None:
                x = st.heap[c.aid]
                q = freshix()
                v = self.new(st, ln, subst(x.e, {x.var: add(c.off, at(q))}), q)
                d[n] = Ser(v.aid, v.off, v.ln, n, getattr(c, "dt", None))
            else:
                d[n] = unk("rows")
        i2 = None
        if isinstance(r.ix, A) and ix and st.heap[r.ix.aid].e is not None:
            x = st.heap[r.ix.aid]
            q = freshix()
            v = self.new(st, ln, subst(x.e, {x.var: add(r.ix.off, at(q))}), q)
            i2 = Idx(v.aid, v.off, v.ln)
        return Rec("frame", None, d, ln, i2)

    def framemeth(self, b, n, args, kw, node, st):
        r = st.heap[b.aid]
        if n in ("copy",):
            return self.copyv(b, st)
        if n == "sort_index" and not getattr(r.ix, "loose", False):
            return self.put(b, r, kw, st) if kw.get("inplace") is T else b
        if n == "set_index":
            k = args[0] if args else kw.get("keys")
            if isinstance(k, S):
                c = self.framecol(b, k, st, node)
                ix = Idx(c.aid, c.off, c.ln) if isinstance(c, A) else None
                d = {q: v for q, v in r.d.items() if q != k} if kw.get("drop") is not F else r.d
                return self.put(b, Rec("frame", None, d, r.ln, ix), kw, st)
            if isinstance(k, A):
                return self.put(b, Rec("frame", None, r.d, r.ln, Idx(k.aid, k.off, k.ln)), kw, st)
            return self.nope("set_index", node)
        if n == "reset_index":
            return self.put(b, Rec("frame", None, r.d, r.ln, None), kw, st)
        if n == "sort_index" and not set(kw) - {"inplace", "kind", "axis"} and not args:
            if not isinstance(r.ix, A):
                return b if r.ix is None and kw.get("inplace") is not T else self.nope("sort_index", node)
            q = Rec("frame", None, {**r.d, S("\0ix"): Ser(r.ix.aid, r.ix.off, r.ix.ln, S("\0ix"))}, r.ln, r.ix)
            self.aid += 1
            st.heap[self.aid] = q
            p = self.permuted(Ref(self.aid, "frame"), [S("\0ix")], st, kw, node)
            if p is None:
                return self.nope("sort_index", node)
            return self.put(b, Rec("frame", None, {k: v for k, v in p.d.items() if str(k) != "\0ix"}, p.ln, p.ix), kw, st)
        if n == "sort_values":
            by = kw.get("by", args[0] if args else None)
            keys = [by] if isinstance(by, S) else self.items(by, st)
            if keys is None or any(k not in ("by", "inplace", "ignore_index", "kind") for k in kw):
                return self.nope("sort_values", node)
            p = self.permuted(b, keys, st, kw, node)
            return self.put(b, p, kw, st) if p is not None else self.nope("sort_values", node)
        if n == "drop_duplicates":
            sb = kw.get("subset", args[0] if args else None)
            keys = [sb] if isinstance(sb, S) else self.items(sb, st) if sb is not None else None
            if keys is None or len(keys) != 1 or str(kw.get("keep", S("first"))) not in ("first", "last"):
                return self.nope("drop_duplicates", node)
            c = self.framecol(b, keys[0], st, node)
            if not isinstance(c, A):
                return self.nope("drop_duplicates", node)
            x = st.heap[c.aid]
            j = freshix()
            body = X._close(num(subst(x.e, {x.var: add(c.off, j)})), j)
            q = freshix()
            cnt = mk("fn", "nfirst", r.ln, *body)

            which = "lastpos" if str(kw.get("keep")) == "last" else "firstpos"
            return self.put(b, self.taken(r, lambda p: mk("fn", which, r.ln, *body, p), cnt, st), kw, st)
        if n in ("drop",):
            cs = kw.get("columns", args[0] if args else None)
            xs = [cs] if isinstance(cs, S) else self.items(cs, st)
            if xs is not None:
                return self.put(b, Rec("frame", None, {q: v for q, v in r.d.items() if q not in xs}, r.ln, r.ix), kw, st)
        if n == "rename" and "columns" in kw and isinstance(kw["columns"], Ref):
            m = st.heap[kw["columns"].aid].d
            return self.put(b, Rec("frame", None, {m.get(q, q): self.renamed(v, m.get(q, q)) for q, v in r.d.items()}, r.ln, r.ix), kw, st)
        if n == "assign":
            d = dict(r.d)
            for k, v in kw.items():
                if isinstance(v, (Clo, Bound, Fnc)):
                    v = self.call(v, [b], {}, node, st)
                d[S(k)] = self.column(v, r, S(k), st)
            return self.rec(st, "frame", d=d, ln=r.ln, ix=r.ix)
        if n == "resample":
            from . import ogroup
            return ogroup.resample(self, b, args, kw, node, st)
        if n == "groupby":
            from . import ogroup
            return ogroup.make(self, b, args, kw, node, st)
        if n == "dropna" and not set(kw) - {"subset", "inplace", "how"} and not args:
            sb = kw.get("subset")
            xs = list(r.d) if sb is None else [sb] if isinstance(sb, S) else self.items(sb, st)
            cs = [self.framecol(b, q, st, node) for q in xs] if xs is not None else None
            if cs and all(isinstance(c, A) for c in cs) and str(kw.get("how", "any")) == "any":
                m = self.elementwise(lambda *v: not_(or_(*[isnan(num(x)) for x in v])), [A(c.aid, c.off, c.ln) for c in cs], st)
                if st.heap[m.aid].e is T:
                    return self.put(b, r, kw, st)
                f = self.framefilter(b, m, st)
                return self.put(b, st.heap[f.aid], kw, st)
            return self.nope("dropna", node)
        if n == "keys":
            return View(b, "columns")
        if n == "get" and isinstance(args[0], S):
            try:
                return self.framecol(b, args[0], st, node)
            except PyExc:
                return args[1] if len(args) > 1 else NONE
        if n == "insert" and len(args) == 3 and isinstance(args[1], S):
            st.heap[b.aid] = r.but(**{args[1]: self.column(args[2], r, args[1], st)})
            return NONE
        if n == "info":
            return NONE
        return self.nope("frame." + n, node)

    def viewmeth(self, b, n, args, kw, node, st):
        if b.kind in ("columns", "keys"):
            if n in ("tolist", "to_list", "copy"):
                return self.plist(st, self.items(b, st))
            if n in ("get_loc",):
                xs = self.items(b, st)
                for i, x in enumerate(xs):
                    if self.same(x, args[0], st) is T:
                        return C(i)
        if b.kind == "dt" and isinstance(b.base, Ser):
            s = b.base
            if n == "total_seconds":
                v = self.elementwise(lambda x: div(num(x), C(10 ** 9)), [A(s.aid, s.off, s.ln)], st)
                return Ser(v.aid, v.off, v.ln, s.name) if isinstance(v, A) else v
        if b.kind == "index":
            if n == "equals":
                return T
        return self.nope(f"{b.kind}.{n}", node)

    # columns
    def cellat(self, s, st):
        x = st.heap[s.aid]
        return (lambda p: subst(x.e, {x.var: add(s.off, p)})) if x.e is not None else None

    def build(self, s, f, st, name=None):
        k = freshix()
        s2 = St(st.env, st.heap, st.facts | {cmp(">=", k, ZERO), cmp(">=", sub(s.ln, ONE), k)})
        v = self.new(st, s.ln, self.simp(f(k), s2), k)
        return Ser(v.aid, v.off, v.ln, s.name if name is None else name)

    def skip(self, s, st, kind):
        """nan-skipping reductions"""
        g = self.cellat(s, st)
        if g is None:
            return unk("reduce")
        j = freshix()
        e = num(g(j))
        nn = isnan(e)
        if kind == "count":
            return red("sum", s.ln, j, ite(nn, ZERO, ONE))
        if kind == "sum":
            return red("sum", s.ln, j, ite(nn, ZERO, e))
        if kind in ("max", "min"):
            if nn is F:
                return red(kind, s.ln, j, e)
            return red(kind, s.ln, j, ite(nn, neg(INF) if kind == "max" else INF, e))
        return unk(kind)

    def sermeth(self, s, n, args, kw, node, st):
        a0 = args[0] if args else None
        g = self.cellat(s, st)
        if g is None:
            return self.nope("column." + n, node)
        nmv = s.name
        if n in ("shift", "diff", "pct_change"):
            p = kw.get("periods", a0 if a0 is not None else ONE)
            if not isinstance(p, N) or any(k not in ("periods",) and not (k == "fill_method" and v is NONE) for k, v in kw.items()):
                return self.nope(n, node)
            p = num(p)
            ok = lambda k: and_(cmp(">=", k, p), cmp(">=", sub(s.ln, ONE), sub(k, p)))
            lag = lambda k: ite(ok(k), num(g(sub(k, p))), NAN)
            if n == "shift":
                return self.build(s, lag, st)
            if n == "diff":
                return self.build(s, lambda k: ite(ok(k), sub(num(g(k)), num(g(sub(k, p)))), NAN), st)
            return self.build(s, lambda k: ite(ok(k), sub(div(num(g(k)), num(g(sub(k, p)))), ONE), NAN), st)
        if n == "rolling":
            w = kw.get("window", a0)
            if set(kw) - {"window", "min_periods", "closed", "center"} or kw.get("center", F) is not F:
                return self.nope("rolling", node)
            return Roll(s, "rolling", {"window": w, "min_periods": kw.get("min_periods", args[1] if len(args) > 1 else NONE), "closed": kw.get("closed", NONE)})
        if n == "expanding":
            return Roll(s, "expanding", kw)
        if n == "ewm":
            if set(kw) - {"span", "adjust", "alpha", "min_periods", "ignore_na", "halflife"}:
                return self.nope("ewm", node)
            return Roll(s, "ewm", kw)
        if n in ("sum", "count", "max", "min"):
            if kw.get("skipna", T) is T:
                return self.skip(s, st, n)
            return self.reduce(n, A(s.aid, s.off, s.ln), st)
        if n == "mean":
            return div(self.skip(s, st, "sum"), self.skip(s, st, "count"))
        if n in ("std", "var"):
            dd = kw.get("ddof", a0 if a0 is not None else ONE)
            m = div(self.skip(s, st, "sum"), self.skip(s, st, "count"))
            sq = self.build(s, lambda k: power(sub(num(g(k)), m), 2), st)
            v = div(self.skip(sq, st, "sum"), sub(self.skip(s, st, "count"), num(dd)))
            return v if n == "var" else power(v, Fr(1, 2))
        if n in ("abs",):
            return self.build(s, lambda k: fn("abs", num(g(k))), st)
        if n == "duplicated" and not (set(kw) - {"keep"}):
            keep = kw.get("keep", a0 if a0 is not None else S("first"))
            keep = "none" if keep is F else str(keep)

            def dup(k):
                j = freshix()
                before = mk("bfn", "any", k, *X._close(cmp("==", num(g(j)), num(g(k))), j))
                j = freshix()
                after = mk("bfn", "any", sub(s.ln, add(k, ONE)), *X._close(cmp("==", num(g(add(add(k, ONE), j))), num(g(k))), j))
                return before if keep == "first" else after if keep == "last" else or_(before, after)
            return self.build(s, dup, st) if keep in ("first", "last", "none") else self.nope("column.duplicated", node)
        if n == "nunique" and not kw and not args:
            j = freshix()
            return mk("fn", "nfirst", s.ln, *X._close(num(g(j)), j))
        if n == "is_unique":
            j = freshix()
            return cmp("==", mk("fn", "nfirst", s.ln, *X._close(num(g(j)), j)), s.ln)
        if n == "first_valid_index":          # the column is taken to have a valid row
            ix = self.serindex(s, st)
            gx = self.cellat(ix, st) if isinstance(ix, A) else None
            if gx is None:
                return self.nope("column." + n, node)
            v = freshix()
            return Ts(num(gx(first(s.ln, v, not_(isnan(num(g(v))))))))
        if n in ("copy", "to_frame", "rename", "sort_index", "reset_index"):
            if n == "rename":
                nm = a0 if a0 is not None else kw.get("name", kw.get("index", NONE))
                return Ser(s.aid, s.off, s.ln, nm, s.dt)
            if n == "to_frame":
                nm = a0 if a0 is not None else kw.get("name", s.name)
                return self.rec(st, "frame", d={nm: Ser(s.aid, s.off, s.ln, nm)}, ln=s.ln, ix=getattr(self, "rowidx", None))
            if n == "copy":
                return self.build(s, lambda k: g(k), st)
            return s
        if n == "clip":
            lo = kw.get("lower", a0 if a0 is not None else NONE)
            hi = kw.get("upper", args[1] if len(args) > 1 else NONE)
            lo, hi = self.unmaybe(lo), self.unmaybe(hi)

            def f(k):
                x = num(g(k))
                if lo is not NONE:
                    x = ite(cmp("<", x, num(lo)), num(lo), x)
                if hi is not NONE:
                    x = ite(cmp(">", x, num(hi)), num(hi), x)
                return x
            if (lo is NONE or isinstance(lo, N)) and (hi is NONE or isinstance(hi, N)):
                return self.build(s, f, st)
            return self.nope("clip", node)
        if n in ("apply", "map", "transform"):
            k = freshix()
            h = a0 if a0 is not None else kw.get("func")
            s2 = St(dict(st.env), st.heap, st.facts | {cmp(">=", k, ZERO), cmp(">=", sub(s.ln, ONE), k)})
            v = self.call(h, [num(g(k))], {}, node, s2)
            if isinstance(v, N):
                x = self.new(st, s.ln, v, k)
                return Ser(x.aid, x.off, x.ln, s.name)
            return self.nope("apply", node)
        if n in ("isna", "isnull", "notna", "notnull"):
            return self.build(s, lambda k: isnan(num(g(k))) if n.startswith("is") else not_(isnan(num(g(k)))), st)
        if n in ("any", "all"):
            return self.reduce(n, A(s.aid, s.off, s.ln), st)
        if n == "fillna":
            v = kw.get("value", a0)
            if isinstance(v, N) and set(kw) <= {"value"}:
                return self.build(s, lambda k: ite(isnan(num(g(k))), num(v), num(g(k))), st)
        if n == "astype":
            t = ast.unparse(node.args[0]) if node.args else ""
            v = self.cast(A(s.aid, s.off, s.ln), node.args[0] if node.args else None, st)
            return Ser(v.aid, v.off, v.ln, s.name) if isinstance(v, A) else v
        if n in ("to_numpy", "tolist", "to_list", "array"):
            return A(s.aid, s.off, s.ln)
        if n == "cumsum":
            return self.build(s, lambda k: self.cum(g, k), st)
        if n in ("where", "mask"):
            c = a0
            o = args[1] if len(args) > 1 else kw.get("other", NAN)
            return self.scalar(lambda c, x, y: ite(boolify(c) if n == "where" else not_(boolify(c)), num(x), num(y)), [c, s, o], st)
        if n in ("add", "sub", "mul", "div", "truediv", "pow", "subtract", "multiply", "divide", "rsub", "rdiv", "radd", "rmul") and len(args) == 1 and not kw:
            op = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "div": ast.Div, "tru": ast.Div, "pow": ast.Pow, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div}
            r_ = n.startswith("r") and n[1:] in op
            o = op.get(n[1:] if r_ else n) or op.get(n[:3])
            return self.binop(o(), *((a0, s) if r_ else (s, a0)), st)
        if n in ("ge", "gt", "le", "lt", "eq", "ne"):
            o = {"ge": ast.GtE, "gt": ast.Gt, "le": ast.LtE, "lt": ast.Lt, "eq": ast.Eq, "ne": ast.NotEq}[n]()
            return self.compare(o, s, a0, st)
        if n == "groupby":
            from . import ogroup
            return ogroup.make(self, s, args, kw, node, st)
        if n == "round" and not args:
            return self.build(s, lambda k: fn("round", num(g(k))), st)
        if n == "pipe":
            return self.call(a0, [s] + args[1:], kw, node, st)
        if n == "item" or n == "duplicated":
            return self.nope("column." + n, node) if n == "item" else self.build(s, lambda k: unk("dup", k), st)
        return self.nope("column." + n, node)

    def cum(self, g, k):
        j = freshix()
        e = num(g(j))
        return ite(isnan(num(g(k))), NAN, red("sum", add(k, ONE), j, ite(isnan(e), ZERO, e)))

    def rollmeth(self, b, n, args, kw, node, st):
        s = b.ser
        x = A(s.aid, s.off, s.ln)

        def out(v):
            return Ser(v.aid, v.off, v.ln, s.name) if isinstance(v, A) else self.nope(f"{b.kind}.{n}", node)
        if b.kind == "rolling":
            w = b.kw["window"]
            ix = getattr(self, "rowidx", None)
            if isinstance(w, Td) and ix is not None and b.kw["closed"] in (NONE, "both", "right") and b.kw["min_periods"] in (NONE, ONE):
                c = T if b.kw["closed"] == "both" else F
                g = self.cellat(s, st)
                t = A(ix.aid, ix.off, ix.ln)
                if g is not None and not miss(g(freshix())):
                    one = self.build(s, lambda k: ONE, st)
                    sm = self.pdop("window_sum", [t, x, num(w.ns), c], st)
                    if n == "sum":
                        return out(sm)
                    cn = self.pdop("window_sum", [t, A(one.aid, one.off, one.ln), num(w.ns), c], st)
                    if n == "count":
                        return out(cn)
                    if n == "mean":
                        return out(self.elementwise(lambda p, q: div(num(p), num(q)), [sm, cn], st))
                return self.nope("rolling." + n, node)
            if not isinstance(w, N) or w is NONE or b.kw["closed"] is not NONE:
                return self.nope("rolling window", node)
            mp = b.kw["min_periods"]
            if mp is not NONE and mp is not w:
                if isinstance(mp, N) and n in ("mean", "sum", "std", "var", "min", "max"):
                    return out(self.pdop("rolling_mp_" + n, [x, num(w), num(mp)], st)) if "rolling_mp_" + n in self.repo.modules["sa.spec.pdops"].funcs else self.nope("min_periods", node)
                return self.nope("min_periods", node)
            if n in ("mean", "sum", "min", "max"):
                return out(self.pdop("rolling_" + n, [x, num(w)], st))
            if n in ("std", "var"):
                dd = kw.get("ddof", args[0] if args else ONE)
                return out(self.pdop("rolling_" + n, [x, num(w), num(dd)], st))
            if n == "corr" and args and isinstance(args[0], A):
                y = args[0]
                return out(self.pdop("rolling_corr", [x, A(y.aid, y.off, y.ln), num(w)], st))
            if n == "apply":
                return self.rollapply(s, num(w), kw.get("func", args[0] if args else None), kw.get("raw", F), node, st)
            return self.nope("rolling." + n, node)
        if b.kind == "ewm" and n == "mean":
            sp, al = b.kw.get("span"), b.kw.get("alpha")
            if isinstance(sp, N) and sp is not NONE:
                al = div(C(2), add(num(sp), ONE))
            if not isinstance(al, N) or al is NONE or b.kw.get("ignore_na", F) is not F or b.kw.get("min_periods", ZERO) not in (ZERO, ONE, NONE):
                return self.nope("ewm", node)
            adj = b.kw.get("adjust", T)
            if adj is T:
                return out(self.pdop("ewm_adjusted", [x, num(al)], st))
            if adj is F:
                return out(self.pdop("ewm_recursive", [x, num(al)], st))
            if isbool(adj):
                p = out(self.pdop("ewm_adjusted", [x, num(al)], st))
                q = out(self.pdop("ewm_recursive", [x, num(al)], st))
                return self.mergev(adj, p, q, st)
            return self.nope("ewm", node)
        return self.nope(f"{b.kind}.{n}", node)

    def rollapply(self, s, w, f, raw, node, st):
        """f over every full window without missing values"""
        g = self.cellat(s, st)
        if g is None or f is None:
            return self.nope("apply", node)
        k, j, q = freshix(), freshix(), freshix()
        lo = add(sub(k, w), ONE)
        v = self.new(st, w, g(add(lo, q)), q)
        if raw is not T:
            v = Ser(v.aid, v.off, v.ln)
        s2 = St(dict(st.env), st.heap, st.facts | {cmp(">=", k, sub(w, ONE)), cmp(">=", sub(s.ln, ONE), k), cmp(">=", w, ONE)})
        r = self.call(f, [v], {}, node, s2)
        if not isinstance(r, N) or r.h == "unk":
            return self.nope("apply", node)
        miss = isnan(num(g(add(lo, j))))
        bad = mk("bfn", "any", w, *X._close(miss, j)) if miss is not F else F
        e = ite(cmp(">=", k, sub(w, ONE)), ite(bad, NAN, num(r)) if bad is not F else num(r), NAN)
        x = self.new(st, s.ln, e, k)
        return Ser(x.aid, x.off, x.ln, s.name)

    def arrmeth(self, b, n, args, kw, node, st):
        if isinstance(b, Idx):
            if n == "to_series":
                return Ser(b.aid, b.off, b.ln, NONE, "dt")
            if n == "equals":
                o = args[0] if args else None
                if isinstance(o, Idx) and (o.aid, o.off, o.ln) != (b.aid, b.off, b.ln):
                    g, h = self.cellat(b, st), self.cellat(o, st)
                    if g is None or h is None:
                        return unk("index.equals")
                    j = freshix()
                    return and_(cmp("==", b.ln, o.ln), not_(mk("bfn", "any", b.ln, *X._close(not_(cmp("==", num(g(j)), num(h(j)))), j))))
                return T
            if n in ("tz_localize", "tz_convert", "copy", "sort_values"):
                return b
            if n in ("astype",):
                return A(b.aid, b.off, b.ln)
            if n in ("floor", "ceil", "normalize"):
                u = self.unit(args[0] if args else kw.get("freq")) if n != "normalize" else Td(C(86400 * 10 ** 9))
                if isinstance(u, Td):
                    f = lambda x: mul(fn("floordiv", x, u.ns), u.ns)
                    v = self.elementwise(lambda x: f(num(x)) if n != "ceil" else neg(f(neg(num(x)))), [A(b.aid, b.off, b.ln)], st)
                    r = Idx(v.aid, v.off, v.ln)
                    return r
            if n == "to_numpy":
                return A(b.aid, b.off, b.ln)
            if n in ("slice_locs", "slice_indexer"):
                lo, hi = kw.get("start", args[0] if args else NONE), kw.get("end", args[1] if len(args) > 1 else NONE)
                x = A(b.aid, b.off, b.ln)
                if all(q is NONE or isinstance(q, Ts) for q in (lo, hi)) and len(args) < 3 and "step" not in kw:
                    i = ZERO if lo is NONE else Summ.numpy(self, "searchsorted", [x, lo.ns], {"side": S("left")}, node, st)
                    j = b.ln if hi is NONE else Summ.numpy(self, "searchsorted", [x, hi.ns], {"side": S("right")}, node, st)
                    return (i, j) if n == "slice_locs" else Slice(i, j, NONE)
                return self.nope("index." + n, node)
            if n == "searchsorted":
                return Summ.numpy(self, "searchsorted", [A(b.aid, b.off, b.ln)] + [x.ns if isinstance(x, Ts) else x for x in args], kw, node, st)
            return self.nope("index." + n, node)
        if n in ("sum", "max", "min", "mean", "median", "std", "var", "any", "all", "argmax", "argmin", "cumsum", "dot", "round"):
            return Summ.numpy(self, n, [b] + args, kw, node, st)
        if n in ("astype", "view"):
            return self.cast(b, node.args[0] if node.args else None, st)
        if n == "copy":
            return self.elementwise(lambda x: x, [b], st)
        if n in ("ravel", "flatten", "tolist", "to_numpy"):
            return b
        if n == "append":
            self.append(b, args[0], st)
            return NONE
        return self.nope("array." + n, node)


def miss(e):
    """may the cell be missing?  Declared columns are assumed complete."""
    return isinstance(e, N) and (e is NAN or any(miss(x) for x in e.a if isinstance(x, N)))


class Iter:
    def __init__(self, xs):
        self.xs = xs


class _Val(ast.expr):
    """an already evaluated operand"""
    _fields = ()

    def __init__(self, v):
        super().__init__()
        self.v = v

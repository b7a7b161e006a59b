"""Abstract values, dependency sets and states."""
from __future__ import annotations
from .lin import Lin, L, sym, prove, infeasible

TOP = "TOP"     # definitely the whole axis
UNK = "UNK"     # unknown extent
K = "@k"
KL = sym(K)


class Dep:
    """rows lo..hi (inclusive) of input `role`; tags = guards under which it was accumulated"""
    __slots__ = ("role", "lo", "hi", "tags", "_h")

    def __init__(self, role, lo, hi, tags=frozenset()):
        self.role, self.lo, self.hi, self.tags = role, lo, hi, tags
        self._h = hash((role, lo, hi, tags))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.role == o.role and self.lo == o.lo and self.hi == o.hi and self.tags == o.tags

    def __repr__(self):
        t = "" if not self.tags else "{" + ",".join(sorted(map(str, self.tags))) + "}"
        return f"{self.role}[{self.lo}..{self.hi}]{t}"


NOD = frozenset()


def _bsub(b, m):
    return b.sub(m) if isinstance(b, Lin) else b


def dsub(deps, m):
    if not deps:
        return deps
    return frozenset(Dep(d.role, _bsub(d.lo, m), _bsub(d.hi, m), d.tags) for d in deps)


def _proj(b, s, lo, hi, up):
    if not isinstance(b, Lin):
        return b
    c = b.coef(s)
    if c == 0:
        return b
    tgt = (hi if c > 0 else lo) if up else (lo if c > 0 else hi)
    if tgt is None:
        return UNK
    return b.sub({s: tgt})


def dproj(deps, s, lo, hi):
    """union over s in [lo,hi]"""
    if not deps:
        return deps
    return frozenset(Dep(d.role, _proj(d.lo, s, lo, hi, False), _proj(d.hi, s, lo, hi, True), d.tags) for d in deps)


def dnorm(deps):
    """merge deps of one role/tags whose bounds differ by constants"""
    if len(deps) <= 1:
        return frozenset(deps)
    groups = {}
    for d in deps:
        groups.setdefault((d.role, d.tags), []).append(d)
    out = []
    for (r, t), ds in groups.items():
        if any(d.hi == TOP for d in ds) and all(d.hi == TOP or d.lo == TOP for d in ds):
            out.append(Dep(r, TOP, TOP, t))
            continue
        acc = []
        for d in ds:
            done = False
            for j, a in enumerate(acc):
                if d == a:
                    done = True
                    break
                lo = hi = None
                if isinstance(d.lo, Lin) and isinstance(a.lo, Lin):
                    df = (d.lo - a.lo).const
                    if df is not None:
                        lo = d.lo if df < 0 else a.lo
                elif d.lo == a.lo:
                    lo = d.lo
                elif UNK in (d.lo, a.lo):
                    lo = UNK
                if isinstance(d.hi, Lin) and isinstance(a.hi, Lin):
                    df = (d.hi - a.hi).const
                    if df is not None:
                        hi = d.hi if df > 0 else a.hi
                elif d.hi == a.hi:
                    hi = d.hi
                if lo is not None and hi is not None:
                    acc[j] = Dep(r, lo, hi, t)
                    done = True
                    break
            if not done:
                acc.append(d)
        if len(acc) > 14:
            his = {d.hi for d in acc}
            los = {d.lo for d in acc}
            hi = his.pop() if len(his) == 1 else (TOP if TOP in his else UNK)
            lo = los.pop() if len(los) == 1 else UNK
            acc = [Dep(r, lo, hi, t)]
        out.extend(acc)
    return frozenset(out)


def dunion(*ds):
    s = set()
    for d in ds:
        if d:
            s |= d
    return dnorm(s)


class Num:
    __slots__ = ("lin", "deps", "isint", "cond", "time", "const", "carried", "x")

    def __init__(self, lin=None, deps=NOD, isint=None, cond=None, time=None, const=None, carried=None, x=None):
        self.lin, self.deps, self.isint, self.cond, self.time, self.const, self.carried = lin, deps, isint, cond, time, const, carried
        self.x = x

    def __repr__(self):
        return f"Num({self.lin if self.lin is not None else self.const}, {set(self.deps)})"

    def w(self, **kw):
        n = Num(self.lin, self.deps, self.isint, self.cond, self.time, self.const, self.carried, self.x)
        for k, v in kw.items():
            setattr(n, k, v)
        return n


class Arr:
    __slots__ = ("bid", "off", "ln", "step", "pd", "row")

    def __init__(self, bid, off, ln, step=1, pd=None, row=None):
        self.bid, self.off, self.ln, self.step, self.pd, self.row = bid, off, ln, step, pd, row

    def same(self, o):
        return isinstance(o, Arr) and self.bid == o.bid and self.off == o.off and self.ln == o.ln and self.step == o.step

    def __repr__(self):
        return f"Arr#{self.bid}[{self.off}:+{self.ln}]" + ("pd" if self.pd else "")


class Tup:
    __slots__ = ("items", "islist")

    def __init__(self, items, islist=False):
        self.items = list(items)
        self.islist = islist

    def __repr__(self):
        return f"Tup{self.items}"


class Lst:
    """growable list living in the heap"""
    __slots__ = ("bid",)

    def __init__(self, bid):
        self.bid = bid


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s      # python str or None

    def __repr__(self):
        return f"Str({self.s})"


class NoneV:
    def __repr__(self):
        return "None"


NONE = NoneV()


class Maybe:
    """a parameter that may be None; resolved by path"""
    __slots__ = ("key", "val")

    def __init__(self, key, val):
        self.key, self.val = key, val


class Fn:
    __slots__ = ("node", "self_", "env")

    def __init__(self, node, self_=None, env=None):
        self.node, self.self_, self.env = node, self_, env


class Mod:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Cls:
    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node


class Obj:
    """instance; attributes live in heap under bid"""
    __slots__ = ("cls", "bid")

    def __init__(self, cls, bid):
        self.cls, self.bid = cls, bid


class Df:
    """pandas frame over the row axis; cols resolved lazily by name"""
    __slots__ = ("bid", "off", "ln", "pd")

    def __init__(self, bid, pd=None):
        self.bid = bid
        self.pd = pd


class Idx:
    """row index (labels) of frame/series over the row axis"""
    __slots__ = ("pd",)

    def __init__(self, pd=None):
        self.pd = pd


class Day:
    """per-day series: value for day D.  mode: 'last'|'first'|'any' of rows of day D+shift whose
    row-content offset is given by deps (in @k)"""
    __slots__ = ("deps", "mode", "shift")

    def __init__(self, deps, mode, shift):
        self.deps, self.mode, self.shift = deps, mode, shift


class Unk:
    __slots__ = ("deps", "why")

    def __init__(self, deps=NOD, why=""):
        self.deps = deps
        self.why = why

    def __repr__(self):
        return f"Unk({self.why},{set(self.deps)})"


class Piece:
    """content of cells klo..khi (None = all): deps in terms of @k"""
    __slots__ = ("klo", "khi", "deps", "_h")

    def __init__(self, klo, khi, deps):
        self.klo, self.khi, self.deps = klo, khi, deps
        self._h = hash((klo, khi, deps))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.klo == o.klo and self.khi == o.khi and self.deps == o.deps

    def __repr__(self):
        return f"<{self.klo}..{self.khi}: {set(self.deps)}>"


def _inside(p, q):
    """cells of p are among the cells of q (decided on constant differences only)"""
    if q.klo is not None and q.klo != p.klo:
        if p.klo is None:
            return False
        c = (p.klo - q.klo).const
        if c is None or c < 0:
            return False
    if q.khi is not None and q.khi != p.khi:
        if p.khi is None:
            return False
        c = (q.khi - p.khi).const
        if c is None or c < 0:
            return False
    return True


def _dsub_of(d, ds):
    """dep d is covered by some dep of ds"""
    if d in ds:
        return True
    for e in ds:
        if e.role != d.role or e.tags != d.tags:
            continue
        lo = e.lo == d.lo or e.lo in (UNK, TOP) or (isinstance(e.lo, Lin) and isinstance(d.lo, Lin) and (d.lo - e.lo).const is not None and (d.lo - e.lo).const >= 0)
        hi = e.hi == d.hi or (isinstance(e.hi, Lin) and isinstance(d.hi, Lin) and (e.hi - d.hi).const is not None and (e.hi - d.hi).const >= 0)
        if lo and hi:
            return True
    return False


def merge_pieces(ps):
    d = {}
    for p in ps:
        d.setdefault((p.klo, p.khi), set()).update(p.deps)
    out = [Piece(a, b, dnorm(s)) for (a, b), s in d.items()]
    if len(out) > 1:
        keep = []
        for i, p in enumerate(out):
            sub = False
            for j, q in enumerate(out):
                if i != j and _inside(p, q) and all(_dsub_of(x, q.deps) for x in p.deps):
                    if _inside(q, p) and len(p.deps) == len(q.deps) and i < j:
                        continue
                    sub = True
                    break
            if not sub:
                keep.append(p)
        out = keep
    return tuple(out)


def widen_deps(new, old):
    """lower bounds that keep receding between rounds are given up (UNK); upper bounds are kept"""
    if not old or not new or new == old:
        return new
    out = set()
    for d in new:
        if isinstance(d.lo, Lin) and d not in old:
            for e in old:
                if e.role == d.role and e.tags == d.tags and isinstance(e.lo, Lin) and e.lo != d.lo:
                    c = (d.lo - e.lo).const
                    if c is not None and c < 0:
                        d = Dep(d.role, UNK, d.hi, d.tags)
                        break
        out.add(d)
    return dnorm(out)


def widen_pieces(new, old):
    od = {}
    for p in old:
        od.setdefault((p.klo, p.khi), set()).update(p.deps)
    return merge_pieces([Piece(p.klo, p.khi, widen_deps(p.deps, od.get((p.klo, p.khi), NOD))) for p in new])


class ArrS:
    """heap record of an array"""
    __slots__ = ("ln", "pieces", "cover", "mayunk", "role", "param", "dtype", "evt", "line", "fn", "kind", "depth", "mono", "alias", "fill")

    def __init__(self, ln, pieces=(), cover=None, mayunk=False, role=None, param=False, dtype=None, evt=(), line=0, fn="",
                 kind="arr", mono=False, fill=None):
        self.ln, self.pieces, self.cover, self.mayunk, self.role, self.param, self.dtype = ln, pieces, cover, mayunk, role, param, dtype
        self.evt, self.line, self.fn, self.kind, self.mono = evt, line, fn, kind, mono
        self.alias = None
        self.depth = 0
        self.fill = fill

    def w(self, **kw):
        n = ArrS(self.ln, self.pieces, self.cover, self.mayunk, self.role, self.param, self.dtype, self.evt, self.line, self.fn,
                 self.kind, self.mono, self.fill)
        n.depth = self.depth
        n.alias = self.alias
        for k, v in kw.items():
            setattr(n, k, v)
        return n


class State:
    __slots__ = ("env", "heap", "facts", "ctl", "decided", "opaque", "guards", "guarded")

    def __init__(self, env=None, heap=None, facts=(), ctl=NOD, decided=None, opaque=frozenset(), guards=frozenset()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts
        self.ctl = ctl
        self.decided = decided or {}
        self.opaque = opaque
        self.guards = guards

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.facts, self.ctl, dict(self.decided), self.opaque, self.guards)

    def add(self, *fs):
        new = [f for f in fs if f.k or f.c < 0]
        new = [f for f in new if f not in self.facts]
        if new:
            self.facts = self.facts + tuple(new)
        return self

    def dead(self):
        return infeasible(self.facts)


def vdeps(v, st=None):
    """all deps of a scalar-ish value"""
    if isinstance(v, (Num, Unk)):
        return v.deps
    if isinstance(v, Tup):
        return dunion(*[vdeps(x, st) for x in v.items])
    if isinstance(v, Arr) and st is not None:
        a = st.heap.get(v.bid)
        if a is not None:
            return proj_all(a, v, st)
    if isinstance(v, Lst) and st is not None:
        a = st.heap.get(v.bid)
        if a is not None:
            return dunion(*[p.deps for p in a.pieces])
    if isinstance(v, Maybe):
        return vdeps(v.val, st)
    if isinstance(v, Df):
        return frozenset([Dep("*frame", TOP, TOP)])
    if isinstance(v, Day):
        return frozenset(Dep(d.role, UNK, UNK) for d in v.deps)
    if hasattr(v, "base") and hasattr(v, "par"):
        return frozenset(Dep(d.role, UNK, UNK) for d in vdeps(v.base, st))
    if hasattr(v, "row") and not isinstance(v, Arr):
        return frozenset([Dep("ts", v.row, v.row)])
    return NOD


def proj_all(a, v, st):
    """deps of all cells of view v of heap array a"""
    out = set()
    if v.ln is None:
        lo, hi = v.off if v.off is not None else L(0), (a.ln - 1 if isinstance(a.ln, Lin) else None)
    else:
        lo = v.off
        hi = (v.off + (v.ln - 1)) if v.step == 1 else None
        if v.step == -1:
            lo, hi = v.off - (v.ln - 1), v.off
    for p in a.pieces:
        klo = p.klo if p.klo is not None else lo
        khi = p.khi if p.khi is not None else hi
        if p.klo is not None and lo is not None and prove(st.facts, lo - p.klo):
            klo = lo
        if p.khi is not None and hi is not None:
            if prove(st.facts, p.khi - hi):
                khi = hi
        if hi is not None and klo is not None and prove(st.facts, klo - hi - 1):
            continue
        if khi is not None and lo is not None and prove(st.facts, lo - khi - 1):
            continue
        ds = dproj(p.deps, K, klo, khi)
        out |= ds
    return dnorm(out)


def blur(a, v, st):
    """deps of an unspecified cell of view v: row-aligned content becomes unknown, row-independent content is kept"""
    full = proj_all(a, v, st)
    fixed = set()
    for p in a.pieces:
        for d in p.deps:
            if not any(isinstance(l, Lin) and K in l.syms() for l in (d.lo, d.hi)):
                fixed.add(d)
    ok = a.role is None or True
    # a view that is itself a bounded window: its rows bound any of its cells
    if isinstance(v, Arr) and v.off is not None and v.ln is not None and not (v.off == L(0) and isinstance(a.ln, Lin) and v.ln == a.ln):
        return full
    return frozenset(d if d in fixed else Dep(d.role, UNK, UNK, d.tags) for d in full)

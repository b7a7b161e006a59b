"""Canonical expressions: polynomials over atoms, guarded values and reductions, compared structurally."""
from __future__ import annotations
import math
from fractions import Fraction as Fr
from hashlib import md5

_tab = {}
FLAGS = {"unk": 1, "ite": 2, "max": 2, "min": 2, "prelen": 4, "filt": 8, "pre": 16, "prearr": 16, "and": 32, "or": 32}


class N:
    __slots__ = ("h", "a", "key", "_hash", "fs", "d", "fl", "fb")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key


_cnt = [0]
_LVL = {"red": 3, "fold": 3, "vfold": 3, "wfold": 3, "first": 2, "filt": 2, "lam": 2}
_FLVL = {"any": 3, "searchsorted": 4, "argsort": 3, "unique": 3, "nunique": 3, "nfirst": 3, "firstpos": 3, "lastpos": 3}


def _fb(x):
    if isinstance(x, N):
        return x.fb
    if isinstance(x, tuple):
        return frozenset().union(*[_fb(y) for y in x])
    return frozenset()


def _free(h, a):
    """free binder levels of a binder node: its level is bound in its body only"""
    p = _LVL[h] if h in _LVL else _FLVL[a[0]] if h in ("fn", "bfn") and a[0] in _FLVL else None
    if h == "app":
        r = frozenset()
        for t in a:
            for g in t if isinstance(t, tuple) else (t,):
                if isinstance(g, tuple) and len(g) == 4 and isinstance(g[3], int):
                    r |= _fb(g[:2]) | _fb(g[2]) - {g[3]}
                else:
                    r |= _fb(g)
        return r
    if p is None:
        return _fb(a)
    return _fb(a[:p - 1]) | _fb(a[p - 1]) - {a[p]} | _fb(a[p + 1:])


def mk(h, *a):
    k = (h, a)
    n = _tab.get(k)
    if n is None:
        n = N()
        n.h, n.a = h, a
        n._hash = hash(k)
        fs, d, fl, fb = frozenset(), 0, 0, frozenset()
        ks = []

        def walk(x):
            nonlocal fs, d, fl, fb
            if isinstance(x, N):
                fs |= x.fs
                fl |= x.fl
                fb |= x.fb
                d = max(d, x.d)
                ks.append(x.key)
            elif isinstance(x, tuple):
                ks.append("(")
                for y in x:
                    walk(y)
                ks.append(")")
            else:
                ks.append(str(x))
        for x in a:
            walk(x)
        if h in ("ix", "pre", "prearr", "prelen"):
            fs |= {n}
        n.fs = fs            # free index / carried symbols
        if h in ("bv", "self"):
            d = max(d, a[0])
            fb |= {a[0]}
        elif fb:
            fb = _free(h, a)
        n.d = d
        n.fb = fb            # free binder levels
        n.fl = fl | FLAGS.get(h, 0)
        n.key = h + "<" + md5(",".join(ks).encode()).hexdigest()
        _tab[k] = n
    return n


def C(x):
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else neg(INF)
    return mk("c", Fr(x))


NAN = mk("nan")
INF = mk("inf")
T, F = mk("T"), mk("F")
ZERO, ONE = C(0), C(1)


_un = [0]


def unk(why="", *at):
    """an unknown value; each occurrence is its own symbol, indexed by the positions it was read at"""
    _un[0] += 1
    return mk("unk", str(why), _un[0], *at)


def stamp(e, *ix):
    """index the unknowns of e by loop positions"""
    if not e.fl & 1:
        return e

    def f(x, go):
        if x.h == "unk":
            return mk("unk", *x.a, *[i for i in ix if i not in x.a])
        return None
    return rewrite(e, f, 1)



def isunk(e):
    return bool(e.fl & 1)


def par(name, isint=False):
    return mk("par", name, isint)


INTROLES = set()
DOMAIN = {}        # role -> tuple of possible values


def el(role, idx):
    return mk("el", role, idx)


def const(e):
    return e.a[0] if e.h == "c" else None


# ---------------------------------------------------------------- polynomials
def terms(e):
    if e.h == "+":
        return dict(e.a[0])
    if e.h == "c":
        return {(): e.a[0]} if e.a[0] else {}
    return {((e, Fr(1)),): Fr(1)}


def build(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("c", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("+", tuple(sorted(d.items(), key=lambda t: (len(t[0]), [(a.key, p) for a, p in t[0]]))))


def add(*es):
    d = {}
    for e in es:
        if e.h == "unk":
            return unk("sum") if len(es) > 1 else e
        if e.h == "nan":
            return NAN
        if e.h == "ite" and len(es) == 2 and False:
            pass
        for m, c in terms(e).items():
            d[m] = d.get(m, 0) + c
    return build(d)


def neg(e):
    return mul(mk("c", Fr(-1)), e)


def sub(a, b):
    return add(a, neg(b))


def mmul(m1, m2):
    p = {}
    for a, k in m1 + m2:
        p[a] = p.get(a, Fr(0)) + k
    return tuple(sorted(((a, k) for a, k in p.items() if k != 0), key=lambda t: t[0].key))


def mul(a, b):
    if a.h == "unk" or b.h == "unk":
        return unk("product")
    if a.h == "nan" or b.h == "nan":
        return NAN
    d = {}
    for m1, c1 in terms(a).items():
        for m2, c2 in terms(b).items():
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    # powers that became plain sums again must be expanded
    out = {}
    for m, c in d.items():
        big = [(x, k) for x, k in m if x.h == "+" and k > 0 and k.denominator == 1]
        if big:
            rest = tuple((x, k) for x, k in m if not (x.h == "+" and k > 0 and k.denominator == 1))
            e = build({rest: c})
            for x, k in big:
                for _ in range(int(k)):
                    e = mul(e, x)
            for m2, c2 in terms(e).items():
                out[m2] = out.get(m2, 0) + c2
        else:
            out[m] = out.get(m, 0) + c
    return build(out)


def power(e, k):
    k = Fr(k)
    if k == 1:
        return e
    if k == 0:
        return ONE
    if e.h == "nan":
        return NAN
    if e.h == "unk":
        return unk("power")
    if e.h == "c":
        if e.a[0] == 0:
            return ZERO if k > 0 else INF
        if k.denominator == 1:
            return mk("c", e.a[0] ** int(k))
        return build({((e, k),): Fr(1)})
    if e.h == "+":
        ts = e.a[0]
        if len(ts) == 1:
            (m, c), = ts
            if k.denominator == 1 or c > 0:
                r = build({tuple(sorted(((a, p * k) for a, p in m), key=lambda t: t[0].key)): Fr(1)}) if True else None
                cc = power(mk("c", c), k)
                return mul(cc, r)
        if k.denominator == 1 and k > 0:
            r = ONE
            for _ in range(int(k)):
                r = mul(r, e)
            return r
        # normalise the leading coefficient
        c = ts[0][1]
        if c != 1 and (k.denominator == 1 or c > 0):
            return mul(power(mk("c", c), k), power(build({m: x / c for m, x in ts}), k))
        return build({((e, k),): Fr(1)})
    return build({((e, k),): Fr(1)})


def div(a, b):
    return mul(a, power(b, -1))


# ---------------------------------------------------------------- integers
def isint(e):
    if e.h == "c":
        return e.a[0].denominator == 1
    if e.h in ("ix", "bv", "len", "first"):
        return True
    if e.h == "par":
        return bool(e.a[1])
    if e.h == "el":
        return e.a[0] in INTROLES
    if e.h == "+":
        return all(c.denominator == 1 and all(isint(x) and p > 0 and p.denominator == 1 for x, p in m) for m, c in e.a[0])
    if e.h == "ite":
        return isint(e.a[1]) and isint(e.a[2])
    if e.h in ("max", "min"):
        return all(isint(x) for x in e.a[0])
    if e.h == "fn":
        return e.a[0] in ("int", "round_int", "searchsorted", "floordiv", "argmax", "argmin", "len", "mod", "argsort", "nunique", "nfirst", "firstpos", "lastpos", "round", "ceil", "floor", "gcd") and (e.a[0] not in ("floordiv", "mod") or all(isint(x) for x in e.a[1:] if isinstance(x, N)))
    if e.h == "red":
        return e.a[0] in ("sum", "max", "min", "last") and isint(e.a[2])
    if e.h == "pre":
        return e.a[2] is True
    if e.h in ("vfold",):
        return all(isint(x) for x in e.a[1]) and all(isint(x) or x.h == "self" for x in e.a[2].a) and False
    return False


def domain(e):
    if e.h == "el":
        return DOMAIN.get(e.a[0])
    return None


# ---------------------------------------------------------------- conditions
def cmp(op, a, b):
    """op in > >= < <= == !="""
    if a.h == "unk" or b.h == "unk":
        return mk("bfn", "unk", unk("compare"))
    if op == "<":
        return cmp(">", b, a)
    if op == "<=":
        return cmp(">=", b, a)
    if NAN in (a, b):
        return T if op == "!=" else F
    e = sub(a, b)
    if op == "!=":
        return not_(cmp("==", a, b))
    # a small-domain atom against a constant
    ts = terms(e)
    nz = [m for m in ts if m != ()]
    if len(nz) == 1 and len(nz[0]) == 1 and nz[0][0][1] == 1 and domain(nz[0][0][0]) is not None:
        at = nz[0][0][0]
        c, k = ts[nz[0]], ts.get((), Fr(0))
        dom = domain(at)
        ok = tuple(v for v in dom if (c * v + k > 0 if op == ">" else c * v + k >= 0 if op == ">=" else c * v + k == 0))
        return T if len(ok) == len(dom) else F if not ok else mk("in", at, ok, dom)
    k = const(e)
    if k is not None:
        return T if (k > 0 if op == ">" else k >= 0 if op == ">=" else k == 0) else F
    if e == INF or (e.h == "+" and any(x.h == "inf" for m, _ in e.a[0] for x, _p in m)):
        s = [c for m, c in terms(e).items() if any(x.h == "inf" for x, _ in m)]
        return T if s[0] > 0 and op != "==" else F
    if op == "==":
        ts = list(terms(e).items())
        lead = min(ts, key=lambda t: (t[0] == (), str([(a.key, p) for a, p in t[0]])))
        if lead[1] < 0:
            e = neg(e)
        return mk("eq0", e)
    if isint(e):
        if op == ">":
            e = sub(e, ONE)
        return mk("ge0", e)
    ts = terms(e)
    if any(c.denominator != 1 for c in ts.values()) and all(p > 0 and p.denominator == 1 and isint(x) for m in ts for x, p in m):
        # whole-number quantities compared with a fraction: round the constant
        cs = [c for m, c in ts.items() if m != ()]
        g = Fr(math.gcd(*[c.numerator * (math.lcm(*[x.denominator for x in cs]) // c.denominator) for c in cs]), math.lcm(*[x.denominator for x in cs]))
        k = ts.get((), Fr(0)) / g
        low = math.floor(-k) + 1 if op == ">" else math.ceil(-k)
        return mk("ge0", sub(build({m: c / g for m, c in ts.items() if m != ()}), C(low)))
    # scale so that the leading coefficient is +-1
    c = abs(next(iter(terms(e).values())))
    if c != 1:
        e = mul(mk("c", 1 / c), e)
    return mk("gt0" if op == ">" else "gez", e)


def not_(c):
    if c is T:
        return F
    if c is F:
        return T
    if c.h == "not":
        return c.a[0]
    if c.h == "ge0":
        return mk("ge0", sub(neg(c.a[0]), ONE))
    if c.h == "gt0":
        return mk("gez", neg(c.a[0]))
    if c.h == "gez":
        return mk("gt0", neg(c.a[0]))
    if c.h == "in":
        at, ok, dom = c.a
        r = tuple(v for v in dom if v not in ok)
        return F if not r else mk("in", at, r, dom)
    if c.h == "and":
        return or_(*[not_(x) for x in c.a[0]])
    if c.h == "or":
        return and_(*[not_(x) for x in c.a[0]])
    return mk("not", c)


def _intersect(cs):
    """merge 'in' conditions on one atom; None when contradictory"""
    ins, rest = {}, []
    for c in cs:
        if c.h == "in":
            at, ok, dom = c.a
            o = ins.get(at)
            ins[at] = tuple(v for v in (o[0] if o else dom) if v in ok), dom
        else:
            rest.append(c)
    for at, (ok, dom) in ins.items():
        if not ok:
            return None
        if len(ok) < len(dom):
            rest.append(mk("in", at, ok, dom))
    return rest


def and_(*cs):
    s = []
    for c in cs:
        if c is F:
            return F
        if c is T:
            continue
        if c.h == "and":
            s += c.a[0]
        else:
            s.append(c)
    s = _intersect(s)
    if s is None:
        return F
    s = sorted(set(s))
    if any(not_(c) in s for c in s):
        return F
    # ge0 bounds: keep the strongest
    s = _strongest(s)
    if s is None:
        return F
    if not s:
        return T
    if len(s) == 1:
        return s[0]
    # absorb: a and (a or b) = a ; a and (not a or b) = a and b
    out = []
    ch = False
    for c in s:
        if c.h == "or":
            if any(x in s for x in c.a[0]):
                ch = True
                continue
            keep = [x for x in c.a[0] if not_(x) not in s]
            if len(keep) < len(c.a[0]):
                ch = True
                out.append(or_(*keep))
                continue
        out.append(c)
    if ch:
        return and_(*out)
    return mk("and", tuple(s))


def _strongest(s):
    g = [c for c in s if c.h == "ge0"]
    drop = set()
    for i, a in enumerate(g):
        for b in g:
            if a is b:
                continue
            k = const(sub(a.a[0], b.a[0]))
            if k is not None and k > 0:
                drop.add(a)          # a follows from b
            k = const(add(a.a[0], b.a[0]))
            if k is not None and k < 0:
                return None
    # e>=0 and -e>=0  ->  e==0
    out = [c for c in s if c not in drop]
    eqs = {c.a[0] for c in out if c.h == "eq0"}
    if eqs:
        for c in out:
            if c.h == "ge0":
                for e in eqs:
                    for x in (e, neg(e)):
                        k = const(sub(c.a[0], x))
                        if k is not None:
                            if k < 0:
                                return None
                            drop.add(c)
        out = [c for c in out if c not in drop]
    return sorted(out)


def or_(*cs):
    s = []
    for c in cs:
        if c is T:
            return T
        if c is F:
            continue
        if c.h == "or":
            s += c.a[0]
        else:
            s.append(c)
    s = sorted(set(s))
    if any(not_(c) in s for c in s):
        return T
    # union of 'in'
    ins, rest = {}, []
    for c in s:
        if c.h == "in":
            at, ok, dom = c.a
            ins[at] = (tuple(v for v in dom if v in ok or v in ins.get(at, ((), dom))[0]), dom)
        else:
            rest.append(c)
    for at, (ok, dom) in ins.items():
        if len(ok) == len(dom):
            return T
        rest.append(mk("in", at, ok, dom))
    s = sorted(set(rest))
    if not s:
        return F
    if len(s) == 1:
        return s[0]
    out, ch = [], False
    for c in s:
        if c.h == "and":
            if any(x in s for x in c.a[0]):
                ch = True
                continue
            keep = [x for x in c.a[0] if not_(x) not in s]
            if len(keep) < len(c.a[0]):
                ch = True
                out.append(and_(*keep))
                continue
        out.append(c)
    if ch:
        return or_(*out)
    # (a and x) or (a and not x) = a
    for i, c in enumerate(s):
        for d in s[i + 1:]:
            ca = set(c.a[0]) if c.h == "and" else {c}
            da = set(d.a[0]) if d.h == "and" else {d}
            x, y = ca - da, da - ca
            if len(x) == 1 and len(y) == 1 and not_(next(iter(x))) is next(iter(y)):
                return or_(*[z for z in s if z is not c and z is not d], and_(*(ca & da)))
    return mk("or", tuple(s))


def atoms_of(c):
    return list(c.a[0]) if c.h == "and" else [c]


def implied(c, facts):
    """True / False / None given the facts (true conditions)"""
    if c in (T, F):
        return c is T
    if c in facts:
        return True
    if not_(c) in facts:
        return False
    if c.h == "ge0":
        e = c.a[0]
        fs = [f.a[0] for f in facts if f.h == "ge0"] + [x for f in facts if f.h == "eq0" and isint(f.a[0]) for x in (f.a[0], neg(f.a[0]))]
        ne = sub(neg(e), ONE)
        for f in fs:
            k = const(sub(e, f))
            if k is not None and k >= 0:
                return True
            k = const(sub(ne, f))
            if k is not None and k >= 0:
                return False
        for i, f in enumerate(fs):
            for g in fs[i:]:
                s = add(f, g)
                k = const(sub(e, s))
                if k is not None and k >= 0:
                    return True
                k = const(sub(ne, s))
                if k is not None and k >= 0:
                    return False
    if c.h == "eq0":
        if isint(c.a[0]):
            for x in (c.a[0], neg(c.a[0])):
                if implied(mk("ge0", sub(x, ONE)), facts):
                    return False
            if implied(mk("ge0", c.a[0]), facts) and implied(mk("ge0", neg(c.a[0])), facts):
                return True
    if c.h == "in":
        for f in facts:
            if f.h == "in" and f.a[0] is c.a[0]:
                if set(f.a[1]) <= set(c.a[1]):
                    return True
                if not set(f.a[1]) & set(c.a[1]):
                    return False
    if c.h == "and":
        r = [implied(x, facts) for x in c.a[0]]
        if False in r:
            return False
        if all(x is True for x in r):
            return True
    if c.h == "or":
        r = [implied(x, facts) for x in c.a[0]]
        if True in r:
            return True
        if all(x is False for x in r):
            return False
    return None


def csimp(c, facts):
    r = implied(c, facts)
    if r is not None:
        return T if r else F
    if c.h in ("and", "or"):
        r = (and_ if c.h == "and" else or_)(*[csimp(x, facts) for x in c.a[0]])
        if r is not c:
            return T if r in facts else F if not_(r) in facts else r
    return c


# ---------------------------------------------------------------- guarded values
def ite(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    a = under(a, c, True)
    b = under(b, c, False)
    if a is b:
        return a
    if c.h == "eq0":
        # [i == x ? a : b] where b at i == x is a
        for m, k in terms(c.a[0]).items():
            if len(m) == 1 and m[0][1] == 1 and k in (1, -1) and m[0][0].h == "ix":
                x = m[0][0]
                w = sub(x, c.a[0]) if k == 1 else add(x, c.a[0])
                if x not in w.fs and subst(b, {x: w}) is a:
                    return b
    # orientation
    flip = False
    if c.h == "gez":
        flip = True
    elif c.h == "not":
        flip = True
    elif c.h == "ge0":
        e = c.a[0]
        ts = [(m, x) for m, x in terms(e).items() if m != ()]
        lead = min(ts, key=lambda t: str([(q.key, p) for q, p in t[0]]))
        flip = lead[1] < 0
    elif c.h == "in":
        at, ok, dom = c.a
        flip = (len(ok), ok) > (len(dom) - len(ok), tuple(v for v in dom if v not in ok))
    elif c.h == "or":
        flip = True
    if flip:
        c, a, b = not_(c), b, a
    # the larger / smaller of two values
    if c.h in ("gt0", "ge0"):
        d = sub(a, b)
        e = c.a[0]
        if d.h not in ("nan",):
            for s, h in ((d, "max"), (neg(d), "min")):
                if s is e:
                    return ext(h, a, b)
                k = sub(e, s)
                if c.h == "ge0" and const(k) is not None and const(k) == -1:
                    return ext(h, a, b)
    # ite(c, a, ite(c2, a, b)) = ite(c or c2, a, b)
    if b.h == "ite" and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if b.h == "ite" and b.a[2] is a:
        return ite(or_(c, not_(b.a[0])), a, b.a[1])
    if a.h == "ite" and a.a[1] is b:
        return ite(and_(c, not_(a.a[0])), a.a[2], b)
    if a.h == "ite" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    return mk("ite", c, a, b)


def under(e, c, pos):
    """simplify guarded value e knowing c (or its negation)"""
    if e.h != "ite":
        return e
    facts = frozenset(atoms_of(c)) | {c} if pos else frozenset(atoms_of(not_(c))) | {not_(c)}
    return simp(e, facts)


def simp(e, facts):
    if e.h == "ite":
        c = csimp(e.a[0], facts)
        if c is T:
            return simp(e.a[1], facts)
        if c is F:
            return simp(e.a[2], facts)
        a, b = simp(e.a[1], facts | set(atoms_of(c))), simp(e.a[2], facts | set(atoms_of(not_(c))))
        if c is e.a[0] and a is e.a[1] and b is e.a[2]:
            return e
        return ite(c, a, b)
    if e.h == "+" and any(x.h == "ite" for m, _ in e.a[0] for x, _p in m):
        r = ZERO
        for m, k in e.a[0]:
            t = mk("c", k)
            for x, p in m:
                t = mul(t, power(simp(x, facts), p))
            r = add(r, t)
        return r
    if e.h in ("max", "min"):
        return ext(e.h, *[simp(x, facts) for x in e.a[0]])
    return e


def ext(h, *xs):
    s = []
    for x in xs:
        if x.h == h:
            s += x.a[0]
        else:
            s.append(x)
    if any(x.h == "unk" for x in s):
        return unk(h)
    if NAN in s:
        s = [x for x in s if x is not NAN]
    bot = neg(INF) if h == "max" else INF
    s = sorted(set(x for x in s if x is not bot))
    if not s:
        return bot
    # constants
    cs = [x for x in s if x.h == "c"]
    if len(cs) > 1:
        k = (max if h == "max" else min)(x.a[0] for x in cs)
        s = sorted([x for x in s if x.h != "c"] + [mk("c", k)])
    # members whose difference is constant
    drop = set()
    for i, a in enumerate(s):
        for b in s[i + 1:]:
            k = const(sub(a, b))
            if k is not None:
                drop.add(b if (k > 0) == (h == "max") else a)
    s = [x for x in s if x not in drop]
    # an element that is one of the elements of a reduction of the same kind; ranges that continue each other
    ch = True
    while ch:
        ch = False
        for r in s:
            if r.h == "red" and r.a[0] == h:
                for x in s:
                    if x is r:
                        continue
                    if x is at(r, ZERO) or x is at(r, sub(r.a[1], ONE)):
                        s = [y for y in s if y is not x]
                        ch = True
                        break
                    if x is at(r, C(-1)):
                        v = freshix()
                        s = [y for y in s if y is not x and y is not r] + [red(h, add(r.a[1], ONE), v, at(r, sub(v, ONE)))]
                        ch = True
                        break
                    if x is at(r, r.a[1]):
                        v = freshix()
                        s = [y for y in s if y is not x and y is not r] + [red(h, add(r.a[1], ONE), v, at(r, v))]
                        ch = True
                        break
            if ch:
                break
    s = sorted(set(s))
    if len(s) == 1:
        return s[0]
    if h == "max" and len(s) == 2 and s[0] is neg(s[1]):
        return fn("abs", s[0])
    return mk(h, tuple(s))


def fn(name, *a):
    if any(x.h == "unk" for x in a if isinstance(x, N)):
        return unk(name)
    if any(x is NAN for x in a if isinstance(x, N)) and name not in ("isnan", "isfinite"):
        return NAN
    if name == "abs":
        x = a[0]
        if x.h == "c":
            return mk("c", abs(x.a[0]))
        ts = terms(x)
        lead = min(ts.items(), key=lambda t: str([(q.key, p) for q, p in t[0]]))
        if lead[1] < 0:
            x = neg(x)
        if x.h == "fn" and x.a[0] == "abs":
            return x
        return mk("fn", "abs", x)
    if name == "log1p":
        return mk("fn", "log", add(ONE, a[0]))
    if name in ("int", "round_int", "round", "ceil", "floor") and isint(a[0]):
        return a[0]
    if name == "int" and a[0].h == "fn" and a[0].a[0] == "round":
        return a[0]
    if name == "log" and False:
        pass
    return mk("fn", name, *a)


# ---------------------------------------------------------------- bound variables
_ix = [0]


def freshix():
    _ix[0] += 1
    return mk("ix", _ix[0])


def subst(e, m):
    """replace free symbols"""
    if not (e.fs & m.keys()):
        return e
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, N):
            return x
        if x in m:
            return m[x]
        if not (x.fs & m.keys()):
            return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r
    return go(e)


def rebuild(x, go):
    h, a = x.h, x.a
    if h == "+":
        r = ZERO
        for m, c in a[0]:
            t = mk("c", c)
            for y, p in m:
                t = mul(t, power(go(y), p))
            r = add(r, t)
        return r
    if h == "el":
        return el(a[0], go(a[1]))
    if h == "fn":
        return fn(a[0], *[go(y) for y in a[1:]])
    if h == "ite":
        c = go(a[0])
        if c is T:
            return go(a[1])
        if c is F:
            return go(a[2])
        return ite(c, go(a[1]), go(a[2]))
    if h in ("max", "min"):
        return ext(h, *[go(y) for y in a[0]])
    if h == "ge0":
        return cmp(">=", go(a[0]), ZERO)
    if h == "gt0":
        return cmp(">", go(a[0]), ZERO)
    if h == "gez":
        return cmp(">=", go(a[0]), ZERO)
    if h == "eq0":
        return cmp("==", go(a[0]), ZERO)
    if h == "in":
        y = go(a[0])
        if y.h == "c":
            return T if y.a[0] in a[1] else F
        if domain(y) is None:
            return or_(*[cmp("==", y, C(v)) for v in a[1]])
        return mk("in", y, a[1], a[2])
    if h == "and":
        return and_(*[go(y) for y in a[0]])
    if h == "or":
        return or_(*[go(y) for y in a[0]])
    if h == "not":
        return not_(go(a[0]))
    if h == "isnan":
        return isnan(go(a[0]))
    if h == "red":
        v = freshix()
        return red(a[0], go(a[1]), v, go(open_(a[2], a[3], v)), *[go(y) for y in a[4:]])
    if h == "first":
        v = freshix()
        return first(go(a[0]), v, go(open_(a[1], a[2], v)))
    if h == "lam":
        v = freshix()
        return lam(go(a[0]), v, go(open_(a[1], a[2], v)))
    if h == "fold":
        v = freshix()
        s = mk("pre", "fold", v.a[0], False)
        return fold(go(a[0]), v, s, go(a[1]), go(open_(a[2], a[3], v, s)))
    if h == "filt":
        v = freshix()
        p = open_(a[1], a[2], v)
        return filt(go(a[0]), v, go(p.a[0]), go(p.a[1]), go(a[3]))
    if h in ("vfold", "wfold"):
        m = len(a[1])
        v = freshix()
        ss = [mk("pre", "fold", v.a[0], j) for j in range(m)]
        p = open_(a[2], a[3], v, *ss)
        bodies = [go(x) for x in p.a]
        if h == "vfold":
            return vfold(go(a[0]), v, ss, [go(x) for x in a[1]], bodies, a[4])
        return wfold(v, ss, [go(x) for x in a[1]], bodies[0], bodies[1:], a[4])
    if h in ("prearr",):
        return mk(h, *[go(y) for y in a])
    return mk(h, *[go(y) for y in a])


def isnan(e):
    if e is NAN:
        return T
    if e.h == "c" or isint(e):
        return F
    if e.h == "ite":
        return or_(and_(e.a[0], isnan(e.a[1])), and_(not_(e.a[0]), isnan(e.a[2])))
    return mk("isnan", e)


def replace_atoms(e, m):
    """replace arbitrary nodes (bound variables are never captured: only whole closed nodes or bv's are replaced)"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, N):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go) if x.a and x.h not in ("c", "ix", "par", "bv", "self", "unk", "pre") else x
        return r
    return go(e)


BINDERS = {"lam", "red", "first", "fold", "filt", "vfold", "wfold"}


def rewrite(e, f, mask=~0):
    """top-down replacement: f(x, go) -> node | None; bodies of binders are opened first"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, N) or not x.fl & mask:
            return x
        r = memo.get(x)
        if r is None:
            r = f(x, go)
            if r is None:
                r = rebuild(x, go) if x.a and x.h not in ("c", "ix", "par", "bv", "self", "unk", "pre") else x
            memo[x] = r
        return r
    return go(e)


def _raw(e, m):
    """structural replacement without renormalisation across binders (used for bv <-> ix)"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, N):
            return x
        if x in m:
            return m[x]
        if x.h in ("c", "ix", "par", "bv", "self", "pre", "unk", "T", "F", "nan", "inf"):
            return x
        r = memo.get(x)
        if r is None:
            if x.h in BINDERS:
                r = mk(x.h, *[go(y) for y in x.a])
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(e)


def bsym(i, d):
    return mk("bv", d) if i == 0 else mk("self", d) if i == 1 else mk("self", d, i)


def _close(body, *vs):
    """bind the free symbols vs (index, then carried value) -> (body, level)"""
    if not any(v in body.fs for v in vs):
        return body, 0
    d = body.d + 1
    return _raw(body, {v: bsym(i, d) for i, v in enumerate(vs)}), d


def open_(body, lvl, *vs):
    if not lvl:
        return body
    return _raw(body, {bsym(i, lvl): v for i, v in enumerate(vs)})


def at(r, idx):
    """body of a reduction at one position"""
    v = freshix()
    return subst(open_(r.a[2], r.a[3], v), {v: idx})


def red(kind, ln, v, body, *rest):
    """sum | max | min | all values for v in 0..ln-1"""
    if kind == "sum":
        # linear: split terms, take out invariant factors
        if v not in body.fs:
            return ite(cmp(">", ln, ZERO), body, ZERO) if _odd(body) else mul(body, ln)
        ts = terms(body)
        if body.h == "ite" and body.a[2] is not ZERO and body.a[1] is ZERO:
            pass
        if len(ts) > 1:
            return add(*[red("sum", ln, v, build({m: c})) for m, c in ts.items()])
        (m, c), = ts.items()
        inv = tuple((a, p) for a, p in m if v not in a.fs)
        var = tuple((a, p) for a, p in m if v in a.fs)
        if inv or c != 1:
            return mul(build({inv: c}), red("sum", ln, v, build({var: Fr(1)})))
        # a guard that does not depend on the position
        if body.h == "ite" and v not in body.a[0].fs:
            return ite(body.a[0], red("sum", ln, v, body.a[1]), red("sum", ln, v, body.a[2]))
        if body.h == "ite" and body.a[1] is not ZERO and body.a[2] is not ZERO and not _odd(body.a[1]) and not _odd(body.a[2]):
            c0 = body.a[0]
            return add(red("sum", ln, v, ite(c0, body.a[1], ZERO)), red("sum", ln, v, ite(c0, ZERO, body.a[2])))
        if body.h == "ite" and len(terms(body.a[1])) > 1 and body.a[2] is ZERO:
            return add(*[red("sum", ln, v, ite(body.a[0], build({m: c}), ZERO)) for m, c in terms(body.a[1]).items()])
        if body.h == "ite" and len(terms(body.a[2])) > 1 and body.a[1] is ZERO:
            return add(*[red("sum", ln, v, ite(body.a[0], ZERO, build({m: c}))) for m, c in terms(body.a[2]).items()])
        if body.h == "ite" and body.a[2] is ZERO:
            inv = [c for c in atoms_of(body.a[0]) if v not in c.fs]
            if inv:
                var = [c for c in atoms_of(body.a[0]) if v in c.fs]
                return ite(and_(*inv), red("sum", ln, v, ite(and_(*var), body.a[1], ZERO)), ZERO)
        if body.h == "ite" and ZERO in body.a[1:] and not _odd(body.a[1]) and not _odd(body.a[2]):
            val = body.a[1] if body.a[2] is ZERO else body.a[2]
            vt = terms(val)
            if len(vt) == 1:
                (m, c), = vt.items()
                inv = tuple((a, p) for a, p in m if v not in a.fs)
                if inv or c != 1:
                    rest_ = build({tuple((a, p) for a, p in m if v in a.fs): Fr(1)})
                    nb = ite(body.a[0], rest_, ZERO) if body.a[2] is ZERO else ite(body.a[0], ZERO, rest_)
                    return mul(build({inv: c}), red("sum", ln, v, nb))
        # a guard that selects one position, or cuts the range
        r = _cut(ln, v, body)
        if r is not None:
            return r
    if kind in ("max", "min"):
        if v not in body.fs:
            return body
        bot = neg(INF) if kind == "max" else INF
        if body.h == "ite" and bot in body.a[1:]:
            inv = [c for c in atoms_of(body.a[0]) if v not in c.fs]
            if body.a[2] is bot and inv:
                var = [c for c in atoms_of(body.a[0]) if v in c.fs]
                return ite(and_(*inv), red(kind, ln, v, ite(and_(*var), body.a[1], bot)), bot)
            if v not in body.a[0].fs:
                return ite(body.a[0], red(kind, ln, v, body.a[1]), red(kind, ln, v, body.a[2]))
    return mk("red", kind, ln, *_close(body, v), *rest)


def _odd(e):
    return e is NAN or any(a is INF or a is NAN for m in terms(e) for a, _ in m)


def _cut(ln, v, body):
    return None


def first(ln, v, cond):
    if cond is F:
        return ln
    if cond is T:
        return ZERO
    return mk("first", ln, *_close(cond, v))


def lam(ln, v, body):
    """an array as a value: ln elements, body at v (only as a carried value of vfold)"""
    return mk("lam", ln, *_close(body, v))


def fold(ln, v, s, init, body):
    return mk("fold", ln, init, *_close(body, v, s))


def filt(ln, v, guard, val, p):
    """the p-th of the values whose guard holds, in order"""
    if guard is T:
        return subst(val, {v: p})
    body, lvl = _close(mk("pair", guard, val), v)
    return mk("filt", ln, body, lvl, p)


def _needed(bodies, ss, which, extra=()):
    """components reachable from `which`, in order of first use"""
    order, todo = [], [which]
    for e in extra:
        todo += _uses(e, ss)
    while todo:
        j = todo.pop(0)
        if j in order:
            continue
        order.append(j)
        todo += _uses(bodies[j], ss)
    return order


def _uses(e, ss):
    out = []
    idx = {s: j for j, s in enumerate(ss)}
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            if x in idx:
                out.append(idx[x])
            elif x.fs:
                for y in x.a:
                    go(y)
    go(e)
    return out


def vfold(ln, v, ss, inits, bodies, which):
    """component `which` of a vector recurrence after ln steps"""
    o = _needed(bodies, ss, which)
    if len(o) == 1 and inits[o[0]].h != "lam":
        j = o[0]
        return fold(ln, v, ss[j], inits[j], bodies[j])
    ss, inits, bodies = [ss[j] for j in o], [inits[j] for j in o], [bodies[j] for j in o]
    body, lvl = _close(mk("pack", *bodies), v, *ss)
    return mk("vfold", ln, tuple(inits), body, lvl, 0)


def wfold(v, ss, inits, cond, bodies, which):
    """component `which` when `cond` first fails"""
    o = _needed(bodies, ss, which, (cond,))
    ss, inits, bodies = [ss[j] for j in o], [inits[j] for j in o], [bodies[j] for j in o]
    if inits:
        c0 = subst(cond, dict(zip(ss, inits)))
        if c0 is F:
            return inits[0]
    body, lvl = _close(mk("pack", cond, *bodies), v, *ss)
    return mk("wfold", ZERO, tuple(inits), body, lvl, 0)


# ---------------------------------------------------------------- display
def show(e, top=True):
    h, a = e.h, e.a
    if h == "c":
        x = a[0]
        return str(x) if x.denominator < 1000 else f"{float(x):g}"
    if h in ("nan", "inf", "T", "F"):
        return h
    if h == "par":
        return a[0]
    if h == "ix":
        return f"i{a[0]}"
    if h == "bv":
        return "jklmnopq"[a[0] - 1] if a[0] <= 8 else f"b{a[0]}"
    if h == "el":
        return f"{a[0]}[{show(a[1])}]"
    if h == "+":
        out = []
        for m, c in a[0]:
            s = "*".join((show(x, False) if p == 1 else f"{show(x, False)}^{p}") for x, p in m)
            out.append(s if c == 1 and s else f"-{s}" if c == -1 and s else f"{show(mk('c', c))}" + (f"*{s}" if s else ""))
        r = " + ".join(out).replace("+ -", "- ")
        return r if top else f"({r})"
    if h == "fn":
        return f"{a[0]}(" + ", ".join(show(x) if isinstance(x, N) else str(x) for x in a[1:]) + ")"
    if h == "ite":
        return f"[{show(a[0])} ? {show(a[1])} : {show(a[2])}]"
    if h in ("max", "min"):
        return f"{h}(" + ", ".join(show(x) for x in a[0]) + ")"
    if h == "ge0":
        return f"{show(a[0])} >= 0"
    if h == "gt0":
        return f"{show(a[0])} > 0"
    if h == "gez":
        return f"{show(a[0])} >=. 0"
    if h == "eq0":
        return f"{show(a[0])} == 0"
    if h == "in":
        return f"{show(a[0])} in {[int(v) for v in a[1]]}"
    if h in ("and", "or"):
        return "(" + f" {h} ".join(show(x) for x in a[0]) + ")"
    if h == "not":
        return f"not {show(a[0])}"
    if h == "isnan":
        return f"isnan({show(a[0])})"
    if h == "red":
        return f"{a[0].upper()}(<{show(a[1])}: {show(a[2])}" + ("; " + ", ".join(show(x) for x in a[4:]) if a[4:] else "") + ")"
    if h == "first":
        return f"FIRST(<{show(a[0])}: {show(a[1])})"
    if h == "lam":
        return f"ARRAY(<{show(a[0])}: {show(a[1])})"
    if h == "sel":
        return f"{show(a[0])}[{show(a[1])}]"
    if h == "fold":
        return f"FOLD(<{show(a[0])}; {show(a[1])}; {show(a[2])})"
    if h == "filt":
        return f"FILTER(<{show(a[0])}: {show(a[1])})[{show(a[3])}]"
    if h == "vfold":
        return f"VFOLD(<{show(a[0])}; {', '.join(show(x) for x in a[1])}; {show(a[2])})"
    if h == "wfold":
        return f"WHILE({', '.join(show(x) for x in a[1])}; {show(a[2])})"
    return f"{h}({', '.join(show(x) if isinstance(x, N) else str(x) for x in a)})"

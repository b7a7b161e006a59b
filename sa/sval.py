"""Values of summary expressions at a given valuation of the inputs (exact rationals where possible).  Used only to tell
two closed forms apart: a difference in form counts as a difference in meaning only when some valuation separates them."""
from __future__ import annotations
import math, random
from fractions import Fraction as Fr
from .expr import N, mk, bsym


class OOB(Exception):
    pass


class NoVal(Exception):
    pass


class Uninit(NoVal):
    """an element of an array that was allocated without contents and never assigned"""


class Budget(Exception):
    pass


EPS = 1e-11


def fl(x):
    return float(x)


def isnanv(x):
    return isinstance(x, float) and x != x


def pos(x):
    if isinstance(x, float):
        return x > EPS
    return x > 0


def nonneg(x):
    if isinstance(x, float):
        return x >= -EPS
    return x >= 0


def zero(x):
    if isinstance(x, float):
        return abs(x) <= EPS
    return x == 0


class Val:
    """lens: name -> int; arrays: role -> list (None entries: nan); pars: name -> number; flags/none/str choices"""

    def __init__(self, lens, arrays, pars, flags=None, none=None, strs=None, arrays2=None):
        self.lens, self.arrays, self.pars, self.flags, self.none, self.strs = lens, arrays, pars, flags or {}, none or {}, strs or {}
        self.arrays2 = arrays2 or {}
        self.n = 0


def mulv(a, b):
    try:
        if isinstance(a, float) or isinstance(b, float):
            return float(a) * float(b)
    except OverflowError:
        return math.inf
    return a * b


def addv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) + float(b)
    return a + b


def powv(a, k):
    if k.denominator == 1:
        k = int(k)
        if k < 0 and zero(a):
            raise NoVal("division by zero")
        if isinstance(a, float):
            try:
                return a ** k
            except OverflowError:
                return math.inf
        return a ** k
    x = float(a)
    if x != x:
        return math.nan
    if x < 0:
        if x > -1e-9:
            x = 0.0
        else:
            return math.nan
    if x == 0 and k < 0:
        raise NoVal("division by zero")
    if not isinstance(a, float) and k == Fr(1, 2):
        a = Fr(a)
        p, q = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if p * p == a.numerator and q * q == a.denominator:
            return Fr(p, q)
    return x ** float(k)


class Ev:
    def __init__(self, val, budget=400000):
        self.v = val
        self.budget = budget
        self.top = {}

    def ev(self, e, b, memo):
        """b: (level, kind) -> value ; ix -> value; memo valid for this binding"""
        closed = not e.fs and not e.fb
        if closed:
            r = self.top.get(e)
            if r is not None:
                if isinstance(r, Exception):
                    raise r
                return r
        else:
            r = memo.get(e)
            if r is not None:
                return r
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        try:
            r = self._ev(e, b, memo)
        except (OOB, NoVal) as x:
            if closed:
                self.top[e] = x
            raise
        if closed:
            self.top[e] = r
        else:
            memo[e] = r
        return r

    def attempt(self, e, b, memo):
        try:
            return self.ev(e, b, memo)
        except (NoVal, OOB) as x:
            return x

    def _ev(self, e, b, memo):
        h, a = e.h, e.a
        go = lambda x: self.ev(x, b, memo)
        if h == "c":
            return a[0]
        if h == "+":
            r = Fr(0)
            for m, c in a[0]:
                t = c
                for x, k in m:
                    t = mulv(t, powv(go(x), k)) if k != 1 else mulv(t, go(x))
                r = addv(r, t)
            return r
        if h in ("ix", "bv", "self", "pre"):
            if e not in b:
                raise NoVal("unbound")
            r = b[e]
            if isinstance(r, Exception):
                raise r
            return r
        if h == "el":
            arr = self.v.arrays[a[0]]
            i = go(a[1])
            if isinstance(i, float) or i.denominator != 1:
                raise NoVal("index")
            i = int(i)
            if not 0 <= i < len(arr):
                raise OOB(a[0])
            return arr[i]
        if h == "el2":
            arr = self.v.arrays2[a[0]]
            i, k = int(go(a[1])), int(go(a[2]))
            if not 0 <= i < len(arr) or not 0 <= k < len(arr[i]):
                raise OOB(a[0])
            return arr[i][k]
        if h == "par":
            if a[0] == "pi":
                return math.pi
            return self.v.pars[a[0]]
        if h == "len":
            return Fr(self.v.lens[a[0]])
        if h == "nan":
            return math.nan
        if h == "inf":
            return math.inf
        if h == "T":
            return True
        if h == "F":
            return False
        if h == "ite":
            return go(a[1]) if go(a[0]) else go(a[2])
        if h in ("max", "min"):
            vs = [go(x) for x in a[0]]
            if any(isnanv(x) for x in vs):
                raise NoVal("nan in extremum")
            return (max if h == "max" else min)(vs)
        if h in ("ge0", "gez"):
            x = go(a[0])
            return not isnanv(x) and nonneg(x)
        if h == "gt0":
            x = go(a[0])
            return not isnanv(x) and pos(x)
        if h == "eq0":
            x = go(a[0])
            return not isnanv(x) and zero(x)
        if h == "in":
            return go(a[0]) in a[1]
        if h == "and":
            # order independent: a failing guard protects the other operands
            err = None
            for x in a[0]:
                try:
                    if not go(x):
                        return False
                except (OOB, NoVal) as ex:
                    err = ex
            if err:
                raise err
            return True
        if h == "or":
            err = None
            for x in a[0]:
                try:
                    if go(x):
                        return True
                except (OOB, NoVal) as ex:
                    err = ex
            if err:
                raise err
            return False
        if h == "not":
            return not go(a[0])
        if h == "isnan":
            return isnanv(go(a[0]))
        if h == "flag":
            return self.v.flags[a[0]]
        if h == "isnone":
            return self.v.none[a[0]]
        if h == "streq":
            return self.v.strs.get(a[0], a[0]) == self.v.strs.get(a[1], a[1])
        if h == "bfn" and a[0] == "app":
            return not zero(go(a[1]))
        if h == "app":
            return self.app(e, b, memo)
        if h == "bfn" and a[0] == "any":
            n = int(go(a[1]))
            return any(self.ev(a[2], {**b, mk("bv", a[3]): Fr(j)}, {}) for j in range(n))
        if h == "bfn" and a[0] in ("isfinite", "isinf"):
            x = go(a[1])
            return (math.isfinite(x) if a[0] == "isfinite" else math.isinf(x)) if isinstance(x, float) else a[0] == "isfinite"
        if h == "red":
            return self.red(e, b, memo)
        if h == "first":
            n = int(go(a[0]))
            for j in range(n):
                if self.ev(a[1], {**b, mk("bv", a[2]): Fr(j)}, {}):
                    return Fr(j)
            return Fr(max(n, 0))
        if h == "fold":
            n = int(go(a[0]))
            s = go(a[1])
            for j in range(n):
                s = self.ev(a[2], {**b, mk("bv", a[3]): Fr(j), mk("self", a[3]): s}, {})
            return s
        if h == "fn":
            return self.fn(e, b, memo)
        if h == "filt":
            ln, body, lvl, p = a
            n, p = int(go(ln)), int(go(p))
            key = ("filt", ln, body, lvl) if not e.d and not e.fs else None
            k = 0
            for q in range(n):
                bb = {**b, mk("bv", lvl): Fr(q)} if lvl else b
                mm = {}
                if self.ev(body.a[0], bb, mm):
                    if k == p:
                        return self.ev(body.a[1], bb, mm)
                    k += 1
            raise OOB("filtered")
        if h == "unk" and a[0] == "uninitialised":
            raise Uninit("uninitialised")
        if h == "lam":
            n = int(go(a[0]))
            return [self.attempt(a[1], {**b, mk("bv", a[2]): Fr(j)}, {}) if a[2] else self.attempt(a[1], b, memo) for j in range(n)]
        if h == "sel":
            arr, i = go(a[0]), go(a[1])
            if isinstance(i, float) or i.denominator != 1:
                raise NoVal("index")
            if not 0 <= i < len(arr):
                raise OOB("carried array")
            if isinstance(arr[int(i)], Exception):
                raise arr[int(i)]
            return arr[int(i)]
        if h == "vfold":
            n = int(go(a[0]))
            st = [self.attempt(x, b, memo) for x in a[1]]
            lvl = a[3]
            for j in range(n):
                bb = dict(b)
                if lvl:
                    bb[bsym(0, lvl)] = Fr(j)
                    for q, x in enumerate(st):
                        bb[bsym(q + 1, lvl)] = x
                mm = {}
                st = [self.attempt(x, bb, mm) for x in a[2].a]
            if isinstance(st[a[4]], Exception):
                raise st[a[4]]
            return st[a[4]]
        if h == "wfold":
            st = [self.attempt(x, b, memo) for x in a[1]]
            lvl = a[3]
            for j in range(2000):
                bb = dict(b)
                if lvl:
                    bb[bsym(0, lvl)] = Fr(j)
                    for q, x in enumerate(st):
                        bb[bsym(q + 1, lvl)] = x
                mm = {}
                if not self.ev(a[2].a[0], bb, mm):
                    if isinstance(st[a[4]], Exception):
                        raise st[a[4]]
                    return st[a[4]]
                st = [self.attempt(x, bb, mm) for x in a[2].a[1:]]
            raise NoVal("diverges")
        raise NoVal(h)

    def app(self, e, b, memo):
        from .summ import APPS
        cid, j, args, pos_ = e.a
        name, sig, outs = APPS[cid]
        key = [cid]
        lens, arrays, pars = {}, {}, {}
        kinds = {s[0]: s for s in sig}
        for g in args:
            p = g[0].a[0]
            if len(g) == 4:
                n = int(self.ev(g[1], b, memo))
                vs = [self.ev(g[2], {**b, mk("bv", g[3]): Fr(q)} if g[3] else b, {} if g[3] else memo) for q in range(n)]
                lens[f"g{kinds[p][2]}"] = n
                arrays[f"{name}.{p}" + (".b" if kinds[p][4] else ".i" if kinds[p][3] else "")] = vs
                key.append(tuple(vs))
            else:
                pars[f"{name}.{p}"] = self.ev(g[1], b, memo)
                key.append(pars[f"{name}.{p}"])
        key = tuple(key)
        if not hasattr(self, "apps"):
            self.apps = {}
        E = self.apps.get(key)
        if E is None:
            E = self.apps[key] = Ev(Val(lens, arrays, pars), self.budget)
        x, k, isb = outs[j]
        return E.ev(x, {k: self.ev(pos_, b, memo)} if k is not None else {}, {})

    def red(self, e, b, memo):
        kind, ln, body, lvl = e.a[0], e.a[1], e.a[2], e.a[3]
        n = int(self.ev(ln, b, memo))
        key = mk("bv", lvl) if lvl else None

        def items(rng):
            for j in rng:
                yield self.ev(body, {**b, key: Fr(j)} if key is not None else b, {})
        if kind == "sum":
            r = Fr(0)
            for x in items(range(n)):
                r = addv(r, x)
            return r
        if kind in ("max", "min"):
            r = -math.inf if kind == "max" else math.inf
            for x in items(range(n)):
                if isnanv(x):
                    raise NoVal("nan")
                r = max(r, x) if kind == "max" else min(r, x)
            return r
        if kind == "last":
            none = mk("none")
            for j in range(n - 1, -1, -1):
                x = self.lastval(body, {**b, key: Fr(j)} if key is not None else b, {})
                if x is not none:
                    return x
            return self.ev(e.a[4], b, memo)
        none = mk("none")
        vs = []
        for j in range(n):
            x = self.lastval(body, {**b, key: Fr(j)} if key is not None else b, {})
            if x is not none:
                vs.append(x)
        if kind in ("any", "all"):
            return Fr(int((any if kind == "any" else all)(x != 0 for x in vs)))
        if any(isnanv(x) for x in vs):
            return math.nan
        if not vs:
            raise NoVal("empty " + kind)
        if kind == "median":
            s = sorted(vs)
            m = len(s)
            return s[m // 2] if m % 2 else (s[m // 2 - 1] + s[m // 2]) / 2
        if kind in ("percentile", "quantile"):
            q = self.ev(e.a[4], b, memo)
            q = q / 100 if kind == "percentile" else q
            s = sorted(vs)
            p = (len(s) - 1) * q
            i = int(math.floor(p))
            return s[i] if i + 1 >= len(s) else s[i] + (s[i + 1] - s[i]) * (p - i)
        if kind in ("argmax", "argmin"):
            m = (max if kind == "argmax" else min)(vs)
            return Fr(vs.index(m))
        if kind == "prod":
            r = Fr(1)
            for x in vs:
                r = mulv(r, x)
            return r
        raise NoVal("red " + kind)

    def lastval(self, e, b, memo):
        none = mk("none")
        while e.h == "ite":
            e = e.a[1] if self.ev(e.a[0], b, memo) else e.a[2]
        if e is none:
            return none
        return self.ev(e, b, memo)

    def perm(self, n, m, body, lvl, b):
        vs = [self.ev(body, {**b, mk("bv", lvl): Fr(j)} if lvl else b, {}) for j in range(m)]
        if any(isnanv(x) for x in vs):
            raise NoVal("nan")
        if n == "argsort":
            return [Fr(j) for j in sorted(range(m), key=lambda j: vs[j])]
        if n in ("nfirst", "firstpos"):
            return [Fr(j) for j in range(m) if vs[j] not in vs[:j]]
        if n == "lastpos":
            return [Fr(j) for j in range(m) if vs[j] not in vs[j + 1:]]
        return sorted(set(vs))

    def fn(self, e, b, memo):
        n = e.a[0]
        if n == "searchsorted":
            side, ln, body, lvl, x = e.a[1:]
            m = int(self.ev(ln, b, memo))
            x = self.ev(x, b, memo)
            c = 0
            for j in range(m):
                y = self.ev(body, {**b, mk("bv", lvl): Fr(j)} if lvl else b, {})
                if y < x or (side == "right" and y == x):
                    c += 1
                else:
                    break
            return Fr(c)
        if n in ("argsort", "unique", "nunique", "nfirst", "firstpos", "lastpos"):
            ln, body, lvl = e.a[1:4]
            key = ("fn", n, ln, body, lvl)
            r = self.top.get(key)
            if r is None:
                r = self.perm(n, int(self.ev(ln, b, memo)), body, lvl, b)
                if not ln.fs and not body.fs and not ln.fb and not body.fb - {lvl}:
                    self.top[key] = r
            if n in ("nunique", "nfirst"):
                return Fr(len(r))
            k = int(self.ev(e.a[4], b, memo))
            if not 0 <= k < len(r):
                raise OOB(n)
            return r[k]
        xs = [self.ev(x, b, memo) for x in e.a[1:] if isinstance(x, N)]
        x = xs[0]
        if any(isnanv(q) for q in xs):
            return math.nan
        if n == "abs":
            return abs(x)
        if n == "gcd":
            if any(abs(q - round(q)) > 1e-9 for q in xs):
                raise NoVal("gcd")
            return Fr(math.gcd(*[int(round(q)) for q in xs]))
        if n == "sign":
            return Fr(0) if zero(x) else Fr(1) if x > 0 else Fr(-1)
        if n in ("log", "log2", "log10"):
            if x == 1:
                return Fr(0)
            x = float(x)
            if x <= 0:
                raise NoVal("log")
            return getattr(math, n)(x)
        if n in ("exp", "sin", "cos", "arctan", "tanh", "degrees"):
            try:
                return {"arctan": math.atan}.get(n, getattr(math, n, None))(float(x))
            except OverflowError:
                return math.inf
        if n in ("floor", "ceil"):
            if isinstance(x, float) and math.isinf(x):
                raise NoVal("inf")
            if isinstance(x, float) and abs(x - round(x)) < 1e-9:
                return Fr(round(x))
            return Fr(getattr(math, n)(x))
        if n == "int":
            if isinstance(x, float) and math.isinf(x):
                raise NoVal("inf")
            if isinstance(x, float) and abs(x - round(x)) < 1e-9:
                return Fr(round(x))
            return Fr(int(x))
        if n in ("round", "rint", "round_int"):
            if isinstance(x, float) and (math.isinf(x) or abs(x - math.floor(x) - 0.5) < 1e-6):
                raise NoVal("round")
            return Fr(round(x))
        if n in ("floordiv", "mod"):
            y = xs[1]
            if zero(y):
                raise NoVal("division by zero")
            if isinstance(x, float) or isinstance(y, float):
                raise NoVal("float division")
            q = Fr(math.floor(x / y))
            return q if n == "floordiv" else x - q * y
        if n == "pow":
            y = xs[1]
            if not isinstance(y, float) and y.denominator == 1 and abs(y) < 200 and not (zero(x) and y < 0):
                return x ** int(y)
            try:
                r = float(x) ** float(y)
            except (OverflowError, ZeroDivisionError):
                raise NoVal("pow")
            if isinstance(r, complex):
                raise NoVal("pow")
            return r
        raise NoVal("fn " + n)


def same(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if isnanv(x) or isnanv(y):
        return isnanv(x) and isnanv(y)
    if not isinstance(x, float) and not isinstance(y, float):
        return x == y
    x, y = float(x), float(y)
    if x == y:
        return True
    if math.isinf(x) or math.isinf(y):
        return False
    return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))

"""Affine expressions over integer symbols, a Fourier-Motzkin refuter with integer tightening,
and a small integer witness search.  This is the numeric abstract domain of the interpreter."""
from __future__ import annotations
from math import gcd
from functools import lru_cache


class Lin:
    """c + sum(coef*sym); immutable, integer coefficients."""
    __slots__ = ("k", "c", "_h")

    def __init__(self, k=(), c=0):
        if isinstance(k, dict):
            k = tuple(sorted((s, v) for s, v in k.items() if v))
        self.k = k
        self.c = c
        self._h = hash((k, c))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.k == o.k

    def __add__(self, o):
        o = L(o)
        if not o.k:
            return Lin(self.k, self.c + o.c)
        d = dict(self.k)
        for s, v in o.k:
            d[s] = d.get(s, 0) + v
        return Lin(d, self.c + o.c)

    __radd__ = __add__

    def __neg__(self):
        return Lin(tuple((s, -v) for s, v in self.k), -self.c)

    def __sub__(self, o):
        return self + (-L(o))

    def __rsub__(self, o):
        return L(o) - self

    def scale(self, f):
        if f == 0:
            return Lin((), 0)
        return Lin(tuple((s, v * f) for s, v in self.k), self.c * f)

    @property
    def const(self):
        return self.c if not self.k else None

    def coef(self, s):
        for t, v in self.k:
            if t == s:
                return v
        return 0

    def syms(self):
        return [s for s, _ in self.k]

    def sub(self, m):
        """substitute {sym: Lin}"""
        hit = False
        for s, _ in self.k:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        r = Lin((), self.c)
        for s, v in self.k:
            r = r + (m[s].scale(v) if s in m else Lin(((s, v),), 0))
        return r

    def __repr__(self):
        out = []
        for s, v in self.k:
            out.append(("+" if v > 0 else "-") + (str(abs(v)) + "*" if abs(v) != 1 else "") + s)
        if self.c or not out:
            out.append(("+" if self.c >= 0 else "-") + str(abs(self.c)))
        r = "".join(out)
        return r[1:] if r.startswith("+") else r


def L(x):
    return x if isinstance(x, Lin) else Lin((), x)


def sym(s):
    return Lin(((s, 1),), 0)


def _norm(l):
    """normalise l>=0 with integer tightening"""
    if not l.k:
        return l
    g = 0
    for _, v in l.k:
        g = gcd(g, abs(v))
    if g > 1:
        return Lin(tuple((s, v // g) for s, v in l.k), l.c // g)   # floor
    return l


def _closure(facts, seeds):
    seeds = set(seeds)
    pool = list(facts)
    use = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f in pool:
            if any(s in seeds for s, _ in f.k):
                use.append(f)
                for s, _ in f.k:
                    if s not in seeds:
                        seeds.add(s)
                        changed = True
            else:
                rest.append(f)
        pool = rest
    return use, seeds


def _simplify(cs):
    best = {}
    for f in cs:
        f = _norm(f)
        if not f.k:
            if f.c < 0:
                return None
            continue
        o = best.get(f.k)
        if o is None or f.c < o:
            best[f.k] = f.c
    # contradiction between opposite
    for k, c in best.items():
        nk = tuple((s, -v) for s, v in k)
        o = best.get(nk)
        if o is not None and c + o < 0:
            return None
    return [Lin(k, c) for k, c in best.items()]


@lru_cache(maxsize=200000)
def _infeasible(cs):
    cur = _simplify(cs)
    if cur is None:
        return True
    for _ in range(40):
        syms = {}
        for f in cur:
            for s, v in f.k:
                a = syms.setdefault(s, [0, 0])
                a[0 if v > 0 else 1] += 1
        if not syms:
            return False
        s = min(syms, key=lambda t: (syms[t][0] * syms[t][1] - syms[t][0] - syms[t][1], t))
        pos = [f for f in cur if f.coef(s) > 0]
        neg = [f for f in cur if f.coef(s) < 0]
        rest = [f for f in cur if f.coef(s) == 0]
        if len(pos) * len(neg) > 400:
            return False
        new = rest
        for p in pos:
            a = p.coef(s)
            for q in neg:
                b = -q.coef(s)
                g = gcd(a, b)
                new.append(p.scale(b // g) + q.scale(a // g))
        cur = _simplify(new)
        if cur is None:
            return True
        if len(cur) > 300:
            return False
    return False


def infeasible(facts, extra=()):
    extra = tuple(extra)
    if any((not f.k and f.c < 0) for f in extra):
        return True
    if extra:
        seeds = [s for f in extra for s in f.syms()]
        use, _ = _closure(facts, seeds)
        use = use + [f for f in extra]
    else:
        use = list(facts)
    return _infeasible(tuple(sorted(set(use), key=repr)))


def prove(facts, goal):
    """facts |- goal >= 0 ?"""
    goal = L(goal)
    if not goal.k:
        return goal.c >= 0
    return infeasible(facts, (-goal - 1,))


def prove_eq(facts, a, b):
    d = L(a) - L(b)
    if not d.k:
        return d.c == 0
    return prove(facts, d) and prove(facts, -d)


def witness(facts, conds, limit=4000):
    """small integer assignment satisfying facts (connected part) and conds, or None."""
    conds = list(conds)
    seeds = [s for f in conds for s in f.syms()]
    use, syms = _closure(facts, seeds)
    cs = _simplify(use + conds)
    if cs is None:
        return None
    order = []
    levels = []
    cur = cs
    syms = sorted({s for f in cs for s, _ in f.k})
    # eliminate, remembering constraints per level
    remaining = set(syms)
    while remaining:
        cnt = {}
        for s in remaining:
            p = sum(1 for f in cur if f.coef(s) > 0)
            q = sum(1 for f in cur if f.coef(s) < 0)
            cnt[s] = (p * q - p - q, s)
        s = min(remaining, key=lambda t: cnt[t])
        levels.append((s, [f for f in cur if f.coef(s) != 0]))
        pos = [f for f in cur if f.coef(s) > 0]
        neg = [f for f in cur if f.coef(s) < 0]
        if len(pos) * len(neg) > 600:
            return None
        new = [f for f in cur if f.coef(s) == 0]
        for p in pos:
            a = p.coef(s)
            for q in neg:
                b = -q.coef(s)
                new.append(p.scale(b) + q.scale(a))
        cur = _simplify(new)
        if cur is None:
            return None
        remaining.discard(s)
    levels.reverse()
    budget = [limit]

    def rec(i, asg):
        if i == len(levels):
            return dict(asg)
        budget[0] -= 1
        if budget[0] < 0:
            return None
        s, fs = levels[i]
        lo, hi = None, None
        for f in fs:
            a = f.coef(s)
            rest = f.c
            ok = True
            for t, v in f.k:
                if t != s:
                    if t not in asg:
                        ok = False
                        break
                    rest += v * asg[t]
            if not ok:
                continue
            if a > 0:   # a*s + rest >=0 -> s >= ceil(-rest/a)
                b = -(rest // a)
                lo = b if lo is None else max(lo, b)
            else:       # s <= floor(rest/-a)
                b = rest // (-a)
                hi = b if hi is None else min(hi, b)
        if lo is None and hi is None:
            cand = [0, 1, 2, 3, -1]
        elif lo is None:
            cand = list(range(hi, hi - 6, -1))
        elif hi is None:
            cand = list(range(lo, lo + 8))
        else:
            if lo > hi:
                return None
            cand = list(range(lo, min(hi, lo + 7) + 1))
            if hi > lo + 7:
                cand.append(hi)
        for c in cand:
            asg[s] = c
            r = rec(i + 1, asg)
            if r is not None:
                return r
            del asg[s]
        return None

    return rec(0, {})

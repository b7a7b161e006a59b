"""Do column names tell computations apart?  Two instances that differ in one option, two expressions or two classes: wherever
their closed forms have different values, their names must be different texts."""
from __future__ import annotations
import itertools, random
from fractions import Fraction as Fr
from .expr import *
from .summ import A, S, NONE, num
from .osumm import Td, Ts, PyExc, Holes, ishole, show, overlap
from .ounits import World, concrete, NS
from .sval import Ev, OOB, NoVal, Budget
from .repo import Repo
from . import agree, valgen, oclasses as oc, ofeature as of


# two settings of an option whose column name depends on the option's kind (here: windows of whole minutes)
CONCRETE = {("BarRate", "window"): (60 * NS, 120 * NS)}


def text(E, s):
    """a name at a point, or None"""
    out = []
    for c in str(s):
        if not ishole(c):
            out.append(c)
            continue
        v, fmt = Holes.get(c)
        if isinstance(v, (Td, Ts)):
            v = v.ns
        if not isinstance(v, N):
            return None
        try:
            x = E.ev(v, {}, {})
        except (OOB, NoVal, Budget, ZeroDivisionError, OverflowError, TypeError, KeyError):
            return None
        if isinstance(x, bool):
            return None
        x = int(x) if isinstance(x, Fr) and x.denominator == 1 and isint(v) else float(x)
        try:
            out.append(format(x, fmt) if fmt and not fmt.startswith("!") else str(x))
        except (ValueError, TypeError):
            return None
    return "".join(out)


def cellsof(w, r):
    xs = oc.seq(w, r)
    return None if xs is None else [w.cells(x) for x in xs]


def clash(specs, name, c1, n1, c2, n2, points, vals):
    """-> (status, message): a point at which some column differs although its name is the same"""
    differ = judged = 0
    for seed in range(points):
        if seed not in vals:
            vals[seed] = valgen.gen(specs, seed, valgen.OVER.get(name), valgen.NANS.get(name, ()))
        v = vals[seed]
        for i, ((l1, k1, e1), (l2, k2, e2)) in enumerate(zip(c1, c2)):
            try:
                a, b = agree.evs(Ev(v), l1, k1, e1), agree.evs(Ev(v), l2, k2, e2)
            except (OOB, NoVal, Budget, ZeroDivisionError, OverflowError):
                continue
            judged += 1
            if agree.close(a, b):
                continue
            differ += 1
            t1, t2 = text(Ev(v), n1[i]), text(Ev(v), n2[i])
            if t1 is not None and t1 == t2:
                return "bad", f"both columns are called '{t1}', but at {agree.point(v)[:500]} one is {agree.fnum(a)[:150]} and the other {agree.fnum(b)[:150]}"
    if differ:
        return "ok", f"{differ} separating points, each with different names"
    return "unknown", f"no separating point among {judged}"


def option_unit(root, name, points):
    repo = Repo(root)
    cls = concrete(repo)[name]
    where = f"{cls._mod.path}:{cls.lineno}"
    res = {}
    for var in oc.variants(repo, cls):
        try:
            w, c2, ref, o, fr, roles = oc.setup(repo, name, var, decoys=False)
        except PyExc:
            continue
        fixed0 = dict(var)
        ps = [p.arg for p, _ in oc.ctor(w.repo, c2)]
        if "input_col" in ps:
            fixed0["input_col"] = S("c0")
        elif "input_cols" in ps:
            fixed0["input_cols"] = w.s.plist(w.st, [S(f"c{i}") for i in range(len(roles))])
        extra, others = [], []
        for p, d in oc.ctor(w.repo, c2):
            n = p.arg
            if n in var:
                for alt in ([S(x) for x in oc.OPTS[n]] if n in oc.OPTS else [T, F]):
                    if str(alt) != str(var[n]):
                        others.append((n, {n: alt}))
            elif n in w.params:
                k = w.params[n]
                v = par(n + "_2", k in ("i", "i0"))
                w.st.facts = w.st.facts | {cmp(">" if k == "F" else ">=", v, ZERO if k in ("F", "i0") else ONE)}
                extra.append(f"{n}_2:{k}")
                ann = "" if p.annotation is None else str(__import__("ast").unparse(p.annotation))
                others.append((n, {n: Td(mul(v, C(NS))) if "Timedelta" in ann else v}))
        sp, vals = oc.specs(w, roles, extra), {}
        try:
            n0 = len(w.s.unknown)
            r1, m1 = cellsof(w, w.call(o, fr, backend=S("pd"))), w.strs(w.attr(o, "output_name"))
            if r1 is None or m1 is None or len(w.s.unknown) > n0 or any(k is None for _, k, _ in r1):
                r1, m1 = cellsof(w, w.call(o, fr, backend=S("nb"))), w.strs(w.attr(o, "output_name"))
        except PyExc:
            r1 = m1 = None
        for n, kw in others:
            first = o
            if (name, n) in CONCRETE and m1 is None:
                x1, x2 = CONCRETE[name, n]
                try:
                    first, kw = w.make(c2, **{**fixed0, n: Td(C(x1))}), {n: Td(C(x2))}
                    m1 = w.strs(w.attr(first, "output_name"))
                    r1 = cellsof(w, w.call(first, fr, backend=S("pd")))
                except PyExc:
                    pass
            key = f"option|{name}|{n}"
            got = ("unknown", "not modelled")
            if r1 is not None and m1 is not None:
                for be in ("pd", "nb"):
                    try:
                        n0 = len(w.s.unknown)
                        a = w.make(c2, **{**fixed0, **kw})
                        r1 = cellsof(w, w.call(first, fr, backend=S(be)))
                        r2, m2 = cellsof(w, w.call(a, fr, backend=S(be))), w.strs(w.attr(a, "output_name"))
                        if r1 is None or r2 is None or m2 is None or len(w.s.unknown) > n0 or not len(r1) == len(r2) == len(m1) == len(m2):
                            continue
                        got = clash(sp, name, r1, m1, r2, m2, points, vals)
                        break
                    except PyExc:
                        continue
            old = res.get(key)
            rank = {"bad": 2, "ok": 1, "unknown": 0}
            if old is None or rank[got[0]] > rank[old[0]]:
                res[key] = got
    return where, [("option", k, s, m) for k, (s, m) in sorted(res.items())]


def expr_options_unit(root, label, points):
    """an operator expression against itself with another constant, window or lag"""
    repo = Repo(root)
    code = of.EXPRS[label][0]
    feat = repo.cls(of.KIT, "Feature")
    where = f"{feat._mod.path}:{feat.lineno}"
    out = []
    import ast
    used = [n for n in "cdwp" if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(ast.parse(code)))]
    for n in used:
        w, fr, env = of.world(repo)
        v = par(n + "_2", n in "wp")
        if n in "wp":
            w.st.facts = w.st.facts | {cmp(">=", v, ONE)}
        try:
            n0 = len(w.s.unknown)
            f, g = w.expr(code, of.KIT, **env), w.expr(code, of.KIT, **{**env, n: v})
            r1, r2 = cellsof(w, w.call(f, fr, backend=S("pd"))), cellsof(w, w.call(g, fr, backend=S("pd")))
            m1, m2 = w.strs(w.attr(f, "name")), w.strs(w.attr(g, "name"))
        except PyExc as e:
            continue
        if None in (r1, r2, m1, m2) or len(w.s.unknown) > n0:
            out.append(("option", f"option|{label}|{n}", "unknown", "not modelled"))
            continue
        s, m = clash(of.SPEC + f" {n}_2:{'N' if n in 'cd' else 'i'}", of.RT, r1, m1, r2, m2, points, {})
        out.append(("option", f"option|{label}|{n}", s, f"{code}: {m}"))
    return where, out


# more shapes, whose names must be told apart from each other's and from those of EXPRS
SHAPES = ["X - (Y - c)", "(X - Y) - c", "X / (Y / c)", "X / Y / c", "(X + Y).log()", "X.log() + Y", "X + Y.log()", "(X + Y).lag(p)", "X + Y.lag(p)", "X.lag(p) + Y", "X.lag(p).ema(w)", "X.ema(w).lag(p)",
          "X.rolling_mean(w).rolling_std(p)", "X.rolling_std(p).rolling_mean(w)", "Feature.max(Feature.min(X, c), d)", "Feature.min(Feature.max(X, d), c)", "Feature.max(X, Y) - c", "Feature.max(X, Y - c)",
          "abs(X) - abs(Y)", "abs(X - abs(Y))", "X.clip(c, d)", "X.clip(lower=c)", "X.clip(upper=c)", "X.exp().log1p()", "X.log1p().exp()", "X.square().sqrt()", "X.sqrt().square()",
          "Feature(Lag(p, input_col='cy'))", "Feature(SMA(w, input_col='cx'))", "Feature(SMA(w, input_col='cx_lag1'))", "Y.lag(p)", "Y.rolling_mean(w)", "Y.ema(w)", "Y.log()", "Y + c", "c - Y", "X * X", "X * Y * c", "X * (Y * c)"]


def pairs_unit(root, points):
    """every two expressions: the same name only for the same values"""
    repo = Repo(root)
    feat = repo.cls(of.KIT, "Feature")
    where = f"{feat._mod.path}:{feat.lineno}"
    w, fr, env = of.world(repo)
    fr.__class__
    items, out = [], []
    for code in dict.fromkeys([of.EXPRS[k][0] for k in of.EXPRS if k not in of.NOCONFIG and not k.startswith("ext")] + SHAPES):
        if "cx_lag1" in code:
            continue
        try:
            n0 = len(w.s.unknown)
            f = w.expr(code, of.KIT, **env)
            m, r = w.strs(w.attr(f, "name")), cellsof(w, w.call(f, fr, backend=S("pd")))
        except PyExc:
            m = r = None
        if m is None or r is None or len(w.s.unknown) > n0:
            out.append(("pair", f"pair|{code}", "unknown", "not modelled"))
            continue
        items.append((code, m, r))
    vals, bad = {}, {}
    differ = 0
    for seed in range(points):
        v = valgen.gen(of.SPEC, seed, valgen.OVER.get(of.RT), valgen.NANS.get(of.RT, ()))
        by = {}
        for code, m, r in items:
            t = text(Ev(v), m[0])
            if t is not None:
                by.setdefault(t, []).append((code, r))
        for t, xs in by.items():
            got = []
            for code, r in xs if len(xs) > 1 else []:
                try:
                    got.append((code, agree.evs(Ev(v), *r[0])))
                except (OOB, NoVal, Budget, ZeroDivisionError, OverflowError):
                    continue
            for (c1, a), (c2, b) in itertools.combinations(got, 2):
                if not agree.close(a, b):
                    bad.setdefault((c1, c2), f"'{c1}' and '{c2}' are both called '{t}', but at {agree.point(v)[:400]} one is {agree.fnum(a)[:120]} and the other {agree.fnum(b)[:120]}")
    for (c1, c2), m in bad.items():
        out.append(("pair", f"pair|{c1}|{c2}", "bad", m))
    out.append(("pair", "pairs", "ok" if not bad else "bad", f"{len(items)} expressions, {points} points")) if not bad else None
    return where, out


def classes_unit(root, points):
    """every two transform classes over the same columns: the same name only for the same values"""
    repo = Repo(root)
    rnd = random.Random(7)
    cls = {n: c for n, c in concrete(repo).items() if n != "ExternalFunction"}
    names = {}
    for n in cls:
        for var in oc.variants(repo, cls[n]):
            try:
                w, c2, ref, o, fr, roles = oc.setup(repo, n, var, decoys=False)
                m = w.strs(w.attr(o, "output_name"))
                if m:
                    names.setdefault(n, []).append((var, m, dict(w.params)))
            except PyExc:
                continue
    out = []
    one = {}
    for n, vs in names.items():
        texts = {}
        try:                        # the default settings
            w = World(repo)
            c2 = concrete(w.repo)[n]
            kw = {"input_col": S("c0")} if any(q.arg == "input_col" for q, _ in oc.ctor(w.repo, c2)) else {}
            for i, s in enumerate(w.strs(w.attr(w.s.construct(c2, [], kw, w.st), "output_name")) or []):
                t = text(Ev(_pars({})), s)
                if t is not None:
                    texts.setdefault(t, ({}, None, i))
        except PyExc:
            pass
        for var, m, params in vs:
            for _ in range(60):
                p = {}
                for q, k in params.items():
                    p[q] = Fr(rnd.randint(1, 6)) if k in ("i", "i0") else Fr(rnd.randint(1, 24), 4)
                E = Ev(_pars(p))
                for i, s in enumerate(m):
                    t = text(E, s)
                    if t is not None:
                        texts.setdefault(t, (var, p, i))
        one[n] = texts
    for a, b in itertools.combinations(one, 2):
        common = [t for t in one[a] if t in one[b]]
        mod = cls[a]._mod
        where = f"{mod.path}:{cls[a].lineno}"
        if not common:
            out.append(("classes", f"classes|{a}|{b}", "ok", "no common name"))
            continue
        bad = None
        for t in sorted(common)[:3]:
            bad = bad or _same_point(repo, a, one[a][t], b, one[b][t], t, points)
        out.append(("classes", f"classes|{a}|{b}", "bad" if bad else "unknown", bad or f"both can be called '{common[0]}'"))
    return where, out


def _pars(p):
    v = valgen.gen("x:a:n", 0)
    v.pars.update(p)
    return v


def _fix(w, cls, var, p, roles):
    kw = dict(var)
    for q, d in oc.ctor(w.repo, cls):
        import ast
        ann = "" if q.annotation is None else ast.unparse(q.annotation)
        if p and q.arg in p:
            x = p[q.arg]
            c = C(int(x)) if x.denominator == 1 else C(x)
            kw[q.arg] = Td(mul(c, C(NS))) if "Timedelta" in ann else c
        elif q.arg == "input_col":
            kw[q.arg] = S("c0")
    return kw


def _same_point(repo, a, xa, b, xb, t, points):
    w = World(repo)
    (va, pa, ia), (vb, pb, ib) = xa, xb
    out = []
    try:
        objs = []
        for n, v, p, i in ((a, va, pa, ia), (b, vb, pb, ib)):
            c = concrete(w.repo)[n]
            k = _fix(w, c, v, p, None)
            ps = [q.arg for q, _ in oc.ctor(w.repo, c)]
            m = 1
            if "input_cols" in ps:
                m = len(w.strs(w.attr(w.make(c), "requires")))
                k["input_cols"] = w.s.plist(w.st, [S(f"c{j}") for j in range(m)])
            objs.append((w.make(c, **k) if p is not None else w.s.construct(c, [], {q: k[q] for q in ("input_col", "input_cols") if q in k}, w.st), i, m))
        if objs[0][2] != objs[1][2]:
            return None
        fr = w.frame({f"c{j}": f"x{j}" for j in range(objs[0][2])})
        cs = []
        for o, i, _ in objs:
            n0 = len(w.s.unknown)
            cs.append(cellsof(w, w.call(o, fr, backend=S("pd")))[i])
            if len(w.s.unknown) > n0:
                return None
    except (PyExc, TypeError, IndexError):
        return None
    sp = " ".join(f"x{j}:a:n" for j in range(objs[0][2])) + " timestamps:t:n"
    s, m = clash(sp, a, [cs[0]], [S(t)], [cs[1]], [S(t)], points, {})
    return f"{a}({_say(va, pa)}) and {b}({_say(vb, pb)}): {m}" if s == "bad" else None


def _say(v, p):
    return ", ".join([f"{k}={x if not isinstance(x, S) else str(x)}" if isinstance(x, S) else f"{k}={x is T}" for k, x in v.items()] + [f"{k}={x}" for k, x in (p or {}).items()])

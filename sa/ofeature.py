"""Feature expressions: value, name, configuration round trip, batch execution."""
from __future__ import annotations
import ast
from .expr import *
from .summ import A, S, NONE, num, Rec, ModRef
from .osumm import Ser, Idx, Ref, Td, Ts, PyExc, show, streq, Cls, Clo, Bound
from .ounits import World
from .repo import Repo, AnalysisBroken
from . import agree, valgen

KIT = "finmlkit.feature.kit"
UTL = "finmlkit.feature.utils"
ALG = "sa.spec.algebra"

# label -> (expression over features X, Y and options c, d, w, p; its meaning over the columns x, y)
EXPRS = {
    "x+y": ("X + Y", "x + y"), "x-y": ("X - Y", "x - y"), "x*y": ("X * Y", "x * y"), "x/y": ("X / Y", "x / y"), "y-x": ("Y - X", "y - x"), "y/x": ("Y / X", "y / x"),
    "x+c": ("X + c", "x + c"), "x-c": ("X - c", "x - c"), "x*c": ("X * c", "x * c"), "x/c": ("X / c", "x / c"),
    "c+x": ("c + X", "c + x"), "c-x": ("c - X", "c - x"), "c*x": ("c * X", "c * x"), "c/x": ("c / X", "c / x"),
    "abs(x)": ("abs(X)", "np.abs(x)"), "x.abs": ("X.abs()", "np.abs(x)"), "log": ("X.log()", "log_(x)"), "log1p": ("X.log1p()", "log1p_(x)"),
    "exp": ("X.exp()", "np.exp(x)"), "square": ("X.square()", "x * x"), "sqrt": ("X.sqrt()", "sqrt_(x)"),
    "clip": ("X.clip(-2, 3)", "at_most(at_least(x, -2), 3)"), "clip_lo": ("X.clip(lower=-1)", "at_least(x, -1)"), "clip_hi": ("X.clip(upper=2)", "at_most(x, 2)"),
    "rolling_mean": ("X.rolling_mean(w)", "rolling_mean(x, w)"), "rolling_sum": ("X.rolling_sum(w)", "rolling_sum(x, w)"), "rolling_std": ("X.rolling_std(w)", "rolling_std(x, w, 1)"),
    "ema": ("X.ema(w)", "ewm_adjusted(x, 2 / (w + 1))"), "ema_rec": ("X.ema(w, adjust=False)", "ewm_recursive(x, 2 / (w + 1))"), "lag": ("X.lag(p)", "lag(x, p)"),
    "min": ("Feature.min(X, Y)", "lo2(x, y)"), "max": ("Feature.max(X, Y)", "hi2(x, y)"), "min_xc": ("Feature.min(X, c)", "lo2(x, c)"), "min_cx": ("Feature.min(c, X)", "lo2(x, c)"),
    "min_yx": ("Feature.min(Y, X)", "lo2(y, x)"),
    "max_xc": ("Feature.max(X, c)", "hi2(x, c)"), "max_cx": ("Feature.max(c, X)", "hi2(x, c)"),
    "apply": ("X.apply(f, c, suffix='f', k=d)", "x * c + d"), "apply2": ("(X - Y).apply(g, suffix='g')", "(x - y) * (x - y) + 1"),
    "nested1": ("(X + Y) * c - X / Y", "(x + y) * c - x / y"), "nested2": ("(X - X.rolling_mean(w)) / X.rolling_std(w)", "(x - rolling_mean(x, w)) / rolling_std(x, w, 1)"),
    "nested3": ("Feature.max(Feature.min(X / X.lag(p) - 1, c), d)", "hi2(lo2(x / lag(x, p) - 1, c), d)"),
    "nested4": ("1 / (2 - X).square().lag(p)", "1 / lag((2 - x) * (2 - x), p)"), "nested5": ("abs(X - Y).log().ema(w)", "ewm_adjusted(log_(np.abs(x - y)), 2 / (w + 1))"),
    "same_twice": ("X.lag(p) - X.lag(w)", "lag(x, p) - lag(x, w)"), "min_max": ("Feature.min(X, Y) / Feature.max(X, Y)", "lo2(x, y) / hi2(x, y)"),
    "ext_named": ("Feature(ExternalFunction('numpy.exp', input_cols='cx', output_cols='ex', pass_numpy=True))", "np.exp(x)"),
    "ext_two": ("Feature(ExternalFunction(lambda a, b, k: (a + b * k, a - b), input_cols=['cy', 'cx'], output_cols=['u', 'v'], kwargs={'k': c}))", ["y + x * c", "y - x"]),
    "ext_args": ("Feature(ExternalFunction(lambda a, k, m: a * k - m, input_cols='cy', output_cols='u', args=[c, d]))", "y * c - d"),
    "ext_arrays": ("Feature(ExternalFunction(lambda a, b, k: a / b + k, input_cols=['cx', 'cy'], output_cols='u', args=[c], pass_numpy=True))", "x / y + c"),
    "composed": ("Feature(Compose(Lag(p, input_col='cx'), SMA(w, input_col='step')))", "rolling_mean(lag(x, p), w)"),
    "sub_lagged": ("X - Y.lag(p)", "x - lag(y, p)"), "div_const_sub": ("(c - X) / (c + Y)", "(c - x) / (c + y)"),
}
NOCONFIG = {"apply", "apply2", "ext_two", "ext_args", "ext_arrays"}       # arbitrary functions are documented as not restorable
BACK = ["x+y", "y-x", "x/c", "c-x", "abs(x)", "log", "clip", "rolling_std", "ema", "lag", "min", "min_yx", "max_cx", "apply", "nested4", "nested5", "sub_lagged", "batch", "batch topo", "composed"]
RT = "algebra"
valgen.NANS[RT] = ("x", "y")
SPEC = "x:a:n y:a:n z:a:n timestamps:t:n c:N d:N w:i p:i"


def world(repo):
    w = World(repo)
    fr = w.frame({"cx": "x", "cy": "y", "cz": "z"})
    env = {"c": par("c"), "d": par("d"), "w": par("w", True), "p": par("p", True)}
    w.st.facts = w.st.facts | {cmp(">=", env["w"], ONE), cmp(">=", env["p"], ONE)}
    ident = w.repo.cls("finmlkit.feature.transforms", "Identity")
    feat = w.repo.cls(KIT, "Feature")
    for n, c in (("X", "cx"), ("Y", "cy")):
        t = w.s.construct(ident, [S(c)], {}, w.st)
        env[n] = w.s.construct(feat, [t], {}, w.st)
    for n in ("ExternalFunction", "Lag", "SMA"):
        env[n] = Cls(w.repo.cls("finmlkit.feature.transforms", n))
    env["f"] = w.expr("lambda v, u, k=0: v * u + k", KIT)
    env["g"] = w.expr("lambda v: v * v + 1", KIT)
    return w, fr, env


def reference(w, text, env, fr):
    e = {k: env[k] for k in "cdwp"}
    for n, c in (("x", "cx"), ("y", "cy")):
        v = w.s.framecol(fr, S(c), w.st)
        e[n] = A(v.aid, v.off, v.ln)
    n0 = len(w.s.unknown)
    r = w.expr(text, ALG, **e)
    if len(w.s.unknown) > n0 or not isinstance(r, A):
        raise AnalysisBroken(f"definition {text}: {w.s.unknown[n0:]}")
    return r


def differs(w, got, ref, points, vals, spec=SPEC, name=RT, unks=()):
    """-> (status, message) for one column against another"""
    if unks:
        return "unknown", f"not modelled: {unks[0]}"
    (ln, k, e), (ln2, k2, e2) = w.cells(got), w.cells(ref)
    if ln is None or ln2 is None or k is None or k2 is None:
        return ("unknown", "not a column") if not isinstance(got, A) else ("unknown", "shape")
    s, m = agree.one(spec, name, ("0", ln, k, e), ("0", ln2, k2, e2), vals, points)
    return {"same": "ok", "agree": "ok", "differ": "bad"}.get(s, "unknown"), m or "normal forms are identical"


def backend_unit(root, label, points):
    """every operand of an operation is computed with the backend asked for"""
    import re
    repo = Repo(root)
    feat = repo.cls(KIT, "Feature")
    where = f"{feat._mod.path}:{feat.lineno}"
    out, vals = [], {}
    for backend, k in (("pd", 2), ("nb", 3)):
        w, fr, env = world(repo)
        probe = w.repo.cls("sa.spec.objects", "Probe")
        env["P"] = w.s.construct(feat if w.repo is repo else w.repo.cls(KIT, "Feature"), [w.s.construct(probe, [S("cx")], {}, w.st)], {}, w.st)
        n0 = len(w.s.unknown)
        key = f"backend|{label}|{backend}"
        try:
            if label.startswith("batch"):
                kit = w.s.construct(w.repo.cls(KIT, "FeatureKit"), [w.s.plist(w.st, [env["P"], w.expr("P + Y", KIT, **env), w.expr("(P + Y) * c", KIT, **env)])], {"retain": w.s.plist(w.st, [])}, w.st)
                d = columns(w, w.method(kit, "build", fr, backend=S(backend), order=S("topo" if "topo" in label else "defined")))
                got = {str(n): v for n, v in d.items()} if d is not None else {}
                rs = list(got.values())
                refs = [f"{k} * x", f"{k} * x + y", f"({k} * x + y) * c"]
            elif label == "composed":
                env["Compose"] = Cls(w.repo.cls("finmlkit.feature.base", "Compose"))
                env["T1"], env["T2"] = (w.s.construct(probe, [S(c)], {}, w.st) for c in ("cx", "mid"))
                rs = [w.call(w.expr("Feature(Compose(T1, T2))", KIT, **env), fr, backend=S(backend))]
                refs = [f"x * {k * k}"]
            else:
                code, ref = EXPRS[label]
                rs = [w.call(w.expr(re.sub(r"\bX\b", "P", code), KIT, **env), fr, backend=S(backend))]
                refs = [re.sub(r"\bx\b", f"(x * {k})", ref)]
        except PyExc as e:
            out.append(("backend", key, "unknown", f"always raises: {e}"))
            continue
        u = w.s.unknown[n0:]
        if len(rs) != len(refs) or not all(isinstance(r, A) for r in rs):
            out.append(("backend", key, "unknown", f"shape {u[:1]}"))
            continue
        for i, (r, t) in enumerate(zip(rs, refs)):
            s, m = differs(w, r, reference(w, t, env, fr), points, vals, unks=u)
            out.append(("backend", f"{key}|{i}", s, f"{label}: {m}"))
    return where, out


def json_hop(w, v, path="config"):
    """what the value is after being written as JSON and read back; raises ValueError where it cannot be written"""
    st = w.st
    if isinstance(v, Ref) and v.kind == "dict":
        r = st.heap[v.aid]
        d = {}
        for k, x in r.d.items():
            if not isinstance(k, S):
                raise ValueError(f"{path}: key {k}")
            d[k] = json_hop(w, x, f"{path}.{show(k)}")
        return w.s.rec(st, "dict", d=d)
    if isinstance(v, tuple) or isinstance(v, Ref) and v.kind == "list":
        xs = w.s.items(v, st)
        if xs is None:
            return v
        return w.s.plist(st, [json_hop(w, x, f"{path}[{i}]") for i, x in enumerate(xs)])
    if isinstance(v, (Td, Ts, A, Cls, Clo, Bound)) or isinstance(v, Ref):
        raise ValueError(f"{path} is a {type(v).__name__}, which JSON cannot hold")
    return v


def sameval(w, a, b):
    """structural equality of two values that may live in objects"""
    if isinstance(a, S) or isinstance(b, S):
        return isinstance(a, S) and isinstance(b, S) and str(a) == str(b)
    if isinstance(a, ModRef) or isinstance(b, ModRef):
        return isinstance(a, ModRef) and isinstance(b, ModRef) and a.name == b.name
    if isinstance(a, (Td, Ts)):
        return type(a) is type(b) and a.ns is b.ns
    if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind:
        x, y = w.st.heap[a.aid], w.st.heap[b.aid]
        if a.kind == "list":
            p, q = w.s.items(a, w.st), w.s.items(b, w.st)
            return p is not None and q is not None and len(p) == len(q) and all(sameval(w, i, j) for i, j in zip(p, q))
        if isinstance(x, Rec) and isinstance(y, Rec) and x.cls is y.cls and set(x.d or {}) == set(y.d or {}):
            return all(sameval(w, x.d[k], y.d[k]) for k in x.d)
        return False
    return a is b


def expr_unit(root, label, points):
    """value, name and round trip of one feature expression"""
    repo = Repo(root)
    code, ref = EXPRS[label]
    out = []
    feat = repo.cls(KIT, "Feature")
    where = f"{feat._mod.path}:{feat.lineno}"
    vals = {}
    for backend in ("pd", "nb"):
        w, fr, env = world(repo)
        try:
            n0 = len(w.s.unknown)
            f = w.expr(code, KIT, **env)
            r = w.call(f, fr, backend=S(backend))
            nm = w.attr(f, "name")
            u = w.s.unknown[n0:]
            many = isinstance(ref, list)
            refs = ref if many else [ref]
            got = [r] if isinstance(r, A) and not many else list(w.s.items(r, w.st) or [])
            nms = [nm] if not many else list(w.s.items(nm, w.st) or [])
            if len(got) != len(refs) or len(nms) != len(refs):
                out.append(("value", f"value|{label}|{backend}", "unknown" if u or not got or not nms else "bad", f"{code}: {len(got)} columns, {len(nms)} names, {len(refs)} expected; {u[:1]}"))
                continue
            for i, (r, nm, ref1) in enumerate(zip(got, nms, refs)):
                tag = f"{label}|{backend}" + (f"|{i}" if many else "")
                rr = reference(w, ref1, env, fr)
                s, m = differs(w, r, rr, points, vals, unks=u)
                out.append(("value", f"value|{tag}", s, f"{code}: {m}"))
                if isinstance(r, Ser) and isinstance(r.name, S) and isinstance(nm, S):
                    q = streq(str(r.name), str(nm))
                    out.append(("name", f"name|{tag}", "ok" if q is T else "bad" if q is F else "unknown", f"result '{show(r.name)}', feature '{show(nm)}'"))
                else:
                    out.append(("name", f"name|{tag}", "bad" if isinstance(r, Ser) and r.name is NONE and not u else "unknown", "name not resolved"))
        except PyExc as e:
            out.append(("value", f"value|{label}|{backend}", "bad", f"{code} always raises: {e}"))
            continue
        # input untouched
        d = w.st.heap[fr.aid].d
        ok = list(map(str, d)) == ["cx", "cy", "cz"]
        out.append(("pure", f"pure|{label}|{backend}", "ok" if ok else "bad", f"columns of the caller's frame afterwards: {[show(x) for x in d]}"))
        if label in NOCONFIG:
            continue
        out += roundtrip(w, f, fr, backend, label, points, vals)
    return where, out


def roundtrip(w, f, fr, backend, label, points, vals, spec=SPEC, name=RT):
    out = []
    key = f"{label}|{backend}"
    try:
        n0 = len(w.s.unknown)
        cfg = w.method(f, "to_config")
        try:
            cfg2 = json_hop(w, cfg)
        except ValueError as e:
            return [("json", f"json|{key}", "bad" if len(w.s.unknown) == n0 else "unknown", str(e))]
        out.append(("json", f"json|{key}", "ok", "every value of the configuration is a JSON value"))
        feat = w.repo.cls(KIT, "Feature")
        g = w.call(w.attr(Cls(feat), "from_config"), cfg2)
        nf, ng = w.attr(f, "name"), w.attr(g, "name")
        of, og = w.strs(w.attr(w.attr(f, "transform"), "output_name")), w.strs(w.attr(w.attr(g, "transform"), "output_name"))
        unk_ = w.s.unknown[n0:]
        for what, a, b in (("feature name", w.strs(nf), w.strs(ng)), ("column name", of, og)):
            if a is None or b is None:
                out.append(("restored-name", f"{what}|{key}".replace(" ", "-"), "unknown", "not resolved"))
                continue
            q = [streq(x, y) for x, y in zip(a, b)] if len(a) == len(b) else [F]
            s = "ok" if all(x is T for x in q) else "bad" if any(x is F for x in q) and not unk_ else "unknown"
            out.append(("restored-name", f"{what}|{key}".replace(" ", "-"), s, f"{what} {list(map(show, a))} becomes {list(map(show, b))}"))
        r1 = w.s.items(w.call(f, fr, backend=S(backend)), w.st) if False else w.call(f, fr, backend=S(backend))
        r2 = w.call(g, fr, backend=S(backend))
        x1 = [r1] if isinstance(r1, A) else w.s.items(r1, w.st)
        x2 = [r2] if isinstance(r2, A) else w.s.items(r2, w.st)
        u = w.s.unknown[n0:]
        if x1 is None or x2 is None:
            out.append(("restored", f"restored|{key}", "unknown", f"{u[:1]}"))
            return out
        if len(x1) != len(x2):
            out.append(("restored", f"restored|{key}", "bad" if not u else "unknown", f"{len(x1)} columns become {len(x2)}"))
            return out
        for i, (a, b) in enumerate(zip(x1, x2)):
            s, m = differs(w, b, a, points, vals, spec, name, u)
            out.append(("restored", f"restored|{key}|{i}", s, m))
    except PyExc as e:
        out.append(("restored", f"restored|{key}", "bad" if len(w.s.unknown) == n0 else "unknown", f"restoring always raises: {e}"))
    return out


TRF = "finmlkit.feature.transforms"
# label -> (features, retained columns, order, what each output column means (None: as the feature computes it alone))
KITS = {
    "independent": ("[X.lag(p), X + Y, abs(Y)]", ["cx"], "defined", ["lag(x, p)", "x + y", "np.abs(y)"]),
    "shared": ("[X + Y, (X + Y) * c, (X + Y) - X.lag(p), X.lag(p)]", ["cz", "cx"], "defined", ["x + y", "(x + y) * c", "x + y - lag(x, p)", "lag(x, p)"]),
    "shared_topo": ("[(X + Y) * c, X + Y, Feature.max(X + Y, Y), X.rolling_mean(w)]", [], "topo", ["(x + y) * c", "x + y", "hi2(x + y, y)", "rolling_mean(x, w)"]),
    "by_name": ("[X.log(), Feature(Lag(p, input_col='cx_log'))]", ["cy"], "defined", ["log_(x)", "lag(log_(x), p)"]),
    "by_name_topo": ("[Feature(Lag(p, input_col='cx_log')), X.log()]", [], "topo", ["lag(log_(x), p)", "log_(x)"]),
    "chain_topo": ("[Feature(Lag(p, input_col='cx_log_square')), X.log().square(), X.log()]", [], "topo", ["lag(log_(x) * log_(x), p)", "log_(x) * log_(x)", "log_(x)"]),
    "renamed": ("[named(X * c, 'mine'), (X * c) + 1]", [], "defined", ["x * c", "x * c + 1"]),
    "several_outputs": ("[Feature(CandleShape(input_cols=['cx', 'cy', 'cz', 'cx', 'cy'])), X - Y]", ["cy"], "defined", None),
    "composed": ("[Feature(Compose(Lag(p, input_col='cx'), Lag(w, input_col='step'))), X.lag(p)]", [], "defined", ["lag(lag(x, p), w)", "lag(x, p)"]),
    "minmax_consts": ("[Feature.min(X, c), Feature.max(X, c), X.clip(lower=0), c - X]", ["cx", "cy", "cz"], "defined", ["lo2(x, c)", "hi2(x, c)", "at_least(x, 0)", "c - x"]),
}


def _named(w, env):
    env = dict(env)
    for n in ("Lag", "CandleShape", "SMA", "Identity"):
        try:
            env[n] = Cls(w.repo.cls(TRF, n))
        except Exception:     # noqa: BLE001
            pass

    def nm(text, name):
        f = w.expr(text, KIT, **env)
        w.s.setattrv(f, "name", S(name), w.st)
        return f
    return env, nm


def features(w, env, text):
    """the list of feature objects a text denotes"""
    env, nm = _named(w, env)
    t = ast.parse(text, mode="eval").body
    out = []
    for e in t.elts:
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "named":
            out.append(nm(ast.unparse(e.args[0]), e.args[1].value))
        else:
            out.append(w.expr(ast.unparse(e), KIT, **env))
    return out


def columns(w, v):
    r = w.st.heap.get(v.aid) if isinstance(v, Ref) and v.kind == "frame" else None
    return r.d if isinstance(r, Rec) and r.ix != "open" or isinstance(r, Rec) else None


def kit_unit(root, label, points):
    repo = Repo(root)
    text, retain, order, refs = KITS[label]
    kit = repo.cls(KIT, "FeatureKit")
    where = f"{kit._mod.path}:{kit.lineno}"
    out, vals = [], {}
    for backend in ("pd", "nb"):
        for restored in (False, True):
            tag = f"{label}|{backend}" + ("|restored" if restored else "")
            w, fr, env = world(repo)
            n0 = len(w.s.unknown)
            try:
                fs = features(w, env, text)
                k = w.s.construct(kit if w.repo is repo else w.repo.cls(KIT, "FeatureKit"), [w.s.plist(w.st, fs)], {"retain": w.s.plist(w.st, [S(c) for c in retain])}, w.st)
                names = []
                for f in fs:
                    names += w.strs(w.attr(f, "name")) or ["?"]
                if restored:
                    cfg = w.method(k, "to_config")
                    try:
                        cfg = json_hop(w, cfg)
                    except ValueError as e:
                        out.append(("json", f"json|{tag}", "bad" if len(w.s.unknown) == n0 else "unknown", str(e)))
                        continue
                    k = w.call(w.attr(Cls(w.repo.cls(KIT, "FeatureKit")), "from_dict"), cfg)
                res = w.method(k, "build", fr, backend=S(backend), order=S(order))
            except PyExc as e:
                out.append(("restored-kit" if restored else "kit", f"build|{tag}", "bad" if len(w.s.unknown) == n0 else "unknown", f"build always raises: {e}"))
                continue
            u = w.s.unknown[n0:]
            d = columns(w, res)
            rule = "restored-kit" if restored else "kit"
            if d is None or u:
                out.append((rule, f"build|{tag}", "unknown", f"not modelled: {u[:1]}"))
                continue
            have, want = [str(x) for x in d], retain + names
            ok = have == want if order == "defined" else sorted(have) == sorted(want)
            q = ok or len(have) != len(want) or any(streq(a, b) is F for a, b in zip(sorted(have), sorted(want)))
            out.append((rule, f"columns|{tag}", "ok" if ok else "bad" if q or order == "defined" else "unknown", f"columns {list(map(show, have))}, expected {list(map(show, want))}"))
            mine = [str(x) for x in w.st.heap[fr.aid].d]
            out.append((rule, f"input|{tag}", "ok" if mine == ["cx", "cy", "cz"] else "bad", f"the caller's frame has {list(map(show, mine))} afterwards"))
            if not ok:
                continue
            cells = {str(x): v for x, v in d.items()}
            for c in retain:
                s, m = differs(w, cells[c], w.s.framecol(fr, S(c), w.st), points, vals)
                out.append((rule, f"retained|{tag}|{c}", s, m))
            if refs is None:
                alone = []
                for f in features(w, env, text):
                    r = w.call(f, fr, backend=S(backend))
                    alone += [r] if isinstance(r, A) else list(w.s.items(r, w.st) or [])
            else:
                alone = [reference(w, r, env, fr) for r in refs]
            if len(alone) != len(names):
                continue
            for i, (n, r) in enumerate(zip(names, alone)):
                s, m = differs(w, cells[n], r, points, vals, unks=w.s.unknown[n0:])
                out.append((rule, f"column|{tag}|{i}", s, f"{show(n)}: {m}"))
    return where, out


# expressions whose restored form must equal the original (their meaning is decided elsewhere)
RESTORED = {
    "composed": "Feature(Compose(ReturnT(window=tw, input_col='cx'), EWMST(half_life=th)))",
    "composed_three": "Feature(Compose(Lag(p, input_col='cx'), SMA(w, input_col='s1'), ZScore(w, input_col='s2')))",
    "composed_in_expression": "(Feature(Compose(Lag(p, input_col='cx'), SMA(w, input_col='s1'))) - Y) / 2",
    "operators_over_transforms": "Feature.max(Feature(SMA(w, input_col='cx')) / Feature(EWMA(p, input_col='cy')), c).ema(w, adjust=False)",
    "several_inputs": "abs(Feature(VPIN(w, input_cols=['cy', 'cx'])) - Feature(VWAPDistance(p, input_cols=['cz', 'cx'])))",
    "several_outputs": "Feature(CandleShape(input_cols=['cx', 'cy', 'cz', 'cy', 'cx']))",
    "external": "Feature(ExternalFunction('numpy.log', input_cols='cx', output_cols='lg', pass_numpy=True))",
    "external_pandas": "Feature(ExternalFunction('numpy.add', input_cols=['cy', 'cx']))",
    "renamed_base": "named(X - Y, 'mine').rolling_sum(w)",
}


def rt_unit(root, label, points):
    repo = Repo(root)
    fn_ = repo.func(UTL, "transform_from_config")
    where = f"{fn_._mod.path}:{fn_.lineno}"
    out = []
    for backend in ("pd", "nb"):
        w, fr, env = world(repo)
        env, nm = _named(w, env)
        for n in ("ReturnT", "EWMST", "ZScore", "EWMA", "VPIN", "VWAPDistance", "ExternalFunction"):
            env[n] = Cls(w.repo.cls(TRF, n))
        for n in ("tw", "th"):
            v = par(n, True)
            w.st.facts = w.st.facts | {cmp(">=", v, ONE)}
            env[n] = Td(mul(v, C(10 ** 9)))
        text = RESTORED[label]
        try:
            t = ast.parse(text, mode="eval").body
            for c in [x for x in ast.walk(t) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "named"]:
                env["_named"] = nm(ast.unparse(c.args[0]), c.args[1].value)
                text = text.replace(ast.unparse(c), "_named")
            f = w.expr(text, KIT, **env)
        except PyExc as e:
            out.append(("restored", f"restored|{label}|{backend}", "unknown", f"cannot be written: {e}"))
            continue
        out += roundtrip(w, f, fr, backend, label, points, {}, spec=SPEC + " tw:i th:i")
    return where, out


def class_unit(root, name, points):
    """configuration round trip of one transform class, all switch settings"""
    from . import oclasses as oc
    repo = Repo(root)
    cls = oc.concrete(repo)[name]
    where = f"{cls._mod.path}:{cls.lineno}"
    out = []
    for var in oc.variants(repo, cls):
        tag = ",".join(f"{k}={str(v) if isinstance(v, S) else v is T}" for k, v in var.items())
        lab = f"{name}|{tag}" if tag else name
        for backend in ("pd", "nb"):
            try:
                w, c2, ref, o, fr, roles = oc.setup(repo, name, var)
                f = w.s.construct(w.repo.cls(KIT, "Feature"), [o], {}, w.st)
            except PyExc as e:
                out.append(("restored", f"restored|{lab}|{backend}", "unknown", f"not constructible: {e}"))
                continue
            n0 = len(w.s.unknown)
            rs = roundtrip(w, f, fr, backend, lab, points, {}, spec=oc.specs(w, roles), name=name)
            # where the calls are not modelled: the restored object has the same attributes
            if any(r[0] == "restored" and r[2] == "unknown" for r in rs):
                try:
                    g = w.call(w.attr(Cls(w.repo.cls(KIT, "Feature")), "from_config"), json_hop(w, w.method(f, "to_config")))
                    if sameval(w, w.attr(f, "transform"), w.attr(g, "transform")):
                        rs = [(a, b, "ok" if a == "restored" and s == "unknown" else s, "the restored object has the same class and attributes" if s == "unknown" and a == "restored" else m) for a, b, s, m in rs]
                except (PyExc, ValueError):
                    pass
            out += rs
    return where, out

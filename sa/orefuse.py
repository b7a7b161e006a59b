"""Refusal at the object level: which requests raise instead of returning, by abstract interpretation of construction and call."""
from __future__ import annotations
import ast
from fractions import Fraction as Fr
from .expr import *
from .summ import A, S, NONE, OK, boolify, St, T as TRUE
from .osumm import Ser, Idx, Ref, Td, Ts, PyExc
from .ounits import World, concrete
from .repo import Repo, AnalysisBroken
from . import obars, valgen, agree
from .obars import params, trades, ref, where_
from .olabel import frame

DM, LK, TF, FB, FK, FU, IO = ("finmlkit.bar.data_model", "finmlkit.label.kit", "finmlkit.feature.transforms", "finmlkit.feature.base",
                              "finmlkit.feature.kit", "finmlkit.feature.utils", "finmlkit.bar.io")
TR = "ts:t:nT prices:a:nT volumes:a:nT sides:s:nT ids:t0:nT ibm:s:nT"
_r = lambda *xs: lambda g, l, p: Fr(g.choice(xs))

# name -> (module, class or None, method, specs, setup, steps, expectation)
#   setup(w, p) -> environment; steps: expressions evaluated in turn; expectation: True (refused), False (accepted), or the name of a condition
CASES = {}


def case(label, mod, cls, meth, steps, expect, env=None, specs="", over=None):
    CASES[label] = (mod, cls, meth, [steps] if isinstance(steps, str) else steps, expect, env or (lambda w, p: {}), specs)
    if over:
        valgen.OVER["refuses " + label] = over


def attempt(w, mod, steps, env):
    """-> ("raised", text) or ("ran", condition under which every step returns, value)"""
    s, st = w.s, w.st
    s.mods.append(w.repo.modules[mod])
    old = st.env
    st.env = {**env, OK: TRUE}
    v = None
    try:
        for x in steps:
            node = ast.parse(x).body[0]
            if isinstance(node, ast.Assign):
                st.env[node.targets[0].id] = s.ev(node.value, st)
            else:
                v = s.ev(node.value, st)
        return "ran", st.env.get(OK, TRUE), v
    except PyExc as e:
        return "raised", st.env.get(OK, TRUE), str(e)
    finally:
        st.env = old
        s.mods.pop()


def case_unit(root, label, points):
    mod, cls, meth, steps, expect, setup, specs = CASES[label]
    repo = Repo(root)
    where = where_(repo, mod, cls, meth) if cls else repo.where(repo.func(mod, meth)) if hasattr(repo, "where") else f"{mod}.{meth}"
    w = World(repo)
    p = params(w, specs) if specs else {}
    env = setup(w, p)
    n0 = len(w.s.unknown)
    how, ok, v = attempt(w, mod, steps, env)
    u = w.s.unknown[n0:]
    key = f"refused|{label}"
    if u:
        return where, [("refused", key, "unknown", f"not modelled {u[:1]}")]
    if expect is True:
        if how == "raised" or ok is F:
            return where, [("refused", key, "ok", f"always refused ({v})")]
        if ok is TRUE:
            return where, [("refused", key, "bad", f"{label}: nothing on the path refuses this input, a value is returned")]
    if expect is False:
        if how == "raised":
            return where, [("refused", key, "bad", f"{label}: a valid input is always refused ({v})")]
        if ok is TRUE:
            return where, [("refused", key, "ok", "returns on every input")]
    if how == "raised":
        ok = F
    want = TRUE if expect is True else F
    if isinstance(expect, str):
        w.s.mods.append(w.repo.modules["sa.spec.refuse"])
        from .summ import Fnc
        f = w.repo.modules["sa.spec.refuse"].funcs["refuses_" + expect]
        want = w.s.run(Fnc(f, w.repo.modules["sa.spec.refuse"]), {a.arg: p[a.arg] if a.arg in p else env[a.arg] for a in f.args.args}, St({}, dict(w.st.heap), w.st.facts))
        w.s.mods.pop()
    got = ite(not_(ok), ONE, ZERO)
    wt = ite(boolify(want), ONE, ZERO)
    st, m = agree.one(specs, "refuses " + label, ("refused", None, None, got), ("refused", None, None, wt), {}, points * 3)
    return where, [("refused", key, {"same": "ok", "agree": "ok", "differ": "bad"}.get(st, "unknown"), f"{label}: {m or 'normal forms are identical'}")]


# ------------------------------------------------------------------ trade tables
def td_env(w, p):
    return {"ts": p["ts"], "px": p["prices"], "qty": p["volumes"], "ids": p["ids"], "ibm": p["ibm"], "side": p["sides"]}


def td(label, text, expect):
    case("trades: " + label, DM, "TradesData", "__init__", f"TradesData({text})", expect, td_env, TR)


td("milliseconds with everything", "ts, px, qty, ids, is_buyer_maker=ibm, timestamp_unit='ms', preprocess=True", False)
td("unknown time unit", "ts, px, qty, ids, is_buyer_maker=ibm, timestamp_unit='min', preprocess=True", True)
td("unknown resolution", "ts, px, qty, ids, is_buyer_maker=ibm, timestamp_unit='ms', proc_res='h', preprocess=True", True)
td("preparing without identifiers", "ts, px, qty, is_buyer_maker=ibm, timestamp_unit='ms', preprocess=True", True)
td("unprepared without identifiers", "ts, px, qty, side=side, timestamp_unit='ns'", False)
for i, n in enumerate(("ts", "px", "qty", "ids")):
    a = ["ts", "px", "qty", "ids"]
    a[i] = "[1.0, 2.0]"
    td(f"{n} as a list", ", ".join(a) + ", timestamp_unit='ns'", True)
td("flags as a list", "ts, px, qty, ids, is_buyer_maker=[True], timestamp_unit='ns'", True)
td("sides as a list", "ts, px, qty, ids, side=[1], timestamp_unit='ns'", True)
case("view: end not after start", DM, "TradesData", "set_view_range", "t.set_view_range(pd.Timestamp(start), pd.Timestamp(end))", "view",
     lambda w, p: {"t": trades(w, p), "start": p["start"], "end": p["end"]}, "ts:t:nT prices:a:nT volumes:a:nT sides:s:nT start:T end:T")


# ------------------------------------------------------------------ labelling
def tb_env(w, p):
    t = p["et"]
    ix = Idx(t.aid, t.off, t.ln)
    w.s.rowidx = ix
    e = {**p, "t": trades(w, p), "f": frame(w, {"feat": p["feat"], "target": p["target"], "side": p["side"]}, ix),
         "noside": frame(w, {"feat": p["feat"], "target": p["target"]}, ix),
         "floatside": frame(w, {"target": p["target"], "side": p["feat"]}, ix), "vb": Td(mul(p["vb"], C(10 ** 9))), "mct": Td(mul(p["mct"], C(10 ** 9)))}
    e["noindex"] = w.s.rec(w.st, "frame", d={S("target"): Ser(p["target"].aid, p["target"].off, p["target"].ln, S("target"))}, ln=p["target"].ln, ix=NONE)
    return e


TB = TR + " et:t:nE feat:a:nE target:a:nE side:s:nE min_ret:N h0:F h1:F vb:F mct:F"


TBO = {"min_ret": _r(0, 0, Fr(1, 2), 1, 3, 8, -1, Fr(-1, 2)), "target": lambda g, l, p: [Fr(g.randint(0, 6), 2) for _ in range(l["nE"])]}


def tb(label, f, expect, r="0.0", h="(h0, h1)", m="False", name="'target'", more=(), meth="__init__"):
    case("labels: " + label, LK, "TBMLabel", meth, [f"b = TBMLabel({f}, {name}, {r}, {h}, vb, mct, is_meta={m})", *more], expect, tb_env, TB, TBO)


tb("thresholds", "f", "labels", r="min_ret")
tb("thresholds (meta)", "f", "labels", r="min_ret", m="True")
tb("target column missing", "f", True, name="'other'")
tb("target column missing (meta)", "f", True, name="'other'", m="True")
tb("barriers as a list", "f", True, h="[h0, h1]")
tb("one barrier", "f", True, h="(h0,)")
tb("three barriers", "f", True, h="(h0, h1, h1)")
tb("negative minimum return", "f", True, r="-0.5")
tb("meta labels without a side", "noside", True, m="True")
tb("meta labels with a fractional side", "floatside", True, m="True")
tb("rows without times", "noindex", True)
tb("results before labelling", "f", True, more=["b.labels"], meth="labels")
tb("returns before labelling", "f", True, more=["b.event_returns"], meth="event_returns")
tb("output before labelling", "f", True, more=["b.full_output"], meth="full_output")
tb("weights before labelling", "f", True, more=["b.compute_weights(t)"], meth="compute_weights")
tb("labelling without a trade table", "f", True, more=["b.compute_labels(ts)"], meth="compute_labels")


def sw_env(w, p):
    t, u = p["et"], p["other"]
    ix, jx = Idx(t.aid, t.off, t.ln), Idx(u.aid, u.off, u.ln)
    w.s.rowidx = ix
    e = {**p, "t": trades(w, p)}
    for n in ("au", "ra", "vw", "labels"):
        e[n] = Ser(p[n].aid, p[n].off, p[n].ln, S(n))
    w.s.indexof = {}
    for n in ("ra", "vw", "labels"):
        a = w.col(n, t.ln, "s" if n == "labels" else "a")
        w.s.indexof[a.aid] = jx
        e["moved_" + n] = Ser(a.aid, a.off, a.ln, S(n))
    e["ev"] = frame(w, {"event_idx": p["event_idx"], "touch_idx": p["touch"]}, ix)
    e["evonly"] = frame(w, {"event_idx": p["event_idx"]}, ix)
    return e


SW = TR + " event_idx:ix:nE:0:nT-1 touch:ix:nE:0:nT-1 et:t:nE other:t:nE au:a:nE ra:a:nE vw:a:nE labels:s:nE last:N"


def sw(label, text, expect, meth="compute_final_weights", **kw):
    case("weights: " + label, LK, "SampleWeights", meth, f"SampleWeights.{meth}({text})", expect, sw_env, SW, **kw)


sw("intercept", "au, time_decay_intercept=last", "decay", over={"last": _r(0, 1, -1, Fr(1, 2), Fr(-1, 2), Fr(9, 8), Fr(-9, 8), 2, -2)})
sw("uniqueness as an array", "au.values, time_decay_intercept=0.5", True)
sw("attribution as an array", "au, return_attribution=ra.values", True)
sw("vertical weights as an array", "au, vertical_touch_weights=vw.values", True)
sw("labels as an array", "au, labels=labels.values", True)
sw("intercept as a word", "au, time_decay_intercept='half'", True)
sw("events without touch positions", "t, evonly, normalize=True", True, "compute_info_weights")
sw("events as an array", "t, ts, normalize=True", True, "compute_info_weights")
sw("trades as an array", "ts, ev, normalize=True", True, "compute_info_weights")
sw("attribution", "au, return_attribution=ra, time_decay_intercept=1.0", "attribution", over={"ra": lambda g, l, p: [Fr(g.choice([0, 0, 0, 1])) for _ in range(l["nE"])]})
for a, b in (("return_attribution", "ra"), ("vertical_touch_weights", "vw"), ("labels", "labels")):
    sw(f"{a} of other events", f"au, {a}=moved_{b}, time_decay_intercept=1.0", "events",
       over={"other": lambda g, l, p: list(p["arrays"]["et"]) if g.random() < 0.5 else [x + g.choice([0, 1]) for x in p["arrays"]["et"]], "last": _r(1)})


# ------------------------------------------------------------------ transforms
def instance(w, name):
    cls = concrete(w.repo)[name]
    init = w.s.findm(cls, "__init__")
    d = dict(zip([a.arg for a in init.args.args[::-1]], init.args.defaults[::-1]))
    fixed = {a.arg: S("close") for a in init.args.args if a.arg == "input_col" and (a.arg not in d or ast.unparse(d[a.arg]) == "None")}
    return w.make(cls, **fixed)


def sometimes(w, ok, what, points):
    """a request that should always be refused"""
    if ok is F:
        return "ok", "refused"
    if ok is TRUE:
        return "bad", f"{what}: not refused, a result is returned"
    names = roles(ok)
    spec = " ".join([n + (":t:n" if n == "timestamps" else ":a:n") for n in sorted(names | {"close"})] + [f"{n}:{k}" for n, k in w.params.items()])
    st, m = agree.one(spec, "refuses " + what, ("refused", None, None, ite(not_(ok), ONE, ZERO)), ("refused", None, None, ONE), {}, points * 3)
    return {"same": "ok", "agree": "ok", "differ": "bad"}.get(st, "unknown"), f"{what}: {m or 'always refused'}"


def roles(e):
    out = set()

    def go(x):
        if isinstance(x, N):
            if x.h == "el" and isinstance(x.a[0], str):
                out.add(x.a[0])
            for y in x.a:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(e)
    return out


SKIP = {"ExternalFunction"}           # needs a caller's function; covered by the cases below
ANYBACKEND = {"Identity"}             # passes its column on: there is no backend to choose


def transform_unit(root, name, points):
    repo = Repo(root)
    c = concrete(repo)[name]
    where = f"{c._mod.path}:{c.lineno}"
    out = []

    def attempt_(what, key, f):
        w = World(repo)
        try:
            o = instance(w, name)
            req = w.strs(w.attr(o, "requires"))
        except PyExc as e:
            out.append(("refused", key, "unknown", f"construction: {e}"))
            return None
        n0 = len(w.s.unknown)
        w.st.env[OK] = TRUE
        try:
            v = f(w, o, req)
        except PyExc as e:
            out.append(("refused", key, "ok" if len(w.s.unknown) == n0 else "unknown", f"refused ({str(e)[:80]})"))
            return
        ok, u = w.st.env.get(OK, TRUE), w.s.unknown[n0:]
        if ok is F and not u:
            out.append(("refused", key, "ok", "refused"))
        elif u:
            out.append(("refused", key, "unknown", f"not modelled {u[:1]}"))
        else:
            out.append(("refused", key, *sometimes(w, ok, f"{name}: {what}", points)))
    w0 = World(repo)
    try:
        cols = w0.strs(w0.attr(instance(w0, name), "requires")) or []
    except PyExc:
        cols = []
    for be in ("pd", "nb"):
        for c in cols:
            def run(w, o, req, c=c):
                return w.call(o, w.frame({x: x for x in [*(q for q in req if q != c), "unrelated"]}), backend=S(be))
            attempt_(f"a table without column '{c}' ({be})", f"refused|{name}|{be}|without {c}", run)
        attempt_(f"an array in place of a table ({be})", f"refused|{name}|{be}|array", lambda w, o, req: w.call(o, w.col("close", w.axis()), backend=S(be)))
    if name not in ANYBACKEND:
        attempt_("an unknown backend", f"refused|{name}|backend", lambda w, o, req: w.call(o, w.frame({x: x for x in req}), backend=S("cuda")))
    return where, out


def notime_unit(root, name, points):
    """computations that need the times of the rows refuse rows without times"""
    repo = Repo(root)
    c = concrete(repo)[name]
    where = f"{c._mod.path}:{c.lineno}"
    out = []
    for be in ("pd", "nb"):
        key = f"refused|{name}|{be}|without times"
        w = World(repo)
        o = instance(w, name)
        rec = w.st.heap[w.frame({x: x for x in w.strs(w.attr(o, "requires"))}).aid]
        q = freshix()
        fr = w.s.rec(w.st, "frame", d=rec.d, ln=rec.ln, ix=w.s.new(w.st, rec.ln, q, q))
        w.s.rowidx, w.s.plain = None, True
        n0 = len(w.s.unknown)
        w.st.env[OK] = TRUE
        try:
            w.call(o, fr, backend=S(be))
        except PyExc as e:
            out.append(("refused", key, "ok" if len(w.s.unknown) == n0 else "unknown", f"refused ({str(e)[:80]})"))
            continue
        ok, u = w.st.env.get(OK, TRUE), w.s.unknown[n0:]
        out.append(("refused", key, *(("unknown", f"not modelled {u[:1]}") if u else sometimes(w, ok, f"{name}: rows without times", points))))
    return where, out


NOTIME = ["ReturnT", "EWMST", "TimeCues", "DailyGap", "ORBBreak", "BarRate", "BarDurationEWMA", "BarDuration"]


# ------------------------------------------------------------------ footprints
def fp_env(w, p):
    return {"fp": obars.container(w, p), **({"k": p["k"]} if "k" in p else {}), "p": p["tick"], "cls": None, **{n: p[n] for n in obars.PERBAR}}


for k in (0, 1, 3, -1, -2, -4):
    case(f"footprint: position {k}", obars.FP, "FootprintData", "__getitem__", f"fp[{k}]", "position", lambda w, p, k=k: {**fp_env(w, p), "k": C(k)}, obars.FPSPEC)
case("footprint: a name as position", obars.FP, "FootprintData", "__getitem__", "fp['3']", True, fp_env, obars.FPSPEC)
case("footprint: a fraction as position", obars.FP, "FootprintData", "__getitem__", "fp[1.5]", True, fp_env, obars.FPSPEC)
for n in obars.PERBAR[1:]:
    q = [s for s in obars.FPSPEC.split() if s.split(":")[0] == n][0]
    case(f"footprint: another number of bars in {n}", obars.FP, "FootprintData", "from_numba", "FootprintData.from_numba((" + ", ".join(obars.PERBAR) + "), p)", "lengths_" + n,
         fp_env, obars.FPSPEC.replace(q, q.rsplit(":", 1)[0] + ":m"), {"lens": lambda g, l: l.__setitem__("m", max(1, l[[k for k in l if k != "m"][0]] + g.choice([0, 0, 1, -1])))})


# ------------------------------------------------------------------ features and configurations
def ft_env(w, p):
    from . import ofeature
    _, fr, env = _ft(w)
    return {**env, "df": fr}


def _ft(w):
    from .osumm import Cls
    fr = w.frame({"cx": "x", "cy": "y"})
    env = {}
    for n, c in (("X", "cx"), ("Y", "cy")):
        t = w.s.construct(w.repo.cls(TF, "Identity"), [S(c)], {}, w.st)
        env["t" + n] = t
        env[n] = w.s.construct(w.repo.cls(FK, "Feature"), [t], {}, w.st)
    for n in ("Lag", "SMA", "ExternalFunction", "BollingerPercentB", "Identity"):
        if n in w.repo.modules[TF].classes:
            env[n] = Cls(w.repo.cls(TF, n))
    return w, fr, env


FT = "x:a:n y:a:n timestamps:t:n"


def ft(label, mod, cls, meth, steps, expect):
    case("features: " + label, mod, cls, meth, steps, expect, ft_env, FT)


for k, extra in (("binary", "'left': c, 'right': c"), ("minmax", "'left': c, 'right': c"), ("const", "'child': c, 'constant': 2.0"), ("unary", "'child': c")):
    ft(f"unknown {k} operation", FU, None, "transform_from_config", ["c = transform_to_config(tX)", f"transform_from_config({{'kind': '{k}', {extra}, 'op_name': 'power'}})"], True)
ft("restored known operation", FU, None, "transform_from_config", ["c = transform_to_config(tX)", "transform_from_config({'kind': 'binary', 'left': c, 'right': c, 'op_name': 'sub'})"], False)
ft("external function without a function", FU, None, "transform_from_config", "transform_from_config({'kind': 'external', 'requires': ['cx'], 'produces': ['u']})", True)
ft("external function without columns", FU, None, "transform_from_config", "transform_from_config({'kind': 'external', 'func': 'numpy.exp', 'produces': ['u']})", True)
for op in "+-*/":
    ft(f"feature {op} text", FK, "Feature", "__add__", f"X {op} 'a'", True)
    ft(f"text {op} feature", FK, "Feature", "__add__", f"'a' {op} X", True)
ft("external result with another number of columns", TF, "ExternalFunction", "__call__",
   "ExternalFunction(lambda a: (a, a, a), input_cols='cx', output_cols=['u', 'v'])(df)", True)
ft("external single result named twice", TF, "ExternalFunction", "__call__", "ExternalFunction(lambda a: (a, a), input_cols='cx', output_cols='u')(df)", True)
ft("external function without its column", TF, "ExternalFunction", "__call__", "ExternalFunction(lambda a: a, input_cols='cz', output_cols='u')(df)", True)
ft("external function on an array", TF, "ExternalFunction", "__call__", "ExternalFunction(lambda a: a, input_cols='cx', output_cols='u')(df['cx'].values)", True)
ft("composition on an unknown backend", FK, "Compose", "__call__", "Compose(Lag(2, input_col='cx'), SMA(3, input_col='step'))(df, backend='cuda')", True)
ft("composition without its column", FK, "Compose", "__call__", "Compose(Lag(2, input_col='cz'), SMA(3, input_col='step'))(df)", True)
ft("feature without its column", FK, "Feature", "__call__", "Feature(Lag(2, input_col='cz'))(df)", True)
ft("sum without a column", FK, "Feature", "__call__", "(X + Feature(Identity('cz')))(df)", True)
ft("batch without a column", FK, "FeatureKit", "build", "FeatureKit([X, Feature(Lag(2, input_col='cz'))], retain=['cx']).build(df)", True)
ft("batch that keeps a missing column", FK, "FeatureKit", "build", "FeatureKit([X], retain=['cz']).build(df)", True)


# ------------------------------------------------------------------ stored data
def files_unit(root, label, points):
    from . import ostore, oklines
    out = []

    def refused(s, what, f):
        key = f"refused|{label}|{what}"
        s.w.st.env[OK] = TRUE
        try:
            f()
        except PyExc:
            return s.add("ok", "refused", key, f"{what}: refused")
        ok = s.w.st.env.get(OK, TRUE)
        s.add("ok" if ok is F else "bad" if ok is TRUE else "unknown", "refused", key, f"{what}: " + ("refused" if ok is F else "not refused, something is returned"))

    def body(s):
        w = s.w
        if label == "stored trades":
            s.save("A", "2021-03")
            from .osumm import Cls
            b = Cls(w.repo.cls(IO, "AddTimeBarH5"))
            for ks in (["2021-07"], ["2021-03", "2021-07"], ["2021-07", "2021-08"]):
                refused(s, f"bars of the months {', '.join(ks)}", lambda: w.call(b, ostore.PATH, w.s.plist(w.st, [S(k) for k in ks])))
            i = ostore.inspector(s)
            for m in ("get_metadata", "get_integrity_info", "get_statistics"):
                refused(s, f"{m} of an absent month", lambda: w.method(i, m, S("/trades/2021-07")))
            refused(s, "loading an absent month", lambda: s.load(key=S("2021-07")))
            refused(s, "loading times after every stored month", lambda: s.load(start_time=Ts(add(s.last("A"), ONE))))
            refused(s, "loading times before every stored month", lambda: s.load(end_time=Ts(sub(s.first("A"), ONE))))
        else:
            for t, m in (("A", "2021-03"), ("B", "2021-04")):
                s.put(t, m)
            for a, b in (("firstB", "firstA+"), ("lastB", "firstB"), ("lastA", "firstA+")):
                lo, hi = ostore.bound(s, a), ostore.bound(s, b)
                oklines.midnight(s, hi, False)
                w.st.facts = w.st.facts | {cmp(">=", sub(lo, hi), ONE), not_(cmp(">=", hi, lo))}
                refused(s, f"reading from {a} until {b}", lambda: w.method(s.reader(), "read", start_time=Ts(lo), end_time=Ts(hi)))
    if label == "stored trades":
        return ostore.run(root, label, points, body, "load_trades_h5")
    return oklines.run(root, label, points, body, "TimeBarReader", "read", *FILES[label])


FILES = {"stored trades": (), "stored bars": ("", "AB")}

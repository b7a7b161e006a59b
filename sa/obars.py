"""Bar builders, bar kits and footprint containers at the object level: which column is which quantity of which bar."""
from __future__ import annotations
from .expr import *
from . import sdrive, agree
from .summ import A, S, NONE
from .osumm import Ser, Idx, Ref, Td, Ts, PyExc, show, Slice
from .ounits import World, NS
from .repo import Repo, AnalysisBroken

TRADES = "ts:t:nT prices:a:nT volumes:a:nT sides:s:nT"
BOUNDS = TRADES + " ci:ix:nB+1:-1:nT-1:first cts:t:nB+1"
DIR = ["ticks_buy", "ticks_sell", "volume_buy", "volume_sell", "dollars_buy", "dollars_sell", "mean_spread", "max_spread", "cum_ticks_min", "cum_ticks_max",
       "cum_volume_min", "cum_volume_max", "cum_dollars_min", "cum_dollars_max"]
OHLCV = ["open", "high", "low", "close", "volume", "vwap", "trades", "median_trade_size"]
SIZE = ["mean_size_rel", "size_95_rel", "pct_block", "size_gini"]
FOOT = ["price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances", "buy_imbalances_sum", "sell_imbalances_sum",
        "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini"]
PERBAR = ["bar_timestamps"] + FOOT


def params(w, spec):
    return {s.split(":")[0]: sdrive.param(w.s, w.st, s) for s in spec.split()}


def trades(w, p):
    td = w.repo.cls("finmlkit.bar.data_model", "TradesData")
    t = p["ts"]
    return w.s.construct(td, [t, p["prices"], p["volumes"]], {"side": p["sides"], "dt_index": Idx(t.aid, t.off, t.ln), "timestamp_unit": S("ns")}, w.st)


def spec_fn(w, name):
    hits = [m.funcs[name] for n, m in w.repo.modules.items() if n.startswith("sa.spec.") and name in m.funcs]
    if len(hits) != 1:
        raise AnalysisBroken("definition of " + name)
    return hits[0]


def ref(w, name, args):
    f = spec_fn(w, name)
    n0 = len(w.s.unknown)
    v = w.s.native_call(f, f._mod, dict(zip([a.arg for a in f.args.args], args)), w.st)
    if len(w.s.unknown) > n0:
        raise AnalysisBroken(f"definition {name}: {w.s.unknown[n0:]}")
    return list(v) if isinstance(v, tuple) else [v]


def cells(w, v):
    if isinstance(v, (Ser, Idx)):
        v = A(v.aid, v.off, v.ln)
    if isinstance(v, A):
        v = w.s.live(v, w.st)
    o = sdrive.outputs(sdrive.Sum(w.s, v, w.st, None, None))
    return o[0] if len(o) == 1 else None


def compare(w, got, want, spec, name, points, vals, u, lab):
    if u:
        return "unknown", f"not modelled: {u[0]}"
    if not isinstance(got, (A, N)) and got is not NONE:
        xs = w.s.items(got, w.st)
        return "unknown", "not an array"
    if got is NONE or want is NONE:
        return ("ok", "") if got is want else ("bad", f"{'nothing' if got is NONE else 'a value'} where {'nothing' if want is NONE else 'a value'} is documented")
    a, b = cells(w, got), cells(w, want)
    if a is None or b is None:
        return "unknown", "shape"
    if (a[1] is None) != (b[1] is None):
        return "bad", f"{'a scalar' if a[1] is None else 'an array'} where {'a scalar' if b[1] is None else 'an array'} is documented"
    if isinstance(a[1], tuple) != isinstance(b[1], tuple):
        return "unknown", "shape"
    s, m = agree.one(spec, name, (lab, *a[1:]), (lab, *b[1:]), vals, points)
    return {"same": "ok", "agree": "ok", "differ": "bad"}.get(s, "unknown"), m or "normal forms are identical"


def where_(repo, mod, cls, meth=None):
    c = repo.cls(mod, cls)
    m = repo.method(c, meth) if meth else None
    return f"{c._mod.path}:{(m or c).lineno}"


# ------------------------------------------------------------------- frames of bars
def unlabelled(rec, unknowns):
    """a table without row labels of its own"""
    return ("bad", "index: rows are numbered, they carry no times") if rec.ix is None and not unknowns else ("unknown", "index not modelled")


def builder_unit(root, kind, points):
    repo = Repo(root)
    base = "finmlkit.bar.base"
    meth = {"ohlcv": "build_ohlcv", "directional": "build_directional_features", "size": "build_trade_size_features"}[kind]
    where = where_(repo, base, "BarBuilderBase", meth)
    out = []
    for before in ((), ("build_ohlcv",)) if kind != "ohlcv" else ((), ("build_directional_features",)):
        tag = kind + ("|after " + before[0] if before else "")
        w = World(repo)
        spec = BOUNDS + (" theta:a:nB theta_mult:F" if kind == "size" else "")
        p = params(w, spec)
        n0 = len(w.s.unknown)
        try:
            b = w.s.construct(w.repo.cls("sa.spec.objects", "Bars"), [trades(w, p), p["cts"], p["ci"]], {}, w.st)
            for m in before:
                w.method(b, m)
            r = w.method(b, meth, *([p["theta"]] if kind == "size" else []), **({"theta_mult": p["theta_mult"]} if kind == "size" else {}))
        except PyExc as e:
            out.append(("columns", f"columns|{tag}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}"))
            continue
        u = w.s.unknown[n0:]
        rec = w.st.heap.get(r.aid) if isinstance(r, Ref) and r.kind == "frame" else None
        if rec is None or u:
            out.append(("columns", f"columns|{tag}", "unknown", f"not modelled {u[:1]}"))
            continue
        if kind == "ohlcv":
            names, want = OHLCV, ref(w, "comp_bar_ohlcv", [p["prices"], p["volumes"], p["ci"]])
        elif kind == "directional":
            names, want = DIR, ref(w, "comp_bar_directional_features", [p["prices"], p["volumes"], p["ci"], p["sides"]])
        else:
            names, want = SIZE, ref(w, "comp_bar_trade_size_features", [p["volumes"], p["theta"], p["ci"], p["theta_mult"]])
        have = [str(k) for k in rec.d]
        out.append(("columns", f"columns|{tag}", "ok" if sorted(have) == sorted(names) else "bad", f"columns {have}"))
        d = {str(k): v for k, v in rec.d.items()}
        vals = {}
        for n, x in zip(names, want):
            if n in d:
                s, m = compare(w, d[n], x, spec, meth, points, vals, u, n)
                out.append(("column", f"column|{tag}|{n}", s, f"{n}: {m}"))
        t = w.s.slice(p["cts"], _sl(1, None), w.st)
        if isinstance(rec.ix, A):
            s, m = compare(w, rec.ix, t, spec, meth, points, vals, u, "index")
            out.append(("column", f"index|{tag}", s, f"index: {m}"))
        else:
            out.append(("column", f"index|{tag}", *unlabelled(rec, u)))
    return where, out


def _sl(lo, hi):
    import ast
    c = lambda v: ast.Constant(v) if v is not None else None
    return ast.Slice(c(lo), c(hi), None)


# ------------------------------------------------------------------- kits
KITS = {
    "TimeBarKit": ("interval:i", lambda p: {"period": Td(mul(p["interval"], C(NS)))}, "_time_bar_indexer", lambda p: [p["ts"], p["interval"]]),
    "TickBarKit": ("threshold:i", lambda p: {"tick_count_thrs": p["threshold"]}, "_tick_bar_indexer", lambda p: [p["ts"], p["threshold"]]),
    "VolumeBarKit": ("threshold:F", lambda p: {"volume_ths": p["threshold"]}, "_volume_bar_indexer", lambda p: [p["volumes"], p["threshold"]]),
    "DollarBarKit": ("threshold:F", lambda p: {"dollar_thrs": p["threshold"]}, "_dollar_bar_indexer", lambda p: [p["prices"], p["volumes"], p["threshold"]]),
    "CUSUMBarKit": ("sigma:a:nT floor:F mult:F", lambda p: {"sigma": p["sigma"], "sigma_floor": p["floor"], "sigma_mult": p["mult"]}, "_cusum_bar_indexer",
                    lambda p: [p["ts"], p["prices"], p["sigma"], p["floor"], p["mult"]]),
}


def kit_unit(root, name, points):
    repo = Repo(root)
    mod = "finmlkit.bar.kit"
    extra, kw, fn, rargs = KITS[name]
    where = where_(repo, mod, name)
    out = []
    w = World(repo)
    spec = TRADES + " " + extra
    p = params(w, spec)
    n0 = len(w.s.unknown)
    try:
        b = w.s.construct(w.repo.cls(mod, name), [trades(w, p)], kw(p), w.st)
        gt, gi = w.attr(b, "bar_close_timestamps"), w.attr(b, "bar_close_indices")
        gs = w.method(b, "get_sigma") if name == "CUSUMBarKit" else None
    except PyExc as e:
        return where, [("boundaries", f"boundaries|{name}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}")]
    u = w.s.unknown[n0:]
    r = ref(w, fn, rargs(p))
    if len(r) == 2:
        rt, ri = r
    else:
        ri = r[0]
        import ast
        from .osumm import _Val
        rt = w.s.getitem(p["ts"], ast.Subscript(_Val(p["ts"]), _Val(ri), ast.Load()), w.st, ri)
    vals = {}
    for lab, g, x in (("timestamps", gt, rt), ("indices", gi, ri)):
        x = w.s.slice(x, _sl(1, None), w.st) if isinstance(x, A) else x
        s, m = compare(w, g, x, spec, name, points, vals, u, lab)
        out.append(("boundaries", f"boundaries|{name}|{lab}", s, f"{lab}: {m}"))
        if gs is not None and lab == "indices":     # the volatility the thresholds used, at the closes
            import ast
            from .osumm import _Val
            q = p["sigma"]
            gx = w.s.getitem(q, ast.Subscript(_Val(q), _Val(x), ast.Load()), w.st, x)
            s, m = compare(w, gs, gx, spec, name, points, vals, u, "sigma")
            out.append(("boundaries", f"boundaries|{name}|sigma", s, f"sigma: {m}"))
    return where, out


# ------------------------------------------------------------------- footprints
FP = "finmlkit.bar.data_model"
NESTED = FOOT[:7]
FPSPEC = "bar_timestamps:t:n tick:F " + " ".join(f"{n}:la:n" for n in NESTED) + " " + " ".join(f"{n}:a:n" for n in FOOT[7:])
OPTIONAL = FOOT[7:]


def fields(w, o, names):
    return {n: w.attr(o, n) for n in names}


def check_fields(w, got, want, rule, tag, spec, name, points, u, out, vals):
    for n, x in want.items():
        g = got.get(n)
        if g is None:
            out.append((rule, f"{rule}|{tag}|{n}", "unknown", f"{n} not found"))
            continue
        s, m = compare(w, g, x, spec, name, points, vals, u, n)
        out.append((rule, f"{rule}|{tag}|{n}", s, f"{n}: {m}"))


def built_unit(root, kind, points):
    """BarBuilderBase.build_footprints: every field is the documented per-level or per-bar quantity"""
    repo = Repo(root)
    where = where_(repo, "finmlkit.bar.base", "BarBuilderBase", "build_footprints")
    out = []
    for before in ((), ("build_ohlcv",)):
        tag = "built" + ("|after " + before[0] if before else "")
        w = World(repo)
        spec = BOUNDS + " tick:F imb:F"
        p = params(w, spec)
        n0 = len(w.s.unknown)
        try:
            b = w.s.construct(w.repo.cls("sa.spec.objects", "Bars"), [trades(w, p), p["cts"], p["ci"]], {}, w.st)
            for m in before:
                w.method(b, m)
            o = w.method(b, "build_footprints", price_tick_size=p["tick"], imbalance_factor=p["imb"])
            got = fields(w, o, PERBAR)
        except PyExc as e:
            out.append(("footprint", f"footprint|{tag}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}"))
            continue
        u = w.s.unknown[n0:]
        bars = ref(w, "comp_bar_ohlcv", [p["prices"], p["volumes"], p["ci"]])
        want = dict(zip(FOOT, ref(w, "comp_bar_footprints", [p["prices"], p["volumes"], p["ci"], p["sides"], p["tick"], bars[2], bars[1], p["imb"]])))
        want["bar_timestamps"] = w.s.slice(p["cts"], _sl(1, None), w.st)
        check_fields(w, got, want, "footprint", tag, spec, "build_footprints", points, u, out, {})
        t = w.attr(o, "price_tick")
        s, m = compare(w, t, p["tick"], spec, "build_footprints", points, {}, u, "price_tick")
        out.append(("footprint", f"footprint|{tag}|price_tick", s, f"price_tick: {m}"))
    return where, out


def container(w, p, drop=()):
    c = w.repo.cls(FP, "FootprintData")
    kw = {n: p[n] for n in PERBAR}
    kw["price_tick"] = p["tick"]
    for d in drop:
        kw[d] = NONE
    return w.s.construct(c, [], kw, w.st)


KEYS = {
    "from:to": ("a:i0 b:i0", lambda p: Slice(p["a"], p["b"], NONE)),
    "from:": ("a:i0", lambda p: Slice(p["a"], NONE, NONE)),
    ":to": ("b:i0", lambda p: Slice(NONE, p["b"], NONE)),
    "all": ("", lambda p: Slice(NONE, NONE, NONE)),
    "2:5": ("", lambda p: Slice(C(2), C(5), NONE)),
    "-3:": ("", lambda p: Slice(C(-3), NONE, NONE)),
    "time range": ("t0:T t1:T", lambda p: Slice(Ts(p["t0"]), Ts(p["t1"]), NONE)),
    "one": ("", lambda p: C(3)),
    "last": ("", lambda p: C(-1)),
    ":-1": ("", lambda p: Slice(NONE, C(-1), NONE)),
}


def slice_unit(root, label, points):
    """a slice of a footprint holds, in every field, the bars of the slice"""
    repo = Repo(root)
    where = where_(repo, FP, "FootprintData", "__getitem__")
    out = []
    extra, key = KEYS[label]
    for drop in ((), ("cot_price_levels", "vp_skew"), tuple(OPTIONAL)):
        tag = label + (f"|without {len(drop)}" if drop else "")
        w = World(repo)
        spec = FPSPEC + (" " + extra if extra else "")
        p = params(w, spec)
        n0 = len(w.s.unknown)
        k = key(p)
        try:
            o = w.method(container(w, p, drop), "__getitem__", k)
            got = fields(w, o, PERBAR)
        except PyExc as e:
            out.append(("slice", f"slice|{tag}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}"))
            continue
        u = w.s.unknown[n0:]
        import ast
        from .osumm import _Val
        if isinstance(k, N):                # one bar is a container of one bar
            k = Slice(k, C(const(k) + 1) if const(k) != -1 else NONE, NONE)
        if isinstance(k.lo, Ts):            # both ends of a time range belong to it
            t = p["bar_timestamps"]
            k = Slice(*[w.s.npcall("searchsorted", [t, x.ns], {"side": S(side)}, None, w.st) for x, side in ((k.lo, "left"), (k.hi, "right"))], NONE)
        sl = ast.Slice(*[_Val(x) if x is not NONE else None for x in (k.lo, k.hi, k.step)])
        want = {n: NONE if n in drop else w.s.slice(p[n], sl, w.st) for n in PERBAR}
        vals = {}
        check_fields(w, got, want, "slice", tag, spec, "slice", points, u, out, vals)
        s, m = compare(w, w.attr(o, "price_tick"), p["tick"], spec, "slice", points, vals, u, "price_tick")
        out.append(("slice", f"slice|{tag}|price_tick", s, f"price_tick: {m}"))
    return where, out


def numba_unit(root, label, points):
    """from_numba, and converting between list and array storage, keep every field"""
    repo = Repo(root)
    out = []
    where = where_(repo, FP, "FootprintData", "from_numba" if label == "from_numba" else label)
    w = World(repo)
    p = params(w, FPSPEC)
    n0 = len(w.s.unknown)
    try:
        if label == "from_numba":
            from .osumm import Cls
            o = w.call(w.attr(Cls(w.repo.cls(FP, "FootprintData")), "from_numba"), tuple(p[n] for n in PERBAR), p["tick"])
        else:
            o = container(w, p)
            w.method(o, label)
        got = fields(w, o, PERBAR)
    except PyExc as e:
        return where, [("fields", f"fields|{label}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}")]
    u = w.s.unknown[n0:]
    check_fields(w, got, {n: p[n] for n in PERBAR}, "fields", label, FPSPEC, "slice", points, u, out, {})
    s, m = compare(w, w.attr(o, "price_tick"), p["tick"], FPSPEC, "slice", points, {}, u, "price_tick")
    out.append(("fields", f"fields|{label}|price_tick", s, f"price_tick: {m}"))
    return where, out


def valid_unit(root, field, points):
    """a container whose field has another number of bars is not valid; one whose fields agree is"""
    repo = Repo(root)
    where = where_(repo, FP, "FootprintData", "is_valid")
    w = World(repo)
    spec = FPSPEC
    if field:
        q = [s for s in FPSPEC.split() if s.split(":")[0] == field][0]
        spec = FPSPEC.replace(q, q.rsplit(":", 1)[0] + ":m")
    p = params(w, spec)
    n0 = len(w.s.unknown)
    key = f"valid|{field or 'all agree'}"
    try:
        v = w.method(container(w, p), "is_valid")
    except PyExc as e:
        return where, [("valid", key, "bad" if len(w.s.unknown) == n0 else "unknown", f"raises: {e}")]
    u = w.s.unknown[n0:]
    if v in (T, F) and not u:
        want = T if not field else None
        ok = v is T if not field else False
        return where, [("valid", key, "ok" if ok else "bad", f"is_valid is {v is T} whatever the number of bars in {field or 'the fields'}")]
    if not isinstance(v, N) or u:
        return where, [("valid", key, "unknown", f"not modelled {u[:1]}")]
    r = cmp("==", mk("len", "n"), mk("len", "m")) if field else T
    s, m = agree.one(spec, "valid", ("0", None, None, v), ("0", None, None, r), {}, points)
    return where, [("valid", key, {"same": "ok", "agree": "ok", "differ": "bad"}.get(s, "unknown"), m or "decided")]

"""Volume profiles at the object level: which column, option and storage of the container reaches which argument; prices in price units."""
from __future__ import annotations
from .expr import *
from .summ import S, NONE
from .osumm import Idx, PyExc, Td, Ts, Ser
from .ounits import World, NS
from .repo import Repo
from .obars import params, ref, compare, where_, FP, PERBAR

MOD = "finmlkit.feature.core.volume"
NAMES = ["bar_timestamps", "price_levels", "buy_volumes", "sell_volumes"]
SPEC = "ts:t:n highs:a:n lows:a:n pl:la:n bv:la:n sv:la:n window:F n_bins:i tick:F va:F"
UNITS = ["all", "no bins", "changed", "range"]


def profile_unit(root, label, points):
    repo = Repo(root)
    where = where_(repo, MOD, "VolumePro", "compute_range" if label == "range" else "compute")
    spec = SPEC + (" t0:T t1:T" if label == "range" else "") + (" window2:F n_bins2:i va2:F" if label == "changed" else "")
    w = World(repo)
    p = params(w, spec)
    out = []
    points = max(8, points // 3)          # the kernel itself is compared elsewhere: here only what is handed to it and what becomes of its results
    n0 = len(w.s.unknown)
    t = p["ts"]
    ix = Idx(t.aid, t.off, t.ln)
    w.s.rowidx = ix
    w.st.facts = w.st.facts | {cmp(">=", t.ln, ONE)}
    bars = w.s.rec(w.st, "frame", d={S(k): Ser(p[v].aid, p[v].off, p[v].ln, S(k)) for k, v in (("low", "lows"), ("high", "highs"))}, ln=t.ln, ix=ix)
    try:
        kw = {"bar_timestamps": t, "price_levels": p["pl"], "buy_volumes": p["bv"], "sell_volumes": p["sv"], "price_tick": p["tick"],
              "buy_ticks": p["bv"], "sell_ticks": p["sv"], "buy_imbalances": p["bv"], "sell_imbalances": p["sv"]}
        fp = w.s.construct(w.repo.cls(FP, "FootprintData"), [], kw, w.st)
        o = w.expr("VolumePro(window, bins, va)", MOD, window=Td(mul(p["window"], C(NS))), bins=NONE if label == "no bins" else p["n_bins"], va=p["va"])
        win, bins, va = p["window"], NONE if label == "no bins" else p["n_bins"], p["va"]
        if label == "changed":
            w.method(o, "reset_parameters", n_bins=p["n_bins2"])
            w.method(o, "reset_parameters", p["window2"], va_pct=p["va2"])
            win, bins, va = p["window2"], p["n_bins2"], p["va2"]
        if label == "range":
            r = w.method(o, "compute_range", bars, fp, Ts(p["t0"]), Ts(p["t1"]))
        else:
            r = w.method(o, "compute", bars, fp)
        r = list(w.s.items(r, w.st) or ())
    except PyExc as e:
        return where, [("profile", f"profile|{label}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}")]
    u = w.s.unknown[n0:]
    args = [t, p["highs"], p["lows"], p["pl"], p["bv"], p["sv"], win, bins, p["tick"], va]
    if label == "range":
        xs = ref(w, "profile_range", args + [p["t0"], p["t1"]])
        names = ["timestamps", "poc", "hva", "lva", "above"]
    else:
        xs = ref(w, "profile_prices", args)
        names = ["poc", "hva", "lva", "above"]
    if not u and len(r) != len(names):
        return where, [("profile", f"profile|{label}", "bad", f"{len(r)} results, documented {names}")]
    vals = {}
    for n, x, g in zip(names, xs, r):
        s, m = compare(w, g, x, spec, "volume_profile_rolling", points, vals, u, n)
        out.append(("profile", f"profile|{label}|{n}", s, f"{n}: {m}"))
    return where, out

"""Valuations of kernel parameters, by the kinds of the kernel table."""
from __future__ import annotations
import ast, math, random
from fractions import Fraction as Fr
from .sval import Val

GEN = {"y", "x", "r", "array", "ret", "ret1"}          # series that may be negative


def _ties(g, l, p):
    t, vs = Fr(g.randint(0, 6)), []
    for _ in range(l["n"]):
        vs.append(t)
        t += g.choice([0, 0, 0, 1, 2])
    return vs


def _few(g, l, p):
    return [Fr(g.choice([1, 1, 1, 2])) for _ in range(l.get("n", l.get("nT")))]


def _bits(g, l, p):
    return [Fr(g.choice([0, 1])) for _ in range(l.get("n", l.get("nT")))]


def _lows(g, l, p, f=min):
    a, ci = p["arrays"]["prices"], [int(x) for x in p["arrays"]["ci"]]
    return [f(a[ci[i] + 1:ci[i + 1] + 1] or [a[ci[i + 1]]]) for i in range(len(ci) - 1)]


def _grid(g, l, p):
    tick = p["pars"].get("tick") or g.choice([Fr(1), Fr(1, 2), Fr(2)])
    p["pars"]["tick"] = tick
    return [tick * g.randint(3, 9) for _ in range(l["nT"])]


def _vph(g, l, p):
    tick = p["pars"]["tick"] = g.choice([Fr(1), Fr(1, 2), Fr(2)])
    w = g.choice([2, 4, 30])
    p["pars"]["#lo"] = lo = [g.randint(10, 10 + w) for _ in range(l.get("n", l.get("nT")))]
    p["pars"]["#hi"] = hi = [x + g.randint(0, w) for x in lo]
    return [tick * x for x in hi]


def _vpl(g, l, p):
    return [p["pars"]["tick"] * x for x in p["pars"]["#lo"]]


def _pl(g, l, p):
    return [[Fr(x) for x in range(a, b + 1)] for a, b in zip(p["pars"]["#lo"], p["pars"]["#hi"])]


def _vol(g, l, p):
    return [[Fr(g.randint(0, 5)) for _ in x] for x in p["arr2"]["pl"]]


def _levels(g, l, p):
    a = g.randint(5, 50)
    return [Fr(a + i) for i in range(l.get("n", l.get("nT")))]


VP = {"highs": _vph, "lows": _vpl, "pl": _pl, "bv": _vol, "sv": _vol, "tick": lambda g, l, p: p["pars"]["tick"],
      "va": lambda g, l, p: g.choice([Fr(70), Fr(50), Fr(95), Fr(30)]), "n_bins": lambda g, l, p: Fr(g.randint(2, 6))}


def _thr(g, l, p):
    return g.choice([Fr(1), Fr(3), Fr(5), Fr(10), Fr(25, 4)])


def _dthr(g, l, p):
    return g.choice([Fr(4), Fr(12), Fr(24), Fr(40), Fr(9, 2)])


def _sig(g, l, p, q=0.25):
    return [math.nan if g.random() < q else g.choice([Fr(1, 10), Fr(1, 5), Fr(1, 2), Fr(1), Fr(2)]) for _ in range(l.get("n", l.get("nT")))]


def _lead(g, l, p):
    k = min(g.choice([0, 0, 1, 2]), l["nE"] - 1)
    return [math.nan] * k + [Fr(1)] * (l["nE"] - k)


def _tgt(g, l, p):
    return [g.choice([Fr(1, 10), Fr(1, 2), Fr(1), Fr(1, 4), -Fr(1, 2)]) for _ in range(l["nE"])]


def _ets(g, l, p):
    t = p["arrays"]["ts"]
    return [Fr(x) for x in sorted(g.sample(range(int(t[0]), int(t[-1]) + 2 * 10 ** 9, 250000000), l["nE"]))]


CUS = {"floor": lambda g, l, p: g.choice([Fr(1, 100), Fr(1, 10), Fr(1, 2), Fr(1)]), "mult": lambda g, l, p: g.choice([Fr(1, 2), Fr(1), Fr(2)]), "sigma": _sig}
RAWT = {"ts": lambda g, l, p: [Fr(g.choice([0, 1, 400, 999, 1000, 1500, 2000, 2500])) for _ in range(l["nT"])], "prices": _few, "ibm": _bits,
        "ids": lambda g, l, p: [Fr(g.randint(1, 2 * l["nT"])) for _ in range(l["nT"])]}
def _after(prev, ln):
    def f(g, l, p):
        t, out = p["arrays"][prev][-1], []
        for _ in range(l[ln]):
            t = t + g.choice([1, 250000000, 500000000, 10 ** 9, 3 * 10 ** 9])
            out.append(t)
        return out
    return f


def _secs(steps, unit=10 ** 9):
    def f(g, l, p):
        t, out = g.choice([0, 19000 * 86400]) * 10 ** 9 + g.choice([0, 0, 1, 5]) * unit, []
        for _ in range(l["n2A"]):
            out.append(Fr(t))
            t += g.choice(steps) * unit
        return out
    return f


def _nextday(g, l, p):
    a = p["arrays"]["tsA"]
    t, out = (max(a[-1] // DAYNS, -(-a[0] // DAYNS)) + 1) * DAYNS + g.choice([0, 0, 10 ** 9]), []
    for _ in range(l["nB"]):
        out.append(Fr(t))
        t += g.choice([1, 2, 3600, 43200, 86400]) * 10 ** 9
    return out


DAYNS = 86400 * 10 ** 9
DAYS = {"tsA": _secs([1, 1, 2, 3600, 43200, 86400]), "tsB": _nextday, "day": lambda g, l, p: Fr(g.choice(p["arrays"]["tsA"]) // DAYNS)}
DAYA = _secs([1, 3600, 43200, 43200, 86399, 86400])
OVER = {
    "klines_days_full": {"tsA": DAYA, "day": lambda g, l, p: Fr((p["arrays"]["tsA"][-1] + 10 ** 9) // DAYNS - 1 - g.choice([0, 0, 1])), "from": lambda g, l, p: Fr(g.choice(p["arrays"]["tsA"]) // DAYNS)},
    "klines_days_part": {"tsA": DAYA, "day": lambda g, l, p: Fr((p["arrays"]["tsA"][-1] + 10 ** 9) // DAYNS + g.choice([0, 0, 1]))},
    "klines": {"tsB": _after("tsA", "nB")}, "klines_read": DAYS, "klines_date": {**DAYS, "day": lambda g, l, p: Fr(max(-(-p["arrays"]["tsA"][0] // DAYNS), g.choice(p["arrays"]["tsA"]) // DAYNS))},
    "resampled_3s": {"tsA": _secs([1, 1, 1, 2, 3, 7])}, "resampled_2min": {"tsA": _secs([1, 30, 59, 60, 61, 200])}, "resampled_1h": {"tsA": _secs([1, 600, 1800, 3599, 3600, 9000])},
    "prepared_trades": RAWT,
    "rows_between": {"start": lambda g, l, p: g.choice(p["arrays"]["ts"]) - g.choice([0, 0, 1, 10 ** 9]),
                     "end": lambda g, l, p: p["pars"]["start"] + g.choice([1, 5 * 10 ** 8, 10 ** 9, 3 * 10 ** 9])},
    "store": {"tsB": _after("tsA", "nB"), "tsC": _after("tsB", "nC")},
    "store_view": {"lo": lambda g, l, p: g.choice(p["arrays"]["tsA"]) - g.choice([0, 0, 1, 10 ** 9]), "hi": lambda g, l, p: max(p["pars"]["lo"] + 1, g.choice(p["arrays"]["tsA"]) + g.choice([0, 0, 1]))},
    "variance_ratio_1_4_core": {"ret": lambda g, l, p: g.choice(["simple", "log"])},
    "merge_split_trades": {"ts": _ties, "prices": _few, "ibm": _bits},
    "fast_sort_trades": {"ibm": _bits},
    "comp_bar_footprints": {"prices": _grid, "tick": lambda g, l, p: p["pars"]["tick"], "lows": _lows,
                            "highs": lambda g, l, p: _lows(g, l, p, max), "imb": lambda g, l, p: Fr(g.choice([1, 2, 3]))},
    "volume_profile_rolling": VP, "volume_profile_developing": VP,
    "aggregate_footprint": {**VP, "start": lambda g, l, p: g.choice(p["arrays"]["ts"]) - g.choice([0, 0, 500000000, 700000000]),
                            "end": lambda g, l, p: max(p["pars"]["start"] + 700000000, g.choice(p["arrays"]["ts"])) if any(
                                t >= p["pars"]["start"] for t in p["arrays"]["ts"]) else p["pars"]["start"]},
    "bucket_price_levels": {"levels": _levels, "n_bins": lambda g, l, p: Fr(g.randint(1, 6)), "volumes": lambda g, l, p: [Fr(g.randint(0, 5)) for _ in range(l["n"])]},
    "comp_poc_hva_lva": {"levels": _levels, "va": VP["va"], "volumes": lambda g, l, p: [Fr(g.randint(0, 5)) for _ in range(l["n"])]},
    "calc_volume_percentage_above_poc": {"levels": _levels},
    "comp_footprint_features": {"levels": _levels, "imb": lambda g, l, p: Fr(g.choice([1, 2, 3])), "bv": lambda g, l, p: [Fr(g.randint(0, 6)) for _ in range(l["n"])],
                                "sv": lambda g, l, p: [Fr(g.randint(0, 6)) for _ in range(l["n"])]},
    "event_labels": {"vb": lambda g, l, p: g.choice([Fr(1), Fr(2), Fr(3), Fr(5, 2)]), "mct": lambda g, l, p: g.choice([Fr(1, 2), Fr(1), Fr(3, 2), Fr(5, 2)]), "feat": _lead, "min_ret": lambda g, l, p: g.choice([Fr(0), Fr(1, 4), Fr(1, 2)]), "target": _tgt, "et": _ets},
    "_cusum_bar_indexer": {"ts": _ties, **CUS}, "CUSUMBarKit": {**CUS, "sigma": lambda g, l, p: _sig(g, l, p, 0)},
    "_volume_bar_indexer": {"threshold": _thr}, "VolumeBarKit": {"threshold": _thr},
    "_dollar_bar_indexer": {"threshold": _dthr}, "DollarBarKit": {"threshold": _dthr},
    "triple_barrier": {"min_ret": lambda g, l, p: g.choice([Fr(0), Fr(1, 4), Fr(1, 2)]), "targets": lambda g, l, p: [g.choice([Fr(1, 10), Fr(1, 2), Fr(1), Fr(1, 4), Fr(2), Fr(4)]) for _ in range(l["nE"])],
                       "vb": lambda g, l, p: g.choice([Fr(1), Fr(3), Fr(5), Fr(10), Fr(20)]), "mct": lambda g, l, p: g.choice([Fr(0), Fr(0), Fr(1, 2), Fr(1), Fr(5, 2)]),
                       "lens": lambda g, l: l.update(n=g.randint(1, 9)) if "n" in l else None,
                       "close": lambda g, l, p: [g.choice([Fr(1), Fr(2), Fr(3), Fr(1, 2), Fr(4), Fr(5, 4), Fr(3, 4)]) for _ in range(l["n"])]},
}
NANS = {"event_labels": ("feat",), "ewms": ("y",), "ewmst": ("y",), "ewmst_mean0": ("y",), "realized_vol": ("r",), "rolling_variance_nb": ("x",), "true_range": ("high", "close"),
        "_cusum_bar_indexer": ("sigma",), "atr": ("high",)}


def evlen(txt, lens):
    return eval(compile(ast.parse(txt, mode="eval"), "len", "eval"), {"__builtins__": {}}, dict(lens))


def names(txt):
    return [n.id for n in ast.walk(ast.parse(txt)) if isinstance(n, ast.Name)]


def gen(specs, seed, over=None, nan=(), size=None):
    """-> Val; over: name -> function(rng, lens, partial) giving a value"""
    rng = random.Random(seed)
    over = over or {}
    lens, arrays, pars, flags, none, strs, arr2 = {}, {}, {}, {}, {}, {}, {}
    items = [s.split(":") for s in specs.split()]
    big = seed % 3 == 2
    for p in items:
        for q in p[2:3]:
            if p[1] in ("i", "F"):
                continue
            for n in names(q):
                if n not in lens:
                    lens[n] = rng.randint(1, 4) if n in ("nB", "nE") else rng.randint(2 if n.startswith("n2") else 1, (size or 9) if big else 6)
    if "lens" in over:
        over["lens"](rng, lens)
    if seed % 5 == 4 and "n" in lens:
        lens["n"] = (size or 12)
    tie = rng.random() < 0.5

    def pos():
        return Fr(rng.randint(1, 3 if tie else 12)) if rng.random() < 0.7 else Fr(rng.randint(1, 16), 4)
    for p in items:
        name, kind = p[0], p[1]
        if kind.startswith("?"):
            none[name] = rng.random() < 0.5
            kind = kind[1:]
        if name in over and not (name in none and none[name]):
            v = over[name](rng, lens, dict(arrays=arrays, pars=pars, arr2=arr2))
            if kind == "la":
                arr2[name] = v
                arrays["len:" + name] = [Fr(len(x)) for x in v]
            elif isinstance(v, list):
                arrays[name] = v
            elif isinstance(v, str):
                strs["{" + name + "}"] = v
            elif isinstance(v, bool):
                flags[name] = v
            else:
                pars[name] = v
            continue
        ln = evlen(p[2], lens) if len(p) > 2 and kind not in ("i", "F") else None
        if kind in ("a", "c"):
            vs = [pos() for _ in range(ln)]
            if name in GEN:
                vs = [v if rng.random() < 0.6 else -v for v in vs]
                if rng.random() < 0.2:
                    vs = vs[:1] * ln
            if rng.random() < 0.1:
                vs = vs[:1] * ln
            if name in nan:
                vs = [math.nan if rng.random() < 0.25 else v for v in vs]
            arrays[name] = vs
        elif kind == "s":
            pool = [-1, 1] if rng.random() < 0.6 else [-1, 0, 1]
            arrays[name] = [Fr(rng.choice(pool)) for _ in range(ln)]
        elif kind in ("t", "t0"):
            t, vs = Fr(rng.randint(0, 6) * 500000000), []
            for _ in range(ln):
                vs.append(t)
                t += Fr(rng.choice([1, 1, 1, 2, 4, 7]) * 500000000)
            if kind == "t0":
                rng.shuffle(vs)
            arrays[name] = vs
        elif kind == "ix":
            lo, hi = evlen(p[3], lens), evlen(p[4], lens)
            hi = max(lo, hi)
            if len(p) > 5:
                vs = sorted(rng.randint(lo, hi) for _ in range(ln))
                if vs and rng.random() < 0.6:
                    vs[0] = lo
                if vs and vs[-1] < 0:
                    vs[-1] = 0
                if len(vs) > 1 and vs[1] < 0:
                    vs[1:] = [max(v, 0) for v in vs[1:]]
            else:
                vs = sorted(rng.randint(lo, hi) for _ in range(ln))
                if name == "touch":
                    vs = [rng.randint(int(e), hi) for e in arrays.get("ev") or arrays["event_idx"]]
            arrays[name] = [Fr(v) for v in vs]
        elif kind == "i":
            pars[name] = Fr(rng.randint(1, 4))
        elif kind == "i0":
            pars[name] = Fr(rng.randint(0, 1))
        elif kind == "Z":
            pars[name] = Fr(rng.randint(-4, 4))
        elif kind == "F":
            pars[name] = rng.choice([Fr(1, 2), Fr(1), Fr(2), Fr(3), Fr(3, 2)])
        elif kind == "N":
            pars[name] = rng.choice([Fr(0), Fr(1, 2), Fr(1), Fr(-1, 2), Fr(1, 4)])
        elif kind == "T":
            ts = arrays.get("ts") or arrays["bar_timestamps"]
            pars[name] = rng.choice(ts) + Fr(rng.choice([0, 0, 1, -1]))
        elif kind == "b":
            flags[name] = rng.random() < 0.5
        elif kind == "str":
            strs["{" + name + "}"] = "?"
        elif kind == "TT":
            for k in "01":
                pars[name + k] = rng.choice([Fr(1), Fr(2), Fr(1, 2), Fr(3)])
        elif kind == "la":
            arr2[name] = [[pos() for _ in range(rng.randint(1, 4))] for _ in range(ln)]
            arrays["len:" + name] = [Fr(len(x)) for x in arr2[name]]
    return Val(lens, arrays, pars, flags, none, strs, arr2)

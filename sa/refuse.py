"""Refusal of invalid inputs: the condition under which a function raises, as a closed form of its inputs, against the documented condition."""
from __future__ import annotations
import ast
from .expr import *
from . import sdrive, agree, valgen
from .summ import Summ, St, OK, Fnc, num
from .repo import Repo, AnalysisBroken
from .engine import KERNELS

TABLE = {
    "comp_bar_ohlcv": "prices:a:nP volumes:a:nV ci:ix:n0I:0:0",
    "comp_bar_trade_size_features": "amounts:a:nT theta:a:nH ci:ix:n0I:0:nT-1 theta_mult:F",
    "_cusum_bar_indexer": "ts:t:nS prices:a:nP sigma:a:nV floor:F mult:F",
    "triple_barrier": "ts:t:nS close:a:nP ev:ix:n0I:0:nP-1 targets:a:n0V hb:TT vb:N mct:F side:?a:n0H min_ret:N",
    "average_uniqueness": "ts:t:nS ev:ix:nI:0:nS-1 touch:ix:nH:0:nS-1",
    "time_decay": "au:a:nE last:N",
    "cusum_filter": "series:a:nS thr:a:nV",
    "ewma": "y:a:n span:N",
    "comp_lagged_returns": "ts:t:n close:a:n window_sec:N is_log:b",
    "true_range": "high:a:nH low:a:nV close:a:nP",
    "cusum_test_rolling": "close:a:n window:i warmup:i",
    "return_attribution": "ev:ix:nE:0:n-1 touch:ix:nE:0:n-1 close:a:n conc:a:n normalize:b",
    "comp_price_tick_size": "prices:a:n0P",
}
MODS = {"comp_price_tick_size": "finmlkit.bar.utils"}
_r = lambda *xs: lambda g, l, p: Fr(g.choice(xs))


def _lens(g, lens):
    """lengths that agree, or differ by one, or at random"""
    ax = [n for n in lens if n not in ("n", "n2", "nT", "nE")]
    k = g.randint(1, 4)
    for n in ax:
        lens[n] = max(2 if n.startswith("n2") else 0 if n.startswith("n0") else 1, k + g.choice([0, 0, 0, 0, 1, -1]))
    if "n0I" in lens and "nT" in lens:
        lens["n0I"] = lens["nH"] + g.choice([0, 1, 1, 1, 2])
        lens["nT"] = 6
    if lens.get("n0P") is not None and g.random() < 0.4:
        lens["n0P"] = 0
    if len(ax) == 2 and "nV" in ax and g.random() < 0.3:
        lens["nV"] = 1
    if "n0I" in lens and "n0V" in lens and g.random() < 0.15:
        lens["n0I"] = lens["n0V"] = lens["n0H"] = 0


OVERS = {
    "": {"lens": _lens},
    "triple_barrier": {"vb": _r(0, 1, 1, 2, 3, Fr(1, 2), -1), "min_ret": _r(0, 0, Fr(1, 2), Fr(1, 4), -1, Fr(-1, 8))},
    "return_attribution": {"close": lambda g, l, p: [Fr(1)] * l["n"] if g.random() < 0.5 else [Fr(g.choice([1, 2, 3])) for _ in range(l["n"])]},
    "time_decay": {"last": _r(0, 1, -1, Fr(1, 2), Fr(-1, 2), Fr(9, 8), Fr(-9, 8), 2, -2), "au": lambda g, l, p: [Fr(g.choice([0, 0, 1, 1])) if l["nE"] < 3 else Fr(g.randint(0, 4), 2) for _ in range(l["nE"])]},
    "ewma": {"span": _r(1, 2, 3, Fr(1, 2), Fr(3, 2), 0, -1)},
    "comp_lagged_returns": {"window_sec": _r(0, 1, Fr(1, 2), -1, 3, Fr(-1, 2))},
    "cusum_test_rolling": {"close": lambda g, l, p: [Fr(g.choice([1, 2, 3, 4, 5])) if g.random() < 0.85 else Fr(g.choice([0, -1])) for _ in range(l["n"])]},
}
for k in TABLE:
    valgen.OVER["refuses " + k] = {**OVERS[""], **OVERS.get(k, {})}


def root(repo, mod, name, specs):
    """condition under which the function returns"""
    s = Summ(repo)
    st = St({}, {}, frozenset())
    fn = repo.func(mod, name)
    ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
    if len(ps) < len(specs.split()):
        raise AnalysisBroken(f"{name}: {len(ps)} parameters")
    env = {p: sdrive.param(s, st, sp) for p, sp in zip(ps, specs.split())}
    pos = fn.args.posonlyargs + fn.args.args
    s.mods.append(fn._mod)
    for p, d in zip(pos[::-1], fn.args.defaults[::-1]):
        if p.arg not in env:
            env[p.arg] = s.ev(d, St({}, {}, frozenset()))
    s.mods.pop()
    if any(p not in env for p in ps):
        raise AnalysisBroken(f"{name}: new required parameter")
    s.run(Fnc(fn, fn._mod), dict(env), st)
    return s, st, fn, env, st.env.get(OK, T)


def kernel_unit(rootdir, name, points):
    repo = Repo(rootdir)
    r2 = agree.spec_repo(repo)
    specs = TABLE[name]
    s, st, fn, env, ok = root(r2, MODS.get(name) or KERNELS[name][0], name, specs)
    where = repo.where(fn, fn) if hasattr(repo, "where") else name
    ref = r2.modules["sa.spec.refuse"].funcs["refuses_" + name]
    want = s.run(Fnc(ref, r2.modules["sa.spec.refuse"]), dict(zip([a.arg for a in ref.args.args], list(env.values()))), St({}, dict(st.heap), st.facts))
    one = lambda e: ite(e if e in (T, F) or True else e, ONE, ZERO)
    got = ite(not_(ok), ONE, ZERO)
    from .summ import boolify
    w = ite(boolify(want), ONE, ZERO)
    v, m = agree.one(specs, "refuses " + name, ("refused", None, None, got), ("refused", None, None, w), {}, points * 3)
    return fn, [("refused", f"refused|{name}", {"same": "ok", "agree": "ok", "differ": "bad"}.get(v, "unknown"), m or "normal forms are identical")]

"""Entry points: run the abstract interpreter on a public kernel with symbolic inputs."""
from __future__ import annotations
import ast
from .lin import Lin, L, sym, prove, infeasible, witness
from .vals import *
from .interp import Frame, fmtw
from .stmts import Stmts
from .repo import Repo, AnalysisBroken, is_parallel, docless

C = "finmlkit.feature.core."
B = "finmlkit.bar."

# kernel -> (module, parameter spec).  spec items (by position):
#   a[:len]   float array (role = parameter name in this table)      s[:len] small-int array (trade sides)
#   t[:len]   sorted timestamps       ix:len:lo:hi[:mono]  positions into an axis of another array
#   la[:len]  list of arrays          i  int>=1     F positive float    N float, sign unknown   b bool   str
#   TT(b,t)   tuple of positive floats   ?x optional (may be None)    c[:len] counts array
KERNELS = {
    "comp_bar_ohlcv": (B + "base", "prices:a:nT volumes:a:nT ci:ix:nB+1:-1:nT-1:first"),
    "comp_bar_directional_features": (B + "base", "prices:a:nT volumes:a:nT ci:ix:nB+1:-1:nT-1:first sides:s:nT"),
    "comp_bar_trade_size_features": (B + "base", "amounts:a:nT theta:a:nB ci:ix:nB+1:-1:nT-1:first theta_mult:F"),
    "comp_bar_footprints": (B + "base", "prices:a:nT amounts:a:nT ci:ix:nB+1:-1:nT-1:first sides:s:nT tick:F lows:a:nB highs:a:nB imb:F"),
    "_time_bar_indexer": (B + "logic", "ts:t:n interval:F"),
    "_tick_bar_indexer": (B + "logic", "ts:t:n threshold:i"),
    "_volume_bar_indexer": (B + "logic", "volumes:a:n threshold:F"),
    "_dollar_bar_indexer": (B + "logic", "prices:a:n volumes:a:n threshold:F"),
    "_cusum_bar_indexer": (B + "logic", "ts:t:n prices:a:n sigma:a:n floor:F mult:F"),
    "comp_trade_side_vector": (B + "utils", "prices:a:n"),
    "check_timestamps_order": (B + "utils", "ts:t:n"),
    "fast_sort_trades": (B + "utils", "ts:t0:n prices:a:n amounts:a:n ibm:?a:n"),
    "merge_split_trades": (B + "utils", "ts:t:n prices:a:n amounts:a:n ibm:?a:n"),
    "rolling_price_volume_correlation": (C + "correlation", "price:a:n volume:a:n window:i"),
    "ewma": (C + "ma", "y:a:n span:i"),
    "sma": (C + "ma", "array:a:n window:i"),
    "roc": (C + "momentum", "price:a:n period:i"),
    "rsi_wilder": (C + "momentum", "close:a:n window:i"),
    "stoch_k": (C + "momentum", "close:a:n low:a:n high:a:n length:i"),
    "vwap_distance": (C + "reversion", "close:a:n volume:a:n n_periods:i is_log:b"),
    "time_cues": (C + "time", "ts:t:n"),
    "adx_core": (C + "trend", "high:a:n low:a:n close:a:n length:i"),
    "comp_lagged_returns": (C + "utils", "ts:t:n close:a:n window_sec:F is_log:b"),
    "comp_zscore": (C + "utils", "x:a:n window:i ddof:i0"),
    "comp_burst_ratio": (C + "utils", "x:a:n window:i"),
    "pct_change": (C + "utils", "x:a:n periods:i"),
    "ewms": (C + "volatility", "y:a:n span:i"),
    "ewmst_mean0": (C + "volatility", "ts:t:n y:a:n half_life:F floor:F"),
    "ewmst": (C + "volatility", "ts:t:n y:a:n half_life:F floor:F"),
    "true_range": (C + "volatility", "high:a:n low:a:n close:a:n"),
    "realized_vol": (C + "volatility", "r:a:n window:i is_sample:b"),
    "bollinger_percent_b": (C + "volatility", "close:a:n window:i num_std:F"),
    "parkinson_range": (C + "volatility", "high:a:n low:a:n"),
    "atr": (C + "volatility", "high:a:n low:a:n close:a:n window:i ema:b normalize:b"),
    "rolling_variance_nb": (C + "volatility", "x:a:n window:i ddof:i0 min_periods:i"),
    "variance_ratio_1_4_core": (C + "volatility", "price:a:n window:i ddof:i0 ret:str"),
    "volume_profile_rolling": (C + "volume", "ts:t:n highs:a:n lows:a:n pl:la:n bv:la:n sv:la:n window:F n_bins:?i tick:F va:F"),
    "volume_profile_developing": (C + "volume", "ts:t:n highs:a:n lows:a:n pl:la:n bv:la:n sv:la:n start:T end:T n_bins:?i tick:F va:F"),
    "comp_flow_acceleration": (C + "volume", "volumes:a:n window:i recent:i"),
    "vpin": (C + "volume", "vb:a:n vs:a:n window:i"),
    "cusum_test_developing": (C + "structural_break.cusum", "y:a:n warmup:i"),
    "cusum_test_last": (C + "structural_break.cusum", "y:a:n2"),
    "cusum_test_rolling": (C + "structural_break.cusum", "close:a:n window:i warmup:i"),
    "triple_barrier": ("finmlkit.label.tbm", "ts:t:n close:a:n ev:ix:nE:0:n-1 targets:a:nE hb:TT vb:F mct:F side:?a:nE min_ret:N"),
    "average_uniqueness": ("finmlkit.label.weights", "ts:t:n ev:ix:nE:0:n-1 touch:ix:nE:0:n-1"),
    "return_attribution": ("finmlkit.label.weights", "ev:ix:nE:0:n-1 touch:ix:nE:0:n-1 close:a:n conc:a:n normalize:b"),
    "time_decay": ("finmlkit.label.weights", "au:a:nE last:N"),
    "class_balance_weights": ("finmlkit.label.weights", "labels:s:nE base:a:nE"),
    "cusum_filter": ("finmlkit.sampling.filters", "series:a:n thr:a:n"),
}


def lin_of(txt, st, eng):
    e = ast.parse(txt, mode="eval").body

    def f(x):
        if isinstance(x, ast.Constant):
            return L(x.value)
        if isinstance(x, ast.Name):
            s = "n" if x.id == "n2" else x.id
            eng.free.add(s)
            lo = 2 if x.id == "n2" else 1
            st.add(sym(s) - lo)
            return sym(s)
        if isinstance(x, ast.UnaryOp):
            return -f(x.operand)
        a, b = f(x.left), f(x.right)
        return a + b if isinstance(x.op, ast.Add) else a - b
    return f(e)


def make_param(eng, st, spec):
    parts = spec.split(":")
    name, kind = parts[0], parts[1]
    opt = kind.startswith("?")
    if opt:
        kind = kind[1:]
    ln = lin_of(parts[2], st, eng) if len(parts) > 2 and kind not in ("i", "F") else None
    if kind in ("a", "s", "t", "t0", "c"):
        bid = eng.newbid()
        st.heap[bid] = ArrS(ln, (Piece(None, None, frozenset([Dep(name, KL, KL)])),), None, role=name, param=True,
                            dtype={"t": "time", "s": "sint"}.get(kind, "float"), mono=kind == "t")
        v = Arr(bid, L(0), ln)
    elif kind == "ix":
        lo, hi = lin_of(parts[3], st, eng), lin_of(parts[4], st, eng)
        bid = eng.newbid()
        st.heap[bid] = ArrS(ln, (Piece(None, None, frozenset([Dep(name, KL, KL)])),), None, role=name, param=True, dtype="index",
                            mono=parts[5] if len(parts) > 5 else False, fill=(lo, hi))
        v = Arr(bid, L(0), ln)
    elif kind == "la":
        bid = eng.newbid()
        st.heap[bid] = ArrS(ln, (Piece(None, None, frozenset([Dep(name, KL, KL)])),), None, role=name, param=True, kind="arrlist")
        v = Arr(bid, L(0), ln)
    elif kind in ("i", "i0"):
        s = "p_" + name
        eng.free.add(s)
        st.add(sym(s) - (1 if kind == "i" else 0))
        v = Num(sym(s), NOD, True)
    elif kind == "F":
        v = Num(None, NOD, False, x=("pos", name))
    elif kind == "N":
        v = Num(None, NOD, False, x=("num", name))
    elif kind == "T":
        v = Num(None, NOD, None, x=("time", name))
    elif kind == "b":
        v = Num(None, NOD, False, x=("flag", name))
    elif kind == "str":
        v = Str("{" + name + "}")
    elif kind == "TT":
        v = Tup([Num(None, NOD, False, x=("num", name + "0")), Num(None, NOD, False, x=("num", name + "1"))])
    else:
        raise AssertionError(spec)
    return Maybe(name, v) if opt else v


class Result:
    def __init__(self, eng, fn, rets):
        self.eng, self.fn, self.rets = eng, fn, rets


class Engine(Stmts):
    pass


def run_kernel(repo, name, hooks=None):
    mod, spec = KERNELS[name]
    fn = repo.func(mod, name)
    eng = Engine(repo)
    if hooks:
        hooks(eng)
    st = State()
    specs = spec.split()
    env = {}
    ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
    if len(ps) < len(specs):
        raise AnalysisBroken(f"{name}: expected at least {len(specs)} parameters, found {len(ps)}")
    for p, sp in zip(ps, specs):
        env[p] = make_param(eng, st, sp)
    for p, d in zip(ps[::-1], fn.args.defaults[::-1]):
        if p not in env:
            env[p] = eng.default(d, fn)
    for p in ps:
        if p not in env:
            raise AnalysisBroken(f"{name}: new required parameter {p}")
    eng.stack.append(Frame(fn, fn._mod, is_parallel(fn)))
    try:
        st0 = st.copy()
        rets = eng.run_fn(fn, env, st0)
    finally:
        eng.stack.pop()
    return Result(eng, fn, rets)

"""Per-kernel analysis unit: everything the kernel-level checks need, as picklable tuples."""
from __future__ import annotations
import os
from .lin import Lin, L, sym, prove, infeasible, witness
from .vals import *
from .interp import fmtw
from .repo import Repo, AnalysisBroken
from .engine import run_kernel, KERNELS
from .kchecks import check_causal, check_cover, wit, causal_pieces
from . import pool

BAR = {"comp_bar_ohlcv", "comp_bar_directional_features", "comp_bar_trade_size_features", "comp_bar_footprints"}
EVENT = {"_time_bar_indexer", "_tick_bar_indexer", "_volume_bar_indexer", "_dollar_bar_indexer", "_cusum_bar_indexer", "cusum_filter"}
# kernels whose outputs are per row of one axis and must be causal along it
CAUSAL = [k for k in KERNELS if k.startswith(("rolling_", "ewm", "sma", "roc", "rsi", "stoch", "vwap", "time_cues", "adx", "comp_lagged",
                                              "comp_zscore", "comp_burst", "pct_", "true_", "realized", "boll", "park", "atr", "variance",
                                              "volume_profile", "comp_flow", "vpin", "cusum_test_dev", "cusum_test_roll", "comp_trade_side_v"))]


def rel(path):
    i = path.find("/finmlkit/")
    return path[i + 1:] if i >= 0 else path


def construct(txt):
    return txt.replace(" ", "")


def unit(root, name):
    repo = Repo(root)
    ev = []

    def hooks(eng):
        def lin_ok(v, d, node, st, what):
            if not isinstance(v, Num):
                return
            for x in d:
                if x.role in ("ts",) or x.role.startswith("*"):
                    continue
                if v.lin is None:
                    ev.append(("unknown", x.role, node.lineno, "position of the event not tracked"))
                elif x.hi == UNK:
                    ev.append(("unknown", x.role, node.lineno, "extent not tracked"))
                elif x.hi == TOP:
                    s, w = wit(eng, st, [sym("n") - 2 - v.lin])
                    ev.append((s if s != "proved" else "ok", x.role, node.lineno, f"the decision at row {v.lin} uses the whole of {x.role}"))
                else:
                    s, w = wit(eng, st, [x.hi - v.lin - 1, sym("n") - 1 - x.hi] + ([x.hi - x.lo] if isinstance(x.lo, Lin) else []))
                    if s == "bad":
                        ev.append(("bad", x.role, node.lineno, f"an event placed at row {v.lin} was decided with row {x.hi} of {x.role} ({fmtw(w)})"))
                    else:
                        ev.append(("ok" if s == "proved" else "unknown", x.role, node.lineno, f"decided with {x.role} rows <= its own row"))

        def on_append(b, A, v, d, node, st):
            if name in EVENT:
                lin_ok(v, d, node, st, "append")

        def on_write(b, A, pos, v, d, node, st):
            if A.param:
                eng.note("mutate", "bad", node, f"writes into the caller's array {A.role}", key=f"{A.role}")
            elif name in EVENT and A.kind == "arr" and isinstance(v, Num) and v.isint and eng.fr.fn.name == name:
                lin_ok(v, d, node, st, "write")
        eng.on_append = on_append
        eng.on_write = on_write
    R = run_kernel(repo, name, hooks)
    out = []
    for o in R.eng.obl.values():
        key = f"{o['kind']}|{o['fn']}|{construct(o['construct'])}"
        out.append((o["kind"], o["status"], key, f"{rel(o['path'])}:{o['line']} in {o['fn']}",
                    o["msg"] + (f" [via {' > '.join(o['chain'])}]" if len(o["chain"]) > 1 else "")))
    where = f"{rel(R.fn._mod.path)}:{R.fn.lineno} in {name}"
    if name in CAUSAL:
        seen = set()
        for s, path, m, d in check_causal(R.eng, R.rets):
            k = f"causal|{name}|{path or 'result'}|{d.role if d is not None else '-'}"
            if (s, k) not in seen:
                seen.add((s, k))
                out.append(("causal", s, k, where, m))
    seen = set()
    for s, role, line, m in ev:
        k = f"event|{name}|{role}"
        if (s, k) not in seen:
            seen.add((s, k))
            out.append(("event", s, k, f"{rel(R.fn._mod.path)}:{line} in {name}", m))
    seen = set()
    for s, path, m, A, w in check_cover(R.eng, R.rets):
        k = f"cover|{name}|{path or 'result'}"
        if (s, k) not in seen:
            seen.add((s, k))
            out.append(("cover", s, k, where, m))
    out.append(("unit", "ok", f"unit|{name}", where, f"{len(R.rets)} return paths, callees {sorted(R.eng.calls) if R.eng.calls else []}"))
    return out


def run_units(rep, repo, names, kinds, limit=200):
    res = pool.run(unit, [(repo.root, n) for n in names], limit)
    for n, (s, v) in zip(names, res):
        if s == "broken":
            raise AnalysisBroken(v)
        if s != "ok":
            rep.skipped.append(f"{n}: {s}: {v}")
            continue
        rep.analysed.append(n)
        for kind, st, key, where, msg in v:
            if kind in kinds:
                rep.add(st, kind, key, where, msg)
    rep.floor("kernels analysed", len(rep.analysed), max(1, int(0.8 * len(names))))

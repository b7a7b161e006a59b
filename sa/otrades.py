"""Trade tables at the object level: what preparing raw trades does to every column, and what a time view shows."""
from __future__ import annotations
from .expr import *
from .summ import A, S, NONE
from .osumm import Ser, Idx, Ref, Td, Ts, PyExc
from .ounits import World
from .obars import params, ref, compare, where_, cells
from .repo import Repo

MOD = "finmlkit.bar.data_model"
RAW = "ts:t0:nT prices:a:nT amounts:a:nT ids:t0:nT ibm:s:nT"
SCALE = {"s": 10 ** 9, "ms": 10 ** 6, "us": 10 ** 3, "ns": 1}
PREP = [("flags", "ms", None), ("flags", "s", "ms"), ("flags", "us", "ms"), ("price", "ms", "s"), ("price", "ns", "us"), ("price", "us", None)]


def prepare_unit(root, label, points):
    how, unit, res = label
    repo = Repo(root)
    where = where_(repo, MOD, "TradesData", "__init__")
    tag = f"{how}|{unit}|{res}"
    w = World(repo)
    p = params(w, RAW)
    n0 = len(w.s.unknown)
    kw = {"timestamp_unit": S(unit), "preprocess": T, **({"proc_res": S(res)} if res else {}), **({"is_buyer_maker": p["ibm"]} if how == "flags" else {})}
    try:
        td = w.s.construct(w.repo.cls(MOD, "TradesData"), [p["ts"], p["prices"], p["amounts"], p["ids"]], kw, w.st)
        f = w.attr(td, "data")
    except PyExc as e:
        return where, [("prepared", f"prepared|{tag}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}")]
    u = w.s.unknown[n0:]
    rec = w.st.heap.get(f.aid) if isinstance(f, Ref) and f.kind == "frame" else None
    if rec is None or u:
        return where, [("prepared", f"prepared|{tag}", "unknown", f"not modelled {u[:1]}")]
    want = ref(w, "prepared_trades", [p["ts"], p["prices"], p["amounts"], p["ids"], p["ibm"], T if how == "flags" else F, C(SCALE[unit]), C(SCALE[res or unit])])
    out, vals = [], {}
    d = {str(k): v for k, v in rec.d.items()}
    names = ["timestamp", "price", "amount", "side"]
    out.append(("columns", f"columns|{tag}", "ok" if sorted(d) == sorted(names) else "bad", f"columns {sorted(d)}"))
    for n, x in zip(names, want):
        if n in d:
            s, m = compare(w, d[n], x, RAW, "prepared_trades", points, vals, u, n)
            out.append(("prepared", f"prepared|{tag}|{n}", s, f"{n} of trades in {unit}, {'with' if how == 'flags' else 'without'} buyer-maker flags, resolution {res}: {m}"))
    if isinstance(rec.ix, A):
        s, m = compare(w, rec.ix, want[0], RAW, "prepared_trades", points, vals, u, "index")
        out.append(("prepared", f"index|{tag}", s, f"index: {m}"))
    return where, out


def view_unit(root, label, points):
    """the rows a time view shows, over every column"""
    repo = Repo(root)
    where = where_(repo, MOD, "TradesData", "data")
    w = World(repo)
    spec = "ts:t:nT prices:a:nT volumes:a:nT sides:s:nT start:T end:T"
    p = params(w, spec)
    out, vals = [], {}
    n0 = len(w.s.unknown)
    t = p["ts"]
    w.st.facts = w.st.facts | {cmp(">=", sub(p["end"], p["start"]), ONE)}
    try:
        td = w.s.construct(w.repo.cls(MOD, "TradesData"), [t, p["prices"], p["volumes"]],
                           {"side": p["sides"], "dt_index": Idx(t.aid, t.off, t.ln), "timestamp_unit": S("ns")}, w.st)
        if label != "all":
            w.method(td, "set_view_range", Ts(p["start"]), Ts(p["end"]))
        if label == "again":
            w.attr(td, "data")
            w.method(td, "set_view_range", Ts(add(p["start"], C(10 ** 9))), Ts(add(p["end"], C(10 ** 9))))
        f = w.attr(td, "data")
    except PyExc as e:
        return where, [("view", f"view|{label}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}")]
    u = w.s.unknown[n0:]
    rec = w.st.heap.get(f.aid) if isinstance(f, Ref) and f.kind == "frame" else None
    if rec is None or u:
        return where, [("view", f"view|{label}", "unknown", f"not modelled {u[:1]}")]
    sh = ZERO if label != "again" else C(10 ** 9)
    d = {str(k): v for k, v in rec.d.items()}
    for n, x in (("timestamp", t), ("price", p["prices"]), ("amount", p["volumes"]), ("side", p["sides"])):
        want = x if label == "all" else ref(w, "rows_between", [t, x, add(p["start"], sh), add(p["end"], sh)])[0]
        if n in d:
            s, m = compare(w, d[n], want, spec, "rows_between", points, vals, u, n)
            out.append(("view", f"view|{label}|{n}", s, f"{n}: {m}"))
        else:
            out.append(("view", f"view|{label}|{n}", "bad", f"no column {n}"))
    return where, out

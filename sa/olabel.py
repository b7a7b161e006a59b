"""Labels and sample weights at the object level: which event, which trade, which option reaches which kernel argument and output column."""
from __future__ import annotations
import ast
from .expr import *
from . import sdrive
from .summ import A, S, NONE, T as TRUE
from .osumm import Ser, Idx, Ref, Td, Ts, PyExc, show
from .ounits import World, NS
from .repo import Repo, AnalysisBroken
from .obars import params, trades, ref, compare, unlabelled, where_

MOD = "finmlkit.label.kit"
TR = "ts:t:nT prices:a:nT volumes:a:nT sides:s:nT"


def series(p, n, ix):
    a = p[n]
    return Ser(a.aid, a.off, a.ln, S(n))


def frame(w, cols, ix):
    n = next(iter(cols.values())).ln
    return w.s.rec(w.st, "frame", d={S(k): Ser(a.aid, a.off, a.ln, S(k)) for k, a in cols.items()}, ln=n, ix=ix)


def report(w, out, rule, tag, got, want, spec, name, points, u):
    """got: frame; want: {column: closed form}"""
    rec = w.st.heap.get(got.aid) if isinstance(got, Ref) and got.kind == "frame" else None
    if rec is None or u:
        out.append((rule, f"{rule}|{tag}", "unknown", f"not modelled {u[:1]}"))
        return None
    d = {str(k): v for k, v in rec.d.items()}
    have = list(d)
    out.append((rule, f"{rule}|{tag}|columns", "ok" if sorted(have) == sorted(want) else "bad", f"columns {have}, documented {list(want)}"))
    vals = {}
    for n, x in want.items():
        if n in d:
            s, m = compare(w, d[n], x, spec, name, points, vals, u, n)
            out.append((rule, f"{rule}|{tag}|{n}", s, f"{n}: {m}"))
    return rec


# ------------------------------------------------------------------- weights
def info_unit(root, label, points):
    repo = Repo(root)
    where = where_(repo, MOD, "SampleWeights", "compute_info_weights")
    out = []
    w = World(repo)
    spec = TR + " event_idx:ix:nE:0:nT-1 touch_idx:ix:nE:0:nT-1 et:t:nE normalize:b"
    spec = spec.replace("touch_idx:", "touch:")
    p = params(w, spec)
    n0 = len(w.s.unknown)
    t = p["et"]
    ix = Idx(t.aid, t.off, t.ln)
    lab = frame(w, {"event_idx": p["event_idx"], "touch_idx": p["touch"], "labels": p["event_idx"]}, ix)
    try:
        r = w.expr("SampleWeights.compute_info_weights(trades, labels, normalize=flag)", MOD, trades=trades(w, p), labels=lab, flag=p["normalize"])
    except PyExc as e:
        return where, [("info", f"info|{label}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}")]
    u = w.s.unknown[n0:]
    au, conc = ref(w, "average_uniqueness", [p["ts"], p["event_idx"], p["touch"]])
    ra = ref(w, "return_attribution", [p["event_idx"], p["touch"], p["prices"], conc, p["normalize"]])[0]
    rec = report(w, out, "info", "info", r, {"avg_uniqueness": au, "return_attribution": ra}, spec, "info", points, u)
    index(w, out, "info", "info", rec, ix, spec, points, u)
    return where, out


def index(w, out, rule, tag, rec, ix, spec, points, u):
    if rec is None:
        return
    if isinstance(rec.ix, A):
        s, m = compare(w, rec.ix, ix, spec, "index", points, {}, u, "index")
        out.append((rule, f"{rule}|{tag}|index", s, f"index: {m}"))
    else:
        out.append((rule, f"{rule}|{tag}|index", *unlabelled(rec, u)))


FINAL = ["plain", "attribution", "vertical", "labels", "attribution vertical labels"]


def final_unit(root, label, points):
    repo = Repo(root)
    where = where_(repo, MOD, "SampleWeights", "compute_final_weights")
    out = []
    w = World(repo)
    spec = "et:t:nE au:a:nE ra:a:nE vw:a:nE labels:s:nE last:N"
    p = params(w, spec)
    n0 = len(w.s.unknown)
    t = p["et"]
    ix = Idx(t.aid, t.off, t.ln)
    w.s.rowidx = ix
    parts = label.split()
    env = {n: Ser(p[n].aid, p[n].off, p[n].ln, S(n)) for n in ("au", "ra", "vw", "labels")}
    txt = "SampleWeights.compute_final_weights(au, time_decay_intercept=last" + "".join(
        f", {k}={v}" for k, v, c in (("return_attribution", "ra", "attribution"), ("vertical_touch_weights", "vw", "vertical"), ("labels", "labels", "labels")) if c in parts) + ")"
    try:
        r = w.expr(txt, MOD, last=p["last"], **env)
    except PyExc as e:
        return where, [("final", f"final|{label}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}")]
    u = w.s.unknown[n0:]
    names, vs = ["time_decay_weights"], []
    xs = ref(w, "final_weights", [p["au"], p["last"], p["ra"] if "attribution" in parts else NONE, p["vw"] if "vertical" in parts else NONE,
                                  p["labels"] if "labels" in parts else NONE])
    want = {"time_decay_weights": xs[0]}
    if "attribution" in parts:
        want["return_attribution"] = xs[1]
    if "vertical" in parts:
        want["vertical_touch_weights"] = p["vw"]
    want["weights"] = xs[2]
    rec = report(w, out, "final", label, r, want, spec, "final_weights", points, u)
    return where, out


# ------------------------------------------------------------------- labels
TBM = ["search", "given", "meta", "given meta", "search again"]


OTHER = "9ts:t:n9 9prices:a:n9 9volumes:a:n9 9sides:s:n9".replace("9", "o")


def label_unit(root, label, points):
    repo = Repo(root)
    where = where_(repo, MOD, "TBMLabel", "compute_labels")
    out = []
    w = World(repo)
    spec = TR + " et:t:nE feat:a:nE target:a:nE event_idx:ix:nE:0:nT-1 side:s:nE min_ret:N h0:F h1:F vb:F mct:F"
    p = params(w, spec)
    if "again" in label.split():
        spec += " " + OTHER
    n0 = len(w.s.unknown)
    t = p["et"]
    ix = Idx(t.aid, t.off, t.ln)
    w.s.rowidx = ix
    cols = {"feat": p["feat"], "target": p["target"], "side": p["side"]}
    if "given" in label.split():
        cols["event_idx"] = p["event_idx"]
    f = frame(w, cols, ix)
    td = trades(w, p)
    again = "again" in label.split()
    if again:
        q = params(w, OTHER)
        other = trades(w, {k[1:]: v for k, v in q.items()})
    try:
        o = w.expr("TBMLabel(features, 'target', min_ret, (h0, h1), vb, mct, is_meta=meta)", MOD, features=f, min_ret=p["min_ret"], h0=p["h0"], h1=p["h1"],
                   vb=Td(mul(p["vb"], C(NS))), mct=Td(mul(p["mct"], C(NS))), meta=TRUE if "meta" in label.split() else w.s.ev(ast.Constant(False), w.st))
        if again:
            w.method(o, "compute_labels", other)
        r = w.s.items(w.method(o, "compute_labels", td), w.st)
    except PyExc as e:
        return where, [("labels", f"labels|{label}", "bad" if len(w.s.unknown) == n0 else "unknown", f"always raises: {e}")]
    u = w.s.unknown[n0:]
    if r is None or len(r) != 2:
        return where, [("labels", f"labels|{label}", "unknown", "shape")]
    no = w.s.ev(ast.Constant(False), w.st)
    xs = ref(w, "event_labels", [p["ts"], p["prices"], p["et"], p["feat"], p["target"], p["event_idx"], TRUE if "given" in label.split() else no, p["side"],
                                 TRUE if "meta" in label.split() else no, p["min_ret"], p["h0"], p["h1"], p["vb"], p["mct"]])
    want = dict(zip(["event_idx", "touch_idx", "labels", "returns", "vertical_touch_weights", "touch_time"], xs))
    rec = report(w, out, "labels", label, r[1], want, spec, "event_labels", points, u)
    index(w, out, "labels", label, rec, xs[6], spec, points, u)
    k = w.st.heap.get(r[0].aid) if isinstance(r[0], Ref) else None
    if k is not None and not u:
        index(w, out, "events", label, k, xs[6], spec, points, u)
        d = {str(n): v for n, v in k.d.items()}
        out.append(("events", f"events|{label}|columns", "ok" if set(cols) <= set(d) else "bad", f"columns {list(d)}"))
        if "target" in d:
            s, m = compare(w, d["target"], xs[7], spec, "event_labels", points, {}, u, "target")
            out.append(("events", f"events|{label}|target", s, f"target: {m}"))
    return where, out

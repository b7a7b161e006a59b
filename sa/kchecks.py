"""Obligations over the results of a kernel run."""
from __future__ import annotations
from .lin import Lin, L, sym, prove, infeasible, witness
from .vals import *
from .interp import fmtw


def walk_arrays(v, st, path=""):
    if isinstance(v, Maybe):
        v = v.val
    if isinstance(v, Arr):
        yield path, v
    elif isinstance(v, Tup):
        for i, x in enumerate(v.items):
            yield from walk_arrays(x, st, f"{path}[{i}]")


def wit(eng, st, conds):
    if infeasible(st.facts, conds):
        return "proved", None
    if st.opaque:
        return "unknown", None
    w = witness(st.facts, conds)
    if w is None:
        return "unknown", None
    for s in w:
        if "#" in s and s not in eng.free and not s.startswith("@"):
            return "unknown", None
    return "bad", w


def causal_pieces(eng, st, v, pieces, ignore=(), rowoff=L(0)):
    """-> list (status, msg) : every cell k of the view may only use rows <= k"""
    out = []
    for p in pieces:
        base = []
        base.append(KL - p.klo if p.klo is not None else KL)
        if p.khi is not None:
            base.append(p.khi - KL)
        elif v.ln is not None:
            base.append(v.ln - 1 - KL)
        if infeasible(st.facts, base):
            continue
        for d in p.deps:
            if d.role in ignore or d.role.startswith("*"):
                if d.role == "*random":
                    out.append(("bad", "value drawn at random", d))
                continue
            if d.hi == UNK:
                out.append(("unknown", f"rows of {d.role} used are not bounded by the analysis", d))
                continue
            if d.hi == TOP:
                s, w = wit(eng, st, base + [eng.rowlen - 2 - KL] if eng.rowlen is not None else base)
                if s == "bad":
                    out.append(("bad", f"row k uses all rows of {d.role}, including later ones", d))
                elif s == "unknown":
                    out.append(("unknown", f"whole-column use of {d.role}", d))
                continue
            g = KL + rowoff - d.hi
            extra = []
            if isinstance(d.lo, Lin):
                extra.append(d.hi - d.lo)      # the dependency range is non-empty
            extra.append(eng.rowlen - 1 - d.hi) if eng.rowlen is not None else None
            s, w = wit(eng, st, base + [-g - 1] + extra)
            if s == "proved":
                out.append(("ok", f"{d.role} rows <= k", d))
            elif s == "bad":
                out.append(("bad", f"row {w.get(K, 'k')} of the output uses row {d.hi} of {d.role} ({fmtw(w)})", d))
            else:
                out.append(("unknown", f"{d.role} up to {d.hi} against k", d))
    return out


def check_causal(eng, rets, ignore=()):
    """returned row-axis arrays"""
    eng.rowlen = sym("n")
    res = []
    for v, st in rets:
        if st.dead():
            continue
        for path, a in walk_arrays(v, st):
            if a.ln is None or not isinstance(a.ln, Lin):
                res.append(("unknown", path, "length not tracked", None))
                continue
            if not prove(st.facts, a.ln - sym("n")) or not prove(st.facts, sym("n") - a.ln):
                res.append(("unknown", path, f"length {a.ln} is not the row axis", None))
                continue
            for s, m, d in causal_pieces(eng, st, a, eng.view_pieces(a, st), ignore):
                res.append((s, path, m, d))
            if not eng.view_pieces(a, st):
                res.append(("ok", path, "constant", None))
    return res


def check_cover(eng, rets):
    """returned np.empty buffers are completely written"""
    res = []
    for v, st in rets:
        if st.dead():
            continue
        for path, a in walk_arrays(v, st):
            A = st.heap.get(a.bid)
            if not isinstance(A, ArrS) or A.cover is None:
                continue
            if a.off is None or a.ln is None or a.step not in (1, -1) or not isinstance(a.ln, Lin):
                res.append(("unknown", path, "view not tracked", A, None))
                continue
            lo, hi = (a.off, a.off + a.ln - 1) if a.step == 1 else (a.off - a.ln + 1, a.off)
            base = [KL - lo, hi - KL]
            cov = list(dict.fromkeys(A.cover))[:10]
            # try to find a cell in none of the intervals
            status = "ok"
            found = None

            def rec(i, conds):
                nonlocal status, found
                if found or infeasible(st.facts, conds):
                    return
                if i == len(cov):
                    s, w = wit(eng, st, conds)
                    if s == "bad":
                        found = w
                    status = "x"
                    return
                c0, c1 = cov[i]
                rec(i + 1, conds + [c0 - 1 - KL])
                rec(i + 1, conds + [KL - c1])
            rec(0, base)
            if status == "ok":
                res.append(("ok", path, f"buffer of {A.fn}:{A.line} completely written", A, None))
            elif A.mayunk or found is None:
                res.append(("unknown", path, "coverage not decided", A, None))
            else:
                res.append(("bad", path, f"cell {found.get(K)} of the np.empty buffer allocated in {A.fn} is never written ({fmtw(found)})", A, found))
    return res

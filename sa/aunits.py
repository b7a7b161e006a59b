"""Run agreement units (closed form of a kernel against its definition) and file the obligations."""
from __future__ import annotations
from .repo import Repo, AnalysisBroken
from . import agree, pool

ASSUME = ["inputs satisfy the kernels' contract: arrays of one axis have equal length >= 1, timestamps sorted, window/period/lag parameters >= 1, "
          "prices and volumes positive unless the definition handles missing values, bar boundaries non-decreasing positions",
          "values are compared as real numbers: rounding, float32 storage and integer width are not part of this claim"]


def unit(root, name, points):
    repo = Repo(root)
    mod, _ = agree.table(name)
    fn = repo.func(mod, name)
    where = f"{fn._mod.path}:{fn.lineno}"
    agree.EXTRA = 8 if points < 100 else 60
    return where, agree.compare(repo, name, points)


def run_agree(rep, repo, names, tier, limit=None):
    pts = 24 if tier == "quick" else 120
    limit = limit or (240 if tier == "quick" else 800)
    for name, (st, v) in zip(names, pool.run(unit, [(repo.root, n, pts) for n in names], limit)):
        if st != "ok":
            rep.skipped.append({"unit": name, "why": f"{st}: {v}"})
            rep.add("unknown", "formula", f"formula|{name}", name, f"{st}: {v}")
            continue
        where, rows = v
        rep.analysed.append(name)
        for lab, s, msg in rows:
            key = f"formula|{name}|{lab}"
            if s == "same":
                rep.add("ok", "formula", key, where, "normal forms are identical")
            elif s == "agree":
                rep.add("ok", "formula", key, where, f"normal forms differ in shape and agree at every interpreted point ({msg})")
            elif s == "differ":
                rep.add("bad", "formula", key, where, f"result {lab or '0'} is not what the definition says; {msg}")
            elif s == "known":
                rep.add("bad", "formula", key + "|asis", where, f"result {lab or '0'} deviates from its definition in the listed way; {msg}")
            elif s == "constant":
                rep.add("bad", "informative", f"constant|{name}|{lab}", where, f"result {lab} is {msg} whatever the input: it cannot mean what its documentation says")
            else:
                rep.add("unknown", "formula", key, where, msg)


RULE = ("formula: the closed form of each returned column, derived from the source by value numbering and solving its loops, equals the closed "
        "form of the written definition (identical normal forms; where the forms differ, a point of random interpretation that separates them refutes)")


def prop(pid, names, floor, objects=()):
    """objects: (kind, label) units of obars filed next to the kernels"""
    def check(repo, tier):
        from .report import Report
        rep = Report(pid, tier, [RULE] + ([ORULE] if objects else []))
        rep.assumptions += ASSUME
        run_agree(rep, repo, names, tier)
        rep.floor("kernels compared with their definition", len(rep.analysed), floor)
        rep.floor("results decided", sum(o.status != "unknown" for o in rep.obs), floor)
        run_objects(rep, repo, objects, tier)
        return rep.finish()
    return check


ORULE = ("columns, column, boundaries: the same comparison for what the classes return, by abstract interpretation of construction and call "
         "with symbolic trades, boundaries and options")


def ounit(kind, root, label, points):
    agree.EXTRA = 0.5 if points < 100 else 5
    from . import obars, otrades, oprofile
    mod = next(m for m in (otrades, oprofile, obars) if hasattr(m, kind + "_unit"))
    return getattr(mod, kind + "_unit")(root, label, points)


def run_objects(rep, repo, objects, tier):
    pts = 24 if tier == "quick" else 120
    for (k, n), (s, v) in zip(objects, pool.run(ounit, [(k, str(repo.root), n, pts) for k, n in objects], 240 if tier == "quick" else 800)):
        if s != "ok":
            rep.skipped.append({"unit": f"{k} {n}", "why": f"{s}: {v}"})
            continue
        rep.analysed.append(f"{k} {n}")
        where, rows = v
        for rule, key, st, m in rows:
            rep.add(st, rule, key, where, m)


def eunit(what, root, name, points, seconds):
    repo = Repo(root)
    mod, _ = agree.table(name)
    fn = repo.func(mod, name)
    return f"{fn._mod.path}:{fn.lineno}", getattr(agree, what)(repo, name, points, seconds)


def run_edges(rep, repo, names, tier, rule, what="edges"):
    """properties of the closed forms themselves, at interpreted points"""
    a = (48, 12) if tier == "quick" else (400, 150)
    for name, (st, v) in zip(names, pool.run(eunit, [(what, repo.root, n, *a) for n in names], 90 if tier == "quick" else 800)):
        if st != "ok":
            continue
        where, rows = v
        for k, (s, m) in rows.items():
            lab, r = k if isinstance(k, tuple) else (k, rule)
            if r == rule:
                rep.add(s, rule, f"{rule} of the closed form|{name}|{lab}", where, f"result {lab or '0'}: {m}")

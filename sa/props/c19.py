"""C19: feature expressions and feature sets mean what they say."""
from .. import pool
from ..ofeature import BACK, EXPRS, KITS, backend_unit, expr_unit, kit_unit
from ..report import Report

RULES = {
    "value": "the expression's closed form equals its row-by-row meaning over the frame's columns, on either backend",
    "name": "the returned column carries the feature's name",
    "backend": "every operand is computed with the backend asked for, however deeply nested",
    "pure": "the caller's frame keeps its columns and names",
    "kit": "a feature set returns the retained columns and then one column per feature, in the documented order, each equal to the feature computed alone",
}


def one(kind, root, label, points):
    return {"expr": expr_unit, "kit": kit_unit, "backend": backend_unit}[kind](root, label, points)


def check(repo, tier):
    rep = Report("C19", tier, RULES)
    jobs = [("kit", n) for n in KITS] + [("expr", n) for n in EXPRS] + [("backend", n) for n in BACK]
    pts = 24 if tier == "quick" else 120
    res = pool.run(one, [(k, str(repo.root), n, pts) for k, n in jobs], 240 if tier == "quick" else 800)
    done = 0
    for (k, n), (s, v) in zip(jobs, res):
        if s != "ok":
            rep.skipped.append({"unit": f"{k} {n}", "why": f"{s}: {v}"})
            continue
        done += 1
        rep.analysed.append(f"{k} {n}")
        where, out = v
        for rule, key, st, m in out:
            if rule in RULES:
                rep.add(st, rule, key, where, m)
    rep.assumptions += [
        "columns may hold missing values; windows and lags are integers >= 1; constants are arbitrary numbers",
        "pandas operators behave as documented (models in sa/osumm.py and sa/spec/pdops.py); arithmetic is exact",
        "expression shapes and feature sets are the ones listed in sa/ofeature.py",
    ]
    rep.floor("expressions and sets analysed", done, 15)
    rep.floor("expression values decided", sum(o.rule in ("value", "kit") and o.status == "ok" for o in rep.obs), 20)
    return rep.finish()

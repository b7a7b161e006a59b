"""C08: a saved configuration rebuilds the same computation."""
from .. import pool
from ..ofeature import EXPRS, KITS, RESTORED, NOCONFIG, expr_unit, kit_unit, rt_unit, class_unit
from ..ounits import concrete
from ..report import Report

RULES = {
    "json": "every value a configuration holds can be written as JSON",
    "restored-name": "the restored feature and its column carry the original names",
    "restored": "the restored feature's closed form equals the original's, on either backend",
    "restored-kit": "the restored feature set builds the same columns, in the same order, with the same values",
}


def one(kind, root, label, points):
    f = {"expr": expr_unit, "kit": kit_unit, "rt": rt_unit, "class": class_unit}[kind]
    return f(root, label, points)


def check(repo, tier):
    rep = Report("C08", tier, RULES)
    jobs = [("class", n) for n in concrete(repo) if n != "ExternalFunction"] + [("rt", n) for n in RESTORED] + [("kit", n) for n in KITS] + [("expr", n) for n in EXPRS if n not in NOCONFIG]
    pts = 24 if tier == "quick" else 120
    res = pool.run(one, [(k, str(repo.root), n, pts) for k, n in jobs], 240 if tier == "quick" else 800)
    done = 0
    for (k, n), (s, v) in zip(jobs, res):
        if s != "ok":
            rep.skipped.append({"unit": f"{k} {n}", "why": f"{s}: {v}"})
            continue
        done += 1
        rep.analysed.append(f"{k} {n}")
        where, out = v
        for rule, key, st, m in out:
            if rule in RULES:
                rep.add(st, rule, key, where, m)
    rep.assumptions += [
        "writing JSON and reading it back keeps strings, numbers, booleans, lists and string-keyed maps, turns tuples into lists, and rejects everything else",
        "user-supplied functions (lambdas) are documented as not restorable; functions named by import path are",
        "option values are arbitrary; expression shapes are the ones listed in sa/ofeature.py plus every transform class with every switch",
    ]
    rep.floor("features round-tripped", done, 20)
    rep.floor("restored computations decided", sum(o.rule.startswith("restored") and o.status == "ok" for o in rep.obs), 20)
    return rep.finish()

"""C09: a column name identifies the computation."""
from .. import pool
from ..ofeature import EXPRS, NOCONFIG
from ..onames import option_unit, expr_options_unit, pairs_unit, classes_unit
from ..ounits import concrete
from ..report import Report

RULES = {
    "option": "two instances that differ in one option and compute different values have different column names",
    "pair": "two expressions with the same name compute the same values",
    "classes": "two transform classes with a common column name compute the same values",
}


def one(kind, root, label, points):
    if kind == "pairs":
        return pairs_unit(root, points)
    if kind == "classes":
        return classes_unit(root, points)
    return (option_unit if kind == "class" else expr_options_unit)(root, label, points)


def check(repo, tier):
    rep = Report("C09", tier, RULES)
    jobs = [("class", n) for n in concrete(repo) if n != "ExternalFunction"]
    jobs.sort(key=lambda j: j[1] not in ("CUSUMTest", "VarianceRatio14", "ATR"))
    jobs += [("pairs", ""), ("classes", "")] + [("expr", n) for n in EXPRS if n not in NOCONFIG and not n.startswith("ext")]
    pts = 24 if tier == "quick" else 120
    res = pool.run(one, [(k, str(repo.root), n, pts) for k, n in jobs], 240 if tier == "quick" else 800)
    done = 0
    for (k, n), (s, v) in zip(jobs, res):
        if s != "ok":
            rep.skipped.append({"unit": f"{k} {n}", "why": f"{s}: {v}"})
            continue
        done += 1
        rep.analysed.append(f"{k} {n}")
        where, out = v
        for rule, key, st, m in out:
            rep.add(st, rule, key, where, m)
    rep.assumptions += [
        "names are compared between features over the same input columns; names of transforms with several inputs do not mention them by design",
        "numbers are formatted by Python's str/format",
        "a name is refuted only by a pair of settings whose closed forms have different values at a drawn point where the names are the same text",
    ]
    rep.floor("instances and expressions analysed", done, 20)
    rep.floor("options told apart", sum(o.rule == "option" and o.status == "ok" for o in rep.obs), 10)
    return rep.finish()

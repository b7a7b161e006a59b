"""C13: every transform returns its documented columns on both backends."""
from .. import pool
from ..oclasses import unit
from ..ounits import concrete
from ..repo import Repo
from ..report import Report

SKIP = ("ExternalFunction",)


def check(repo, tier):
    rep = Report("C13", tier, {
        "value": "the returned column's closed form equals the written definition of the transform (over its declared inputs, in declared order, and its options)",
        "arity": "as many columns are returned as are advertised",
        "name": "each returned column carries its advertised name",
        "returns": "a call on a frame with the declared columns does not always raise",
    })
    names = [n for n in concrete(repo) if n not in SKIP]
    pts = 24 if tier == "quick" else 120
    res = pool.run(unit, [(str(repo.root), n, pts) for n in names], 300 if tier == "quick" else 800)
    done = 0
    for n, (s, v) in zip(names, res):
        if s != "ok":
            rep.skipped.append({"unit": n, "why": f"{s}: {v}"})
            continue
        where, out = v
        done += 1
        rep.analysed.append(n)
        for k, st, m in out:
            rep.add(st, k.split("|")[0], k, where, m)
    rep.assumptions += [
        "input columns hold no missing values unless the definition handles them; integer options >= 1, float options > 0; index strictly increasing",
        "pandas operators behave as documented (models in sa/osumm.py and sa/spec/pdops.py); arithmetic is exact",
    ]
    rep.floor("transform classes analysed", done, 15)
    rep.floor("column values decided", sum(o.rule == "value" and o.status == "ok" for o in rep.obs), 20)
    return rep.finish()

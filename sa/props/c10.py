"""C10: results are reproducible - independent of hash order, clocks, worker order and earlier calls."""
from .. import pool, determ, ohist
from ..ofeature import EXPRS, KITS
from ..ounits import concrete
from ..report import Report


def one(kind, root, label, points):
    if kind == "order":
        from ..repo import Repo
        return determ.findings(Repo(root))
    return {"expr": ohist.expr_unit, "kit": ohist.kit_unit, "class": ohist.class_unit}[kind](root, label, points)


def check(repo, tier):
    rep = Report("C10", tier, {
        "order": "no value a caller can observe depends on set or directory order, on the completion order of workers, on clocks, random numbers, identities or string hashes",
        "history": "a feature, expression or feature set used before gives the closed form that a fresh one gives",
    })
    jobs = [("order", "package")] + [("class", n) for n in concrete(repo) if n != "ExternalFunction"] + [("kit", n) for n in KITS] + [("expr", n) for n in EXPRS]
    pts = 24 if tier == "quick" else 120
    res = pool.run(one, [(k, str(repo.root), n, pts) for k, n in jobs], 240 if tier == "quick" else 800)
    done = 0
    for (k, n), (s, v) in zip(jobs, res):
        if s != "ok":
            rep.skipped.append({"unit": f"{k} {n}", "why": f"{s}: {v}"})
            continue
        if k == "order":
            names, bad = v
            rep.analysed += names
            hit = set()
            for key, where, msg in bad:
                rep.add("bad", "order", f"order|{key}", where, msg)
                hit.add(key.split("|")[0])
            for f in names:
                if f not in hit:
                    rep.add("ok", "order", f"order|{f}", f, "")
            rep.floor("functions analysed", len(names), 200)
            continue
        done += 1
        rep.analysed.append(f"{k} {n}")
        where, out = v
        for key, st, m in out:
            rep.add(st, "history", key, where, m)
    rep.assumptions += [
        "membership tests, lengths, sorting and order-free reductions of a set do not depend on its order; adding numbers in another order is not counted as a difference",
        "text made for display only (repr, str) is not a result",
        "numba compiles what the source says; the schedule of parallel loops is the subject of C02",
    ]
    rep.floor("features and sets analysed", done, 30)
    return rep.finish()

"""C14: contradictory or impossible inputs are refused, valid ones are not."""
from .. import pool, refuse, orefuse
from ..ounits import concrete
from ..report import Report


def one(kind, root, label, points):
    if kind == "kernel":
        fn, rows = refuse.kernel_unit(root, label, points)
        return f"{fn._mod.path}:{fn.lineno}", [("condition", k, st, f"{label}: {m}") for _, k, st, m in rows]
    return getattr(orefuse, kind + "_unit")(root, label, points)


def check(repo, tier):
    rep = Report("C14", tier, {
        "condition": "the condition under which a function returns, as a closed form of its arguments (every reachable raise negated, calls included), is the complement of the documented refusal condition: "
                     "equal normal forms, or no point of random interpretation separates them in either direction",
        "refused": "abstract interpretation of the request: a request that is documented to be refused raises on every path, one that is documented to be valid returns on every path",
    })
    names = list(concrete(repo))
    jobs = ([("kernel", k) for k in refuse.TABLE] + [("case", k) for k in orefuse.CASES] + [("transform", n) for n in names if n not in orefuse.SKIP]
            + [("notime", n) for n in orefuse.NOTIME if n in names] + [("files", k) for k in orefuse.FILES])
    pts = 24 if tier == "quick" else 120
    done = 0
    for (k, n), (s, v) in zip(jobs, pool.run(one, [(k, str(repo.root), n, pts) for k, n in jobs], 240 if tier == "quick" else 800)):
        if s != "ok":
            rep.skipped.append({"unit": f"{k} {n}", "why": f"{s}: {v}"})
            continue
        done += 1
        rep.analysed.append(f"{k} {n}")
        where, rows = v
        for rule, key, st, m in rows:
            rep.add(st, rule, key, where, m)
    rep.assumptions += ["a refusal is any exception raised before a result is returned; its type and text are not part of this claim",
                        "input columns have no missing values unless the request is about them; failures of files and memory are outside this claim"]
    rep.floor("requests analysed", done, 60)
    return rep.finish()

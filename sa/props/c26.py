"""C26: labels and weights belong to their events (object level)."""
from .. import pool, olabel
from ..report import Report


def one(kind, root, label, points):
    return getattr(olabel, kind + "_unit")(root, label, points)


def check(repo, tier):
    rep = Report("C26", tier, {
        "labels": "each column of the label table is the triple-barrier result of the kept events, at the trades their times select, with the options given",
        "events": "the returned events are exactly those kept, in the same order",
        "info": "uniqueness and return attribution are those of the events in the table given",
        "final": "the final weights are the documented product, normalised to mean one and class-balanced when asked",
    })
    jobs = [("label", k) for k in olabel.TBM] + [("info", "")] + [("final", k) for k in olabel.FINAL]
    pts = 24 if tier == "quick" else 120
    done = 0
    for (k, n), (s, v) in zip(jobs, pool.run(one, [(k, str(repo.root), n, pts) for k, n in jobs], 240 if tier == "quick" else 800)):
        if s != "ok":
            rep.skipped.append({"unit": f"{k} {n}", "why": f"{s}: {v}"})
            continue
        done += 1
        rep.analysed.append(f"{k} {n}".strip())
        where, rows = v
        for rule, key, st, m in rows:
            rep.add(st, rule, key, where, m)
    rep.assumptions += ["event times and trade times are sorted and distinct; every feature column has at least one value and none after its first",
                        "the triple-barrier, uniqueness, attribution, decay and class-balance kernels themselves are compared with their definitions in C23"]
    rep.floor("label and weight units analysed", done, 4)
    return rep.finish()

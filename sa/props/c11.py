"""C11: stored trades come back as they were stored (object level, abstract files)."""
from .. import pool, ostore
from ..report import Report


def one(kind, root, label, points):
    return getattr(ostore, kind + "_unit")(root, label, points)


def check(repo, tier):
    rep = Report("C11", tier, {
        "range": "loading between two times gives the stored rows of exactly those times, in time order, whatever the order of saving and the way of loading",
        "stored": "loading a month gives the rows saved to it: all parts after appending, only the last after overwriting",
        "absent": "asking for a month or a range that is not stored raises",
        "key": "a month's key is the one given, or that of its first trade",
        "metadata": "count, first and last time, quality flag, gap records and statistics are those of the rows stored in that month",
    })
    jobs = [("month", k) for k in ostore.MONTHS] + [("range", k) for k in ostore.RANGES]
    pts = 24 if tier == "quick" else 120
    done = 0
    for (k, n), (s, v) in zip(jobs, pool.run(one, [(k, str(repo.root), n, pts) for k, n in jobs], 240 if tier == "quick" else 800)):
        if s != "ok":
            rep.skipped.append({"unit": f"{k} {n}", "why": f"{s}: {v}"})
            continue
        done += 1
        rep.analysed.append(f"{k} {n}")
        where, rows = v
        for rule, key, st, m in rows:
            rep.add(st, rule, key, where, m)
    rep.assumptions += ["a file is an ordered mapping from key to the frame or record put there; what HDF5 does to bytes, concurrency and crashes is outside this claim",
                        "trades of a month are sorted by distinct times and months follow one another; every group read has a row in the requested range",
                        "worker processes finish in an order that is not the order of submission"]
    rep.floor("store histories analysed", done, 10)
    return rep.finish()

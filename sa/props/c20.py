"""C20: stored one-second bars and what is read from them (object level, abstract files)."""
from .. import pool, oklines
from ..report import Report


def one(kind, root, label, points):
    return getattr(oklines, kind + "_unit")(root, label, points)


def check(repo, tier):
    rep = Report("C20", tier, {
        "bars": "the bars stored for a month are the one-second bars of that month's trades, column by column, labelled by their close times; only months asked for get bars",
        "record": "the record beside the bars of a month has their count, first and last label and the trades they came from",
        "result": "building reports whether bars were built; existing bars are left alone unless they are to be replaced",
        "trades": "adding bars leaves the stored trades as they were",
        "absent": "asking for bars of a month that is not stored raises",
        "keys": "stored months are listed in order and the covered time span is that of the bars",
        "range": "reading between two times gives exactly the stored bars of those times in time order; a date as the end includes that whole day",
        "longer": "a longer bar aggregates exactly the one-second bars of its interval: first, highest, lowest, last, sums, volume-weighted price, trade-weighted median; a last day that is not complete is left out",
        "raises": "a documented way of building or reading does not raise",
    })
    jobs = [("write", k) for k in oklines.WRITES] + [("read", k) for k in oklines.READS] + [("resample", k) for k in oklines.STEPS] + [("day", k) for k in oklines.DAYS]
    pts = 24 if tier == "quick" else 120
    done = 0
    for (k, n), (s, v) in zip(jobs, pool.run(one, [(k, str(repo.root), n, pts) for k, n in jobs], 240 if tier == "quick" else 800)):
        if s != "ok":
            rep.skipped.append({"unit": f"{k} {n}", "why": f"{s}: {v}"})
            continue
        done += 1
        rep.analysed.append(f"{k} {n}")
        where, rows = v
        for rule, key, st, m in rows:
            rep.add(st, rule, key, where, m)
    rep.assumptions += ["a file is an ordered mapping from key to the frame or record put there; what HDF5 does to bytes, concurrency and crashes is outside this claim",
                        "stored bars have no missing values, positive volumes and distinct, sorted whole-second labels; months follow one another"]
    rep.floor("histories of stored bars analysed", done, 12)
    return rep.finish()

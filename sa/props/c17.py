"""C17: footprint containers keep every field of every bar together."""
from .. import pool, obars
from ..report import Report


def one(kind, root, label, points):
    return {"built": obars.built_unit, "slice": obars.slice_unit, "store": obars.numba_unit, "valid": obars.valid_unit}[kind](root, label, points)


def check(repo, tier):
    rep = Report("C17", tier, {
        "footprint": "each field of a footprint that a bar builder makes is the documented quantity of the bar's own trades",
        "slice": "each field of a slice is the slice of that field",
        "fields": "making a container from computed arrays and switching its storage keep each field",
        "valid": "validation accepts exactly the containers all of whose fields cover the same bars",
    })
    jobs = [("built", "")] + [("slice", k) for k in obars.KEYS] + [("store", k) for k in ("from_numba", "cast_to_numpy", "cast_to_numba_list")]
    jobs += [("valid", k) for k in [""] + obars.PERBAR]
    pts = 24 if tier == "quick" else 120
    done = 0
    for (k, n), (s, v) in zip(jobs, pool.run(one, [(k, str(repo.root), n, pts) for k, n in jobs], 240 if tier == "quick" else 800)):
        if s != "ok":
            rep.skipped.append({"unit": f"{k} {n}", "why": f"{s}: {v}"})
            continue
        done += 1
        rep.analysed.append(f"{k} {n}".strip())
        where, rows = v
        for rule, key, st, m in rows:
            rep.add(st, rule, key, where, m)
    rep.assumptions += ["bars have distinct sorted closing times; slice bounds given as positions lie inside the container or are clipped as Python does",
                        "values are compared as real numbers: integer width and float32 storage are not part of this claim"]
    rep.floor("footprint units analysed", done, 10)
    return rep.finish()

"""C05: the caller's data is never modified."""
from ..effects import findings
from ..report import Report


def check(repo, tier):
    rep = Report("C05", tier, {
        "argument": "no path of the function stores into, or calls a mutating operation on, a value that may share storage with the argument",
        "kept": "no method modifies an object that a caller passed in and the instance keeps",
    })
    seen, nobs, bad = findings(repo)
    rep.analysed += seen
    for rule, key, where in nobs:
        rep.add("ok", rule, key, where, "")
    for rule, key, where, msg in bad:
        rep.add("bad", rule, key, where, msg)
    rep.assumptions += [
        "aliasing through plain names, attributes, views (slices, .values, asarray, reshape, ...), containers, pandas columns and calls inside the package is followed; operations of numpy and pandas outside the listed views and in-place operations return fresh objects",
        "integer-indexed elements are not followed through in-place arithmetic on a local name (they are numbers)",
        "helpers that are not part of the public interface may fill buffers of their callers; their effects are judged at the callers",
    ]
    rep.floor("public functions analysed", len(seen), 150)
    return rep.finish()

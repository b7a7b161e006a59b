from ..report import Report
from ..kunits import run_units
from ..engine import KERNELS
from ..aunits import run_edges
from ..agree import DEFINED

RULE = ("bounds: every subscript of an array in a compiled kernel (no run-time bounds checking there) stays inside 0..len-1 on every path, "
        "for every length, window and boundary position admitted by the entry assumptions; a literal negative index counts from the end and must exist")


def check(repo, tier):
    rep = Report("C03", tier, [RULE, "data-dependent positions: the closed form of each returned column (see DESIGN.md) is interpreted at points of the input domain where its definition is defined, and may not read past the ends of an array there"])
    rep.assumptions += ["array parameters of one entry point that describe the same rows have equal length (where the code checks it, the check is honoured)",
                        "arrays are non-empty; windows, periods and thresholds are >= 1; timestamps are strictly increasing",
                        "bar boundaries are non-decreasing positions into the trades, only the first may be -1 (no trade before the first edge)"]
    run_units(rep, repo, list(KERNELS), {"bounds"})
    run_edges(rep, repo, DEFINED, tier, "bounds")
    rep.floor("subscripts", len(rep.obs), 150)
    return rep.finish()

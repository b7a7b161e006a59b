from ..report import Report
from ..kunits import run_units
from ..engine import KERNELS
from ..aunits import run_edges
from ..agree import DEFINED

RULE = ("cover: a buffer allocated without initial contents and handed back to the caller has every cell in its returned extent written on every path to the return")


def check(repo, tier):
    rep = Report("C04", tier, [RULE, "data-dependent writes: the closed form of each returned column, interpreted at points of the input domain, may not use an element of a buffer that was never assigned"])
    run_units(rep, repo, list(KERNELS), {"cover"})
    run_edges(rep, repo, DEFINED, tier, "cover")
    rep.floor("returned uninitialised buffers", len(rep.obs), 1)
    return rep.finish()

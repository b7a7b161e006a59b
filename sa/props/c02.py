from ..report import Report
from ..kunits import run_units
from ..repo import is_parallel
from ..engine import KERNELS

RULE = ("race: for every pair of accesses to one array that is shared by the iterations of a parallel loop, at least one of them a write, "
        "the cells touched by two different iterations are disjoint; a scalar is not carried from one iteration to the next; nothing is appended to a shared list")


def check(repo, tier):
    rep = Report("C02", tier, [RULE])
    run_units(rep, repo, list(KERNELS), {"race"})
    rep.floor("parallel write sites", len(rep.obs), 3)
    return rep.finish()

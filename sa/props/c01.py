from ..report import Report
from ..kunits import run_units, CAUSAL, EVENT
from ..tunits import run_transforms
from ..aunits import run_edges

RULES = ["causal: for every output cell k of a row-aligned kernel or transform, every input row its value (or the branch that selected it) may depend on is <= k",
         "event: an index emitted by a bar indexer or sampler at row i was decided with rows <= i only",
         "prefix: the closed form of each row-aligned result, interpreted at points of the input domain, gives its first m rows the same values "
         "when the rows after m are cut off",
         "random: no row-aligned output depends on a random source"]


def check(repo, tier):
    rep = Report("C01", tier, RULES)
    run_units(rep, repo, sorted(set(CAUSAL) | EVENT), {"causal", "event"})
    run_transforms(rep, repo, {"causal"})
    run_edges(rep, repo, CAUSAL, tier, "prefix", "prefixes")
    rep.floor("causality obligations", len(rep.obs), 60)
    rep.assumptions = ["rows are in time order with distinct timestamps; window, period and lag parameters are >= 1",
                       "user-supplied callables (ExternalFunction, Feature.apply with the caller's own function) are outside the claim"]
    return rep.finish()

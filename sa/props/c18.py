from ..report import Report
from ..tunits import run_transforms

RULES = ["index: every series a transform or feature operator returns is labelled row for row with the caller's index",
         "length: it has one value per input row",
         "name: it carries the name the transform advertises (output_name), in the advertised order and number"]


def check(repo, tier):
    rep = Report("C18", tier, RULES)
    run_transforms(rep, repo, {"contract"})
    rep.floor("contract obligations", len(rep.obs), 80)
    rep.assumptions = ["the caller's frame has a sorted DatetimeIndex and the required columns"]
    return rep.finish()

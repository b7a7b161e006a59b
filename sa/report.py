"""Obligations, known findings, evidence and exit codes."""
from __future__ import annotations
import json, os, sys, time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


class Ob:
    """one decided rule instance"""
    __slots__ = ("status", "rule", "key", "where", "msg")

    def __init__(self, status, rule, key, where, msg):
        self.status, self.rule, self.key, self.where, self.msg = status, rule, key, where, msg

    def tup(self):
        return (self.status, self.rule, self.key, self.where, self.msg)


def load_known():
    """-> {property: {key: text}} ; 'fixed:' lines suppress nothing"""
    out = {}
    p = ROOT / "known_findings.txt"
    if p.exists():
        for ln in p.read_text().splitlines():
            if not ln.startswith("KNOWN-FINDING:"):
                continue
            body = ln[len("KNOWN-FINDING:"):].strip()
            prop, key, text = body.split(" ", 2)
            out.setdefault(prop.split("=", 1)[1], {})[key.split("=", 1)[1]] = text
    return out


class Report:
    def __init__(self, prop, tier, rules):
        self.prop, self.tier, self.rules = prop, tier, rules
        self.obs = []
        self.analysed = []
        self.skipped = []
        self.assumptions = []
        self.floors = []
        self.notes = {}
        self.t0 = time.time()

    def add(self, status, rule, key, where, msg):
        self.obs.append(Ob(status, rule, key.replace(" ", ""), where, msg))

    def floor(self, what, got, need):
        self.floors.append((what, got, need))

    def finish(self):
        known = load_known().get(self.prop, {})
        bad, seen = [], {}
        for o in self.obs:
            if o.status != "bad":
                continue
            if o.key in known:
                seen.setdefault(o.key, o)
            else:
                bad.append(o)
        for k, o in seen.items():
            print(f"KNOWN-FINDING: property={self.prop} {known[k]} [{k}] at {o.where}")
        uniq = {}
        for o in bad:
            uniq.setdefault(o.key, o)
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        cnt = {s: sum(o.status == s for o in self.obs) for s in ("ok", "bad", "unknown")}
        per = {}
        for o in self.obs:
            per.setdefault(o.rule, {"ok": 0, "bad": 0, "unknown": 0})[o.status] += 1
        samples = []
        for r in per:
            for s in ("bad", "unknown", "ok"):
                c = [o for o in self.obs if o.rule == r and o.status == s]
                samples += [{"rule": r, "status": s, "instance": o.key, "where": o.where, "note": o.msg} for o in c[:3]]
        replay = None
        if uniq:
            d = ROOT / "evidence"
            d.mkdir(exist_ok=True)
            replay = f"evidence/{self.prop}.violations.txt"
            (ROOT / replay).write_text("".join(
                f"rule: {o.rule}\ninstance: {o.key}\nwhere: {o.where}\nwhy: {o.msg}\n\n" for o in uniq.values()))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of the source in /repo at the time of the run; nothing is executed. "
                               "An obligation is one instance of a rule at one construct. 'discharged': the rule was shown to hold there; "
                               "'refuted': it fails and a concrete witness or path was found (a listed known finding, or a violation); "
                               "'undecided': the analysis could not tell, nothing is claimed and nothing is reported for it.",
                "rules": self.rules,
                "obligations": len(self.obs), "discharged": cnt["ok"], "refuted": cnt["bad"], "undecided": cnt["unknown"],
                "per_rule": per,
                "analysed": self.analysed, "analysed_count": len(self.analysed),
                "not_analysed": self.skipped,
                "known_findings_seen": sorted(seen),
                "floors": [{"what": a, "found": b, "required": c} for a, b, c in self.floors],
                "samples": samples[:40], **self.notes,
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(uniq),
        }
        d = ROOT / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for o in uniq.values():
            print(f"VIOLATION property={self.prop} replay={replay}")
            print(f"  {o.where}: [{o.rule}] {o.key}: {o.msg}")
        short = [f for f in self.floors if f[1] < f[2]]
        print(f"{self.prop}: {len(self.obs)} obligations, {cnt['ok']} discharged, {cnt['unknown']} undecided, "
              f"{len(uniq)} violations, {len(seen)} known; {len(self.analysed)} units in {time.time() - self.t0:.1f} s")
        if uniq:
            return 1
        if short:
            for f in short:
                print(f"ANALYSIS-BROKEN: {self.prop}: {f[0]}: found {f[1]}, need at least {f[2]}")
            return 3
        return 0

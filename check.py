#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo DIR]   -- exit 0 / 1 (VIOLATION) / other (analysis broken)"""
import argparse, importlib, os, sys, traceback
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.setrecursionlimit(20000)
from sa.repo import Repo, AnalysisBroken


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("SA_REPO", "/repo"))
    a = ap.parse_args()
    mod = importlib.import_module(f"sa.props.{a.property.lower()}")
    try:
        return mod.check(Repo(a.repo), a.tier)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN: {a.property}: {e}")
        return 3


if __name__ == "__main__":
    sys.exit(main())

"""Run one analysis unit per process; a unit that crashes or runs out of time is reported, never lost."""
from __future__ import annotations
import multiprocessing as mp, os, signal, sys, traceback


class _TO(Exception):
    pass


def _alarm(*_):
    raise _TO()


def _job(a):
    f, args, limit = a
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return ("ok", f(*args))
    except _TO:
        return ("timeout", f"no answer within {limit} s")
    except Exception as e:     # noqa: BLE001
        from .repo import AnalysisBroken
        if isinstance(e, AnalysisBroken):
            return ("broken", str(e))
        return ("crash", f"{type(e).__name__}: {e} :: " + traceback.format_exc().strip().splitlines()[-3].strip())
    finally:
        signal.alarm(0)


def run(f, items, limit=120):
    """items: list of argument tuples -> list of (status, value)"""
    n = min(8, os.cpu_count() or 1, max(1, len(items)))
    if n == 1 or os.environ.get("SA_SERIAL"):
        return [_job((f, a, limit)) for a in items]
    with mp.get_context("fork").Pool(n, maxtasksperchild=8) as p:
        return p.map(_job, [(f, a, limit) for a in items], chunksize=1)

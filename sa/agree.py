"""Does a kernel compute what its definition says?  Both are reduced to closed forms by the summary engine (summ.py); equal
normal forms decide it.  Where the normal forms differ, they are told apart by random interpretation: both *normal forms*
(never the code) are interpreted at points drawn from the kernel's contract, and a point where they disagree refutes."""
from __future__ import annotations
import copy, os, random, time
from fractions import Fraction as Fr
from .expr import *
from . import expr as X, sval, valgen
from .sval import Ev, OOB, NoVal, Uninit, Budget, same
from .engine import KERNELS
from .repo import Module, AnalysisBroken
from .sdrive import summarise, outputs
from . import spec as S

NEVER = "the closed form of the code uses an array element that was never assigned"
OUTSIDE = "the closed form of the code reads past the ends of"
EXTRA, MORE = 0.0, 20      # seconds to go on with further points once the required ones agree, at most so many times more

HERE = os.path.dirname(os.path.abspath(__file__))


def spec_repo(repo):
    r = copy.copy(repo)
    r.modules = dict(repo.modules)
    for f in sorted(os.listdir(os.path.join(HERE, "spec"))):
        if f.endswith(".py") and f != "__init__.py":
            n = "sa.spec." + f[:-3]
            r.modules[n] = Module(n, "sa/spec/" + f, open(os.path.join(HERE, "spec", f)).read())
    return r


def table(name):
    return KERNELS[name] if name in KERNELS else S.EXTRA[name]


def forms(repo, name):
    """-> (specs, outputs of the code, [(tag, outputs of a definition)]); the second definition, if there is one, describes
    a known deviation from the first"""
    mod, specs = table(name)
    fn = repo.func(mod, name)
    if name in S.SIG and " ".join(a.arg for a in fn.args.posonlyargs + fn.args.args) != S.SIG[name]:
        raise AnalysisBroken(f"{name} has another signature than its definition")
    code = outputs(summarise(repo, name, specs, fn))
    r2 = spec_repo(repo)
    refs = []
    for tag in ("", "__asis"):
        hits = [m.funcs[name + tag] for n, m in r2.modules.items() if n.startswith("sa.spec.") and name + tag in m.funcs]
        if len(hits) == 1:
            refs.append((tag, outputs(summarise(r2, name, specs, hits[0]))))
    if not refs:
        raise AnalysisBroken(f"definition of {name} not found")
    return specs, code, refs


def evs(E, ln, ix, e):
    """interpret one output: scalar, list or list of lists"""
    if ln is None:
        return E.ev(e, {}, {})
    if isinstance(ln, tuple):
        n = int(E.ev(ln[0], {}, {}))
        r = []
        for i in range(n):
            m = int(E.ev(ln[1], {ix[0]: Fr(i)}, {}))
            r.append([E.ev(e, {ix[0]: Fr(i), ix[1]: Fr(k)}, {}) for k in range(m)])
        return r
    n = int(E.ev(ln, {}, {}))
    return [E.ev(e, {ix: Fr(i)}, {}) for i in range(n)]


def close(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    return same(a, b)


def fnum(x):
    if isinstance(x, list):
        return "[" + ", ".join(fnum(y) for y in x) + "]"
    if isinstance(x, bool):
        return str(x)
    try:
        return f"{float(x):.6g}"
    except Exception:
        return str(x)


def point(v):
    d = []
    for n, a in v.arrays.items():
        d.append(f"{n}={fnum(list(a))}")
    for n, a in v.arrays2.items():
        d.append(f"{n}={fnum([list(q) for q in a])}")
    d += [f"{n}={fnum(x)}" for n, x in v.pars.items() if isinstance(x, (Fr, float, int))]
    d += [f"{n}={x}" for n, x in v.flags.items()]
    d += [f"{n}={x!r}" for n, x in v.strs.items()]
    d += [f"{n}=None" for n, x in v.none.items() if x]
    return " ".join(d)


def _alpha(ln, ix, e, ln2, ix2, e2):
    """same normal form, up to the name of the position variable"""
    if (ln is None) != (ln2 is None) or isinstance(ln, tuple) != isinstance(ln2, tuple):
        return False
    if ln is None:
        return e is e2
    if isinstance(ln, tuple):
        m = {ix2[0]: ix[0], ix2[1]: ix[1]}
        return ln[0] is ln2[0] and ln[1] is subst(ln2[1], m) and e is subst(e2, m)
    return ln is ln2 and e is subst(e2, {ix2: ix})


def compare(repo, name, points=40, skip=()):
    """-> [(label, status, message)]   status: same | agree | differ | known | undecided"""
    specs, code, refs = forms(repo, name)
    lc, lr = [o[0] for o in code], [o[0] for o in refs[0][1]]
    if lc != lr:
        return [("", "shape", f"{len(lc)} results ({', '.join(lc)}), the definition has {len(lr)} ({', '.join(lr)})")]
    vals, res = {}, []
    for k, o in enumerate(code):
        if o[0] in skip:
            continue
        r = one(specs, name, o, refs[0][1][k], vals, points)
        if r[0] == "differ" and len(refs) > 1 and one(specs, name, o, refs[1][1][k], vals, points)[0] in ("same", "agree"):
            r = ("known", r[1])
        res.append((o[0], *r))
    return res


def _defined():
    txt = "".join(open(os.path.join(HERE, "spec", f)).read() for f in sorted(os.listdir(os.path.join(HERE, "spec"))) if f.endswith(".py"))
    return [n for n in [*KERNELS, *S.EXTRA] if f"\ndef {n}(" in txt]


DEFINED = _defined()


def edges(repo, name, points, seconds):
    """-> {(label, rule): status}: reads past an end (bounds) and elements never assigned (cover), at points where the
    definition is defined"""
    specs, code, refs = forms(repo, name)
    t0, bad, ok = time.monotonic(), {}, {}
    for seed in range(points):
        v = valgen.gen(specs, seed, valgen.OVER.get(name), valgen.NANS.get(name, ()))
        for o, r in zip(code, refs[0][1]):
            if seed > 11 and time.monotonic() - t0 > seconds:
                break
            try:
                evs(Ev(v), *o[1:])
                ok[o[0]] = ok.get(o[0], 0) + 1
                continue
            except OOB as x:
                rule, m = "bounds", f"{OUTSIDE} `{x}` at {point(v)[:600]}"
            except Uninit:
                rule, m = "cover", f"{NEVER} at {point(v)[:600]}"
            except (NoVal, Budget, ZeroDivisionError, OverflowError):
                continue
            try:
                evs(Ev(v), *r[1:])
                bad.setdefault((o[0], rule), []).append(m)
            except (OOB, NoVal, Budget, ZeroDivisionError, OverflowError):
                pass
    res = {}
    for o in code:
        for rule in ("bounds", "cover"):
            b, k = bad.get((o[0], rule), ()), ok.get(o[0], 0)
            res[o[0], rule] = ("bad", b[0]) if len(b) > 1 else ("ok", f"{k} points") if k >= 5 and not b else ("unknown", f"only {k} points could be interpreted")
    return res


def prefixes(repo, name, points, seconds):
    """-> {label: status}: rows of a closed form keep their value when later rows of the input are removed"""
    mod, specs = table(name)
    code = outputs(summarise(repo, name, specs, repo.func(mod, name)))
    items = [s.split(":") for s in specs.split()]
    rows = {i[0] for i in items if len(i) > 2 and i[2] == "n" and i[1] in ("a", "s", "t", "c", "?a", "la")}
    rows |= {"len:" + r for r in rows}
    t0, bad, ok = time.monotonic(), {}, {}
    for seed in range(points):
        v = valgen.gen(specs, seed, valgen.OVER.get(name), valgen.NANS.get(name, ()))
        n = v.lens.get("n", 0)
        if n < 2:
            continue
        m = 1 + (seed * 7) % (n - 1)
        w = copy.copy(v)
        w.lens = {**v.lens, "n": m}
        w.arrays = {k: (x[:m] if k in rows else x) for k, x in v.arrays.items()}
        w.arrays2 = {k: (x[:m] if k in rows else x) for k, x in v.arrays2.items()}
        for o in code:
            if o[1] is None or seed > 11 and time.monotonic() - t0 > seconds:
                continue
            try:
                a, b = evs(Ev(v), *o[1:]), evs(Ev(w), *o[1:])
            except (OOB, NoVal, Budget, ZeroDivisionError, OverflowError, IndexError):
                continue
            if len(a) != n or len(b) != m:
                continue
            ok[o[0]] = ok.get(o[0], 0) + 1
            k = next((k for k in range(m) if not close(a[k], b[k])), None)
            if k is not None:
                bad.setdefault(o[0], []).append(f"row {k} of the closed form is {fnum(b[k])} from the first {m} rows and {fnum(a[k])} when the later rows are there, at {point(v)[:600]}")
    return {o[0]: ("bad", bad[o[0]][0]) if len(bad.get(o[0], ())) > 1 else ("ok", f"{ok[o[0]]} points") if ok.get(o[0], 0) >= 5 and o[0] not in bad
            else ("unknown", f"only {ok.get(o[0], 0)} points could be interpreted") for o in code}


# results whose documentation says they tell inputs apart
CONSTANT = {("comp_footprint_features", "4")}


def one(specs, name, code, ref, vals, points):
    (lab, ln, ix, e), (_, ln2, ix2, e2) = code, ref
    if (name, lab) not in CONSTANT and not (e.fl | e2.fl) & 1 and _alpha(ln, ix, e, ln2, ix2, e2):
        return "same", ""
    agree, full, outside, seen, t0 = 0, 0, 0, set(), time.monotonic()
    for seed in range(points * MORE):
        if seed >= points and (time.monotonic() - t0 > EXTRA or not full):
            break
        if seed not in vals:
            vals[seed] = valgen.gen(specs, seed, valgen.OVER.get(name), valgen.NANS.get(name, ()))
        v = vals[seed]
        try:
            a = evs(Ev(v), ln2, ix2, e2)
        except (OOB, NoVal, Budget, ZeroDivisionError, OverflowError):
            continue
        try:
            b = evs(Ev(v), ln, ix, e)
        except (OOB, Uninit) as x:
            outside += 1
            if outside > 1:
                return "differ", f"{NEVER if isinstance(x, Uninit) else f'{OUTSIDE} `{x}`'} at {point(v)[:700]}, where the definition gives {fnum(a)[:200]}"
            continue
        except (NoVal, Budget, ZeroDivisionError, OverflowError):
            continue
        if not close(a, b):
            return "differ", f"at {point(v)[:700]}: definition gives {fnum(a)[:200]}, closed form of the code gives {fnum(b)[:200]}"
        agree += 1
        full += a != []
        seen.add(fnum(b))
    if agree >= 15 and (name, lab) in CONSTANT and len(seen) == 1:
        return "constant", next(iter(seen))
    if agree >= min(5, points // 4) and full:
        return "agree", f"{agree} points" + (f", {agree - full} of them with an empty result" if full < agree else "")
    return "undecided", f"only {agree} of {points} points could be interpreted" + (", all with an empty result" if agree else "")

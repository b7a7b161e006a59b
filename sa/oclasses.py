"""Every concrete feature transform, both backends: does the returned column equal the written definition (sa/spec/classes.py)
of its declared inputs and options, under its advertised name, on the caller's index?"""
from __future__ import annotations
import ast, itertools
from .expr import *
from .summ import A, S, NONE, num
from .osumm import Ser, Idx, Ref, Td, PyExc, show, streq
from .ounits import World, concrete
from .repo import Repo, AnalysisBroken
from . import agree, pool, valgen

OPTS = {"ret_type": ("log", "simple")}
SHOWN = {"HurstExponent": {"window": 12}}     # options the definition is compared at, where no closed form covers them all
DECOY = ("open", "high", "low", "close", "volume", "vwap", "ret1", "ret", "x", "y", "volume_buy", "volume_sell")


def ref_fn(repo2, name):
    return repo2.modules["sa.spec.classes"].funcs.get(name)


def ctor(repo, cls):
    """constructor parameters: (arg, default) without self"""
    init = repo.method(cls, "__init__")
    a = init.args
    ps = a.posonlyargs + a.args
    ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
    return list(zip(ps, ds))[1:] + list(zip(a.kwonlyargs, a.kw_defaults))


def isflag(p, d):
    return (p.annotation is not None and "bool" in ast.unparse(p.annotation)) or (isinstance(d, ast.Constant) and isinstance(d.value, bool))


def variants(repo, cls):
    """concrete choices of the switches; everything else stays symbolic"""
    ax = []
    for p, d in ctor(repo, cls):
        if isflag(p, d):
            ax.append([(p.arg, T), (p.arg, F)])
        elif p.arg in OPTS:
            ax.append([(p.arg, S(v)) for v in OPTS[p.arg]])
    return [dict(c) for c in itertools.product(*ax)]


def setup(repo, name, var, decoys=True):
    """world, instance with symbolic options, frame, roles of the declared columns"""
    w = World(repo)
    cls = concrete(w.repo)[name]
    ref = ref_fn(w.repo, name)
    ps = [p.arg for p, _ in ctor(w.repo, cls)]
    roles = [a.arg for a in ref.args.args if a.arg not in ps and a.arg != "timestamps"] if ref is not None else ["close"]
    if ref is None and "input_cols" in ps:
        try:
            roles = [f"x{i}" for i in range(len(w.strs(w.attr(w.make(cls), "requires"))))]
        except (PyExc, TypeError):
            pass
    fixed = dict(var)
    for p_, v_ in SHOWN.get(name, {}).items():
        if p_ in ps:
            fixed[p_] = C(v_)
    if "input_col" in ps:
        fixed["input_col"] = S("c0")
        roles = roles[:1]
    elif "input_cols" in ps:
        fixed["input_cols"] = w.s.plist(w.st, [S(f"c{i}") for i in range(len(roles))])
    o = w.make(cls, **fixed)
    cols = {f"c{i}": r for i, r in enumerate(roles)}
    if decoys:
        cols.update({d: "other_" + d for d in DECOY})
    fr = w.frame(cols)
    return w, cls, ref, o, fr, roles


def options(w, o, cls, var):
    """the symbolic options of an instance, as its definition names them"""
    env = {}
    for p, d in ctor(w.repo, cls):
        if p.arg in var:
            env[p.arg] = var[p.arg]
        elif p.arg in SHOWN.get(cls.name, {}):
            env[p.arg] = C(SHOWN[cls.name][p.arg])
        elif p.arg in w.params:
            env[p.arg] = par(p.arg, w.params[p.arg] in ("i", "i0"))
        elif p.arg not in ("input_col", "input_cols"):
            return None
    return env


def specs(w, roles, extra=()):
    s = [f"{r}:a:n" for r in list(roles) + ["other_" + d for d in DECOY]] + ["timestamps:t:n"]
    return " ".join(s + [f"{n}:{k}" for n, k in w.params.items()] + list(extra))


def seq(w, r):
    if isinstance(r, A):
        return [r]
    xs = w.s.items(r, w.st)
    return list(xs) if xs is not None else None


def unit(root, name, points):
    repo = Repo(root)
    cls = concrete(repo)[name]
    has_ref = ref_fn(agree.spec_repo(repo), name) is not None
    where = f"{cls._mod.path}:{cls.lineno}"
    out = []
    seen_known = set()
    for var in variants(repo, cls):
        tag0 = ",".join(f"{k}={str(v) if isinstance(v, S) else v is T}" for k, v in var.items())
        for backend in ("pd", "nb"):
            tag = f"{backend}|{tag0}" if tag0 else backend
            try:
                w, c2, ref, o, fr, roles = setup(repo, name, var)
                n0 = len(w.s.unknown)
                res = seq(w, w.call(o, fr, backend=S(backend)))
                names = w.strs(w.attr(o, "output_name"))
            except PyExc as e:
                out.append((f"returns|{name}|{tag}", "bad" if has_ref else "unknown", f"every call raises: {e}"))
                continue
            unk_ = w.s.unknown[n0:]
            if res is None:
                out.append((f"returns|{name}|{tag}", "unknown", f"result not modelled {unk_[:2]}"))
                continue
            # advertised names and the caller's rows
            if names is not None and len(names) != len(res):
                out.append((f"arity|{name}|{tag}", "unknown" if unk_ else "bad", f"{len(res)} columns are returned, {len(names)} names are advertised"))
            elif names is not None:
                for i, (x, nm) in enumerate(zip(res, names)):
                    lab = f"name|{name}|{tag}|{i}"
                    if not isinstance(x, Ser):
                        out.append((lab, "unknown" if unk_ or not isinstance(x, A) else "bad", "not a column"))
                        continue
                    if x.name is NONE:
                        out.append((lab, "bad" if not unk_ else "unknown", f"the column is unnamed, '{show(nm)}' is advertised"))
                    elif isinstance(x.name, S):
                        q = streq(str(x.name), nm)
                        out.append((lab, "ok" if q is T else "bad" if q is F else "unknown", f"the column is called '{show(x.name)}', '{show(nm)}' is advertised"))
                    else:
                        out.append((lab, "unknown", "name not resolved"))
            if ref is None:
                out.append((f"value|{name}|{tag}", "unknown", "no written definition"))
                continue
            env = options(w, o, cls, var)
            if env is None:
                out.append((f"value|{name}|{tag}", "unknown", "options changed"))
                continue
            ax = w.axis()
            args = {}
            for a in ref.args.args:
                if a.arg in env:
                    args[a.arg] = env[a.arg]
                elif a.arg == "timestamps":
                    ix = w.s.rowidx
                    args[a.arg] = A(ix.aid, ix.off, ix.ln)
                elif a.arg in roles:
                    args[a.arg] = w.col(a.arg, ax)
                else:
                    args = None
                    break
            if args is None:
                out.append((f"value|{name}|{tag}", "unknown", "declared inputs changed"))
                continue
            n1 = len(w.s.unknown)
            refv = seq(w, w.s.callf(ref, None, list(args.values()), {}, w.st, mod=ref._mod))
            if len(w.s.unknown) > n1:
                raise AnalysisBroken(f"definition of {name} not modelled: {w.s.unknown[n1:]}")
            if len(refv) != len(res):
                out.append((f"arity|{name}|{tag}", "unknown" if unk_ else "bad", f"{len(res)} columns are returned, the definition has {len(refv)}"))
                continue
            sp, vals = specs(w, roles), {}
            for i, (x, y) in enumerate(zip(res, refv)):
                key = f"value|{name}|{tag}|{i}"
                (ln, k, e), (ln2, k2, e2) = w.cells(x), w.cells(y)
                if unk_:
                    out.append((key, "unknown", f"not modelled: {unk_[0]}"))
                    continue
                s, msg = agree.one(sp, name, (str(i), ln, k, e), (str(i), ln2, k2, e2), vals, points)
                alt = ref_fn(w.repo, name + "__asis")
                if s == "differ" and alt is not None:
                    ya = seq(w, w.s.callf(alt, None, list(args.values()), {}, w.st, mod=alt._mod))[i]
                    ln3, k3, e3 = w.cells(ya)
                    if agree.one(sp, name, (str(i), ln, k, e), (str(i), ln3, k3, e3), vals, points)[0] in ("same", "agree"):
                        key += "|asis"
                out.append((key, {"same": "ok", "agree": "ok", "differ": "bad"}.get(s, "unknown"), msg or "normal forms are identical"))
    return where, out

"""Does a result depend on what an instance was used for before?  Each feature is called on one frame (both backends, its
configuration read), then on another; the closed form of the second result is compared with that of a fresh instance."""
from __future__ import annotations
from .expr import *
from .summ import A, S, NONE
from .osumm import Ser, Idx, PyExc, show, streq, Cls
from .repo import Repo
from . import oclasses as oc, ofeature as of
from .oclasses import seq


def earlier(w, names):
    """another frame with the same columns"""
    keep = w.s.rowidx
    fr = w.frame({str(n): "pre_" + str(n) for n in names}, ax="m", index="pre_timestamps")
    return fr, keep, w.s.rowidx


def pre_specs(names):
    return [f"pre_{n}:a:m" for n in names] + ["pre_timestamps:t:m"]


def use(w, o, fr, ix):
    """everything a user may have done with the instance before"""
    w.s.rowidx = ix
    for b in ("pd", "nb"):
        try:
            w.call(o, fr, backend=S(b))
        except PyExc:
            pass
    for q in ("output_name", "requires", "name"):
        try:
            w.attr(o, q)
        except PyExc:
            pass


def cmp_results(w, a, b, lab, spec, name, points, u):
    out = []
    x, y = seq(w, a), seq(w, b)
    if x is None or y is None:
        return [(lab, "unknown", f"result not modelled {u[:1]}")]
    if len(x) != len(y):
        return [(lab, "unknown" if u else "bad", f"{len(x)} columns after earlier use, {len(y)} from a fresh instance")]
    for i, (p, q) in enumerate(zip(x, y)):
        s, m = of.differs(w, p, q, points, {}, spec, name, u)
        out.append((f"{lab}|{i}", s, m.replace("closed form of the code", "the instance used before").replace("definition", "a fresh instance")))
        if isinstance(p, Ser) and isinstance(q, Ser) and isinstance(p.name, S) and isinstance(q.name, S) and not u:
            t = streq(str(p.name), str(q.name))
            if t is F:
                out.append((f"{lab}|{i}|name", "bad", f"called '{show(p.name)}' after earlier use, '{show(q.name)}' from a fresh instance"))
    return out


def class_unit(root, name, points):
    repo = Repo(root)
    cls = oc.concrete(repo)[name]
    where = f"{cls._mod.path}:{cls.lineno}"
    out = []
    for var in oc.variants(repo, cls):
        tag = ",".join(f"{k}={str(v) if isinstance(v, S) else v is T}" for k, v in var.items())
        for backend in ("pd", "nb"):
            lab = f"history|{name}|{backend}" + (f"|{tag}" if tag else "")
            try:
                w, _, ref, o, fr, roles = oc.setup(repo, name, var)
                cols = [str(c) for c in w.st.heap[fr.aid].d]
                f1, main, other = earlier(w, cols)
                n0 = len(w.s.unknown)
                w.s.rowidx = main
                fresh = w.call(o, fr, backend=S(backend))
            except PyExc as e:
                out.append((lab, "unknown", f"a fresh instance raises: {e}"))
                continue
            try:
                use(w, o, f1, other)
                w.s.rowidx = main
                again = w.call(o, fr, backend=S(backend))
            except PyExc as e:
                out.append((lab, "bad" if len(w.s.unknown) == n0 else "unknown", f"raises after earlier use: {e}"))
                continue
            out += cmp_results(w, again, fresh, lab, oc.specs(w, roles, pre_specs(cols)), name, points, w.s.unknown[n0:])
    return where, out


SPEC = of.SPEC + " pre_cx:a:m pre_cy:a:m pre_cz:a:m pre_timestamps:t:m"


def expr_unit(root, label, points):
    repo = Repo(root)
    feat = repo.cls(of.KIT, "Feature")
    where = f"{feat._mod.path}:{feat.lineno}"
    code = of.EXPRS[label][0]
    out = []
    for backend in ("pd", "nb"):
        lab = f"history|{label}|{backend}"
        w, fr, env = of.world(repo)
        f1, main, other = earlier(w, ["cx", "cy", "cz"])
        w.s.rowidx = main
        n0 = len(w.s.unknown)
        try:
            f = w.expr(code, of.KIT, **env)
            fresh = w.call(f, fr, backend=S(backend))
        except PyExc as e:
            out.append((lab, "unknown", f"a fresh feature raises: {e}"))
            continue
        try:
            use(w, f, f1, other)
            w.s.rowidx = main
            again = w.call(f, fr, backend=S(backend))
        except PyExc as e:
            out.append((lab, "bad" if len(w.s.unknown) == n0 else "unknown", f"raises after earlier use: {e}"))
            continue
        out += cmp_results(w, again, fresh, lab, SPEC, of.RT, points, w.s.unknown[n0:])
    return where, out


def kit_unit(root, label, points):
    repo = Repo(root)
    text, retain, order, _ = of.KITS[label]
    kit = repo.cls(of.KIT, "FeatureKit")
    where = f"{kit._mod.path}:{kit.lineno}"
    out = []
    for backend in ("pd", "nb"):
        lab = f"history|{label}|{backend}"
        w, fr, env = of.world(repo)
        f1, main, other = earlier(w, ["cx", "cy", "cz"])
        w.s.rowidx = main
        n0 = len(w.s.unknown)

        def made():
            fs = of.features(w, env, text)
            return w.s.construct(w.repo.cls(of.KIT, "FeatureKit"), [w.s.plist(w.st, fs)], {"retain": w.s.plist(w.st, [S(c) for c in retain])}, w.st)
        try:
            k = made()
            d1 = of.columns(w, w.method(k, "build", fr, backend=S(backend), order=S(order)))
        except PyExc as e:
            out.append((lab, "unknown", f"a fresh set raises: {e}"))
            continue
        try:
            w.s.rowidx = other
            for b in ("pd", "nb"):
                for o_ in ("topo", "defined"):
                    try:
                        w.method(k, "build", f1, backend=S(b), order=S(o_))
                    except PyExc:
                        pass
            w.method(k, "to_config")
            w.s.rowidx = main
            d2 = of.columns(w, w.method(k, "build", fr, backend=S(backend), order=S(order)))
        except PyExc as e:
            out.append((lab, "bad" if len(w.s.unknown) == n0 else "unknown", f"raises after earlier use: {e}"))
            continue
        u = w.s.unknown[n0:]
        if d1 is None or d2 is None or u:
            out.append((lab, "unknown", f"not modelled {u[:1]}"))
            continue
        a, b = [str(x) for x in d2], [str(x) for x in d1]
        if a != b:
            out.append((f"{lab}|columns", "bad", f"columns {list(map(show, a))} after earlier use, {list(map(show, b))} from a fresh set"))
            continue
        for i, (c, v) in enumerate(d2.items()):
            s, m = of.differs(w, v, list(d1.values())[i], points, {}, SPEC, of.RT, u)
            out.append((f"{lab}|{i}", s, f"{show(c)}: {m}"))
    return where, out

"""Summaries of public kernels: parameters from the kernel table, result = value + heap."""
from __future__ import annotations
import ast
from .expr import *
from . import expr as X
from .summ import Summ, St, Body, A, S, ArrEl, NONE, freshix, num, isbool
from .engine import KERNELS
from .repo import AnalysisBroken


class Sum:
    def __init__(self, s, v, st, fn, lens):
        self.s, self.v, self.st, self.fn, self.lens = s, v, st, fn, lens


def lin(txt):
    e = ast.parse(txt, mode="eval").body

    def f(x):
        if isinstance(x, ast.Constant):
            return C(x.value)
        if isinstance(x, ast.Name):
            return mk("len", x.id)
        if isinstance(x, ast.UnaryOp):
            return neg(f(x.operand))
        a, b = f(x.left), f(x.right)
        return add(a, b) if isinstance(x.op, ast.Add) else sub(a, b)
    return f(e)


def param(s, st, spec):
    parts = spec.split(":")
    name, kind = parts[0], parts[1]
    opt = kind.startswith("?")
    if opt:
        kind = kind[1:]
    ln = lin(parts[2]) if len(parts) > 2 else None
    if ln is not None:
        for x in [mk("len", n.id) for n in ast.walk(ast.parse(parts[2])) if isinstance(n, ast.Name)]:
            st.facts = st.facts | {cmp(">=", x, C(2 if x.a[0].startswith("n2") else 0 if x.a[0].startswith("n0") else 1))}
    if kind in ("a", "s", "t", "t0", "c", "ix"):
        if kind in ("s", "ix"):
            X.INTROLES.add(name)
        if kind == "t":
            X.INTROLES.add(name)
        if kind == "s":
            X.DOMAIN[name] = (-1, 0, 1)
        if kind == "ix" and len(parts) > 5:
            s.mono.add(name)
        k = freshix()
        v = s.new(st, ln, el(name, k), k)
    elif kind == "la":
        i, k = freshix(), freshix()
        s.aid += 1
        st.heap[s.aid] = Body(ln, i, None, False, ArrEl(i, k, mk("el", "len:" + name, i), mk("el2", name, i, k)))
        X.INTROLES.add("len:" + name)
        v = A(s.aid, ZERO, ln)
    elif kind in ("i", "i0"):
        v = par(name, True)
        st.facts = st.facts | {cmp(">=", v, ONE if kind == "i" else ZERO)}
    elif kind == "Z":
        v = par(name, True)
    elif kind in ("F", "N", "T"):
        v = par(name)
        if kind == "F":
            st.facts = st.facts | {cmp(">", v, ZERO)}
    elif kind == "b":
        v = mk("flag", name)
    elif kind == "str":
        v = S("{" + name + "}")
    elif kind == "TT":
        v = (par(name + "0"), par(name + "1"))
    else:
        raise AssertionError(spec)
    return ("maybe", (name, v)) if opt else v


def summarise(repo, name, specs=None, fn=None):
    if specs is None:
        mod, specs = KERNELS[name]
        fn = repo.func(mod, name)
    s = Summ(repo)
    st = St({}, {}, frozenset())
    specs = specs.split()
    ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
    if len(ps) < len(specs):
        raise AnalysisBroken(f"{name}: expected at least {len(specs)} parameters, found {len(ps)}")
    env = {}
    for p, sp in zip(ps, specs):
        env[p] = param(s, st, sp)
    s.mods.append(fn._mod)
    pos = fn.args.posonlyargs + fn.args.args
    for p, d in zip(pos[::-1], fn.args.defaults[::-1]):
        if p.arg not in env:
            env[p.arg] = s.ev(d, St({}, {}, frozenset()))
    s.mods.pop()
    for p in ps:
        if p not in env:
            raise AnalysisBroken(f"{name}: new required parameter {p}")
    from .summ import Fnc
    v = s.run(Fnc(fn, fn._mod), env, st)
    return Sum(s, v, st, fn, None)


def outputs(r):
    """flat list of (label, length|None, index var|None, expr)"""
    out = []

    def go(v, lab):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "maybe":
            out.append((lab + "?", None, None, mk("isnone", v[1][0])))
            k = len(out)
            go(v[1][1], lab)
            out[k:] = [(l, n, i, ite(mk("isnone", v[1][0]), ZERO, num(e)) if isinstance(n, N) or n is None else e) for l, n, i, e in out[k:]]
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                go(x, f"{lab}.{i}" if lab else str(i))
        elif isinstance(v, A):
            b = r.st.heap[v.aid]
            ln = b.ln if b.islist and v.off is ZERO else v.ln
            if b.arr is not None:
                g = b.arr
                k = freshix()
                i = freshix()
                out.append((lab, (ln, subst(g.ln, {g.i: i})), (i, k), subst(g.e, {g.i: i, g.k: k})))
            elif b.e is None:
                out.append((lab, ln, None, unk("array")))
            else:
                k = freshix()
                f = frozenset(r.st.facts | {cmp(">=", k, ZERO), cmp(">=", sub(ln, ONE), k)})
                e = subst(b.e, {b.var: add(v.off, k)})
                st = St({}, {}, f)
                out.append((lab, ln, k, r.s.simp(num(e) if not isbool(e) else e, st)))
        elif isinstance(v, N):
            out.append((lab, None, None, v))
        else:
            out.append((lab, None, None, unk(str(v))))
    go(r.v, "")
    return out

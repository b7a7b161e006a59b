"""Per-transform analysis unit: a feature transform called on a symbolic frame, through both backends."""
from __future__ import annotations
import ast
from .lin import Lin, L, sym, prove
from .vals import *
from .interp import Frame, fmtw
from .repo import Repo, AnalysisBroken, docless
from .engine import Engine
from .kchecks import wit, causal_pieces, walk_arrays
from .kunits import rel, construct
from .pdmodel import PdModel, PdM, Op

BASE = "finmlkit.feature.base"
ABSTRACT = {"BaseTransform", "CoreTransform", "SISOTransform", "MISOTransform", "SIMOTransform", "MIMOTransform",
            "BinaryOpTransform", "ConstantOpTransform", "UnaryOpTransform", "MinMaxOpTransform", "ExternalFunction", "Compose"}


def transforms(repo):
    """concrete transform classes of the package, by name"""
    base = repo.cls(BASE, "BaseTransform")
    out = {}
    for m in repo.modules.values():
        for n, c in m.classes.items():
            if n not in ABSTRACT and base in repo.mro(c) and c is not base:
                out[n] = c
    return out


def arg_value(eng, st, p, ann, dflt):
    """symbolic constructor argument"""
    a = ast.unparse(ann) if ann is not None else ""
    n = p.arg
    if n in ("input_cols",) or "list[str]" in a or "Sequence[str]" in a:
        if dflt is not None:
            return eng.ev(dflt, st)[0][0]
        return Tup([Str("c0"), Str("c1"), Str("c2"), Str("c3"), Str("c4")], True)
    if n == "input_col":
        return Str("c0")
    if "Timedelta" in a:
        return Num(None, NOD, False, x=("pos", n))
    if "bool" in a or (isinstance(dflt, ast.Constant) and isinstance(dflt.value, bool)):
        return Num(None, NOD, False, x=("flag", n))
    if "str" in a:
        return Str("{" + n + "}")
    if "float" in a:
        return Num(None, NOD, False, x=("pos", n))
    if "int" in a or (dflt is None and not a) or (isinstance(dflt, ast.Constant) and isinstance(dflt.value, int)):
        s = "p_" + n
        eng.free.add(s)
        st.add(sym(s) - (0 if "ddof" in n else 1))
        return Num(sym(s), NOD, True)
    return Unk(why="ctor arg " + n)


def build(eng, st, cls, extra=None):
    """-> (Obj, state) of `cls` constructed with symbolic arguments"""
    init = eng.repo.method(cls, "__init__")
    args, kw = [], {}
    if init is not None:
        ps = init.args.args[1:]
        dflts = [None] * (len(ps) - len(init.args.defaults)) + list(init.args.defaults)
        for p, d in zip(ps, dflts):
            kw[p.arg] = (extra or {}).get(p.arg) or arg_value(eng, st, p, p.annotation, d)
    r = eng.instantiate(Cls(cls), args, kw, cls, st)
    if not r:
        raise AnalysisBroken(f"{cls.name}: the constructor never returns")
    return r


def strings(v):
    if isinstance(v, Tup):
        return [x.s if isinstance(x, Str) else None for x in v.items]
    if isinstance(v, Str):
        return [v.s]
    return None


def start(repo, cls):
    eng = Engine(repo)
    PdModel(eng)
    st = State()
    eng.free.add("n")
    st.add(sym("n") - 1)
    eng.stack.append(Frame(ast.parse("def driver(): pass").body[0], cls._mod, False))
    return eng, st


def judge(eng, name, cls, rets, outname, out, where, tag, ignore=()):
    """causality and output contract of the returned series"""
    eng.rowlen = sym("n")
    n = sym("n")
    seen = set()

    def put(kind, s, key, msg):
        if (kind, s, key, msg[:40]) not in seen:
            seen.add((kind, s, key, msg[:40]))
            out.append((kind, s, key, where, msg))
    live = [(v, s) for v, s in rets if not s.dead()]
    if not live:
        put("contract", "unknown", f"returns|{name}|{tag}", "no return path found")
    for v, s in live:
        items = [v] if not isinstance(v, Tup) else v.items
        names = outname
        if names is not None and len(names) != len(items):
            if s.opaque:
                put("contract", "unknown", f"arity|{name}|{tag}", "number of outputs")
            else:
                put("contract", "bad", f"arity|{name}|{tag}", f"{len(items)} outputs are returned but the advertised output names are {names}")
            names = None
        elif names is not None:
            put("contract", "ok", f"arity|{name}|{tag}", f"{len(items)} outputs")
        for i, x in enumerate(items):
            slot = f"{i}"
            if not isinstance(x, Arr):
                put("contract", "unknown", f"series|{name}|{tag}|{slot}", f"output not tracked ({x!r})")
                put("causal", "unknown", f"causal|{name}|{tag}|{slot}", "output not tracked")
                continue
            if not x.pd:
                put("contract", "bad" if not s.opaque else "unknown", f"series|{name}|{tag}|{slot}", "a bare array is returned, not a series on the caller's index")
            elif x.pd.index == "row" and x.pd.roff is not None:
                ok = not x.pd.rev and x.pd.roff == L(0)
                put("contract", "ok" if ok else ("unknown" if s.opaque else "bad"), f"index|{name}|{tag}|{slot}",
                    "indexed like the input" if ok else f"output labelled from row {x.pd.roff}{' reversed' if x.pd.rev else ''}")
            elif x.pd.index == "filtered":
                put("contract", "bad" if not s.opaque else "unknown", f"index|{name}|{tag}|{slot}",
                    "rows were dropped from the output (filtered, never reindexed to the caller's rows)")
            elif x.pd.index == "other":
                put("contract", "bad" if not s.opaque else "unknown", f"index|{name}|{tag}|{slot}", "output carries a fresh index instead of the caller's")
            else:
                put("contract", "unknown", f"index|{name}|{tag}|{slot}", "index not tracked")
            if isinstance(x.ln, Lin):
                if prove(s.facts, x.ln - n) and prove(s.facts, n - x.ln):
                    put("contract", "ok", f"length|{name}|{tag}|{slot}", "one value per input row")
                else:
                    st1, w = wit(eng, s, [x.ln - n - 1])
                    st2, w2 = wit(eng, s, [n - x.ln - 1])
                    bad = "bad" in (st1, st2)
                    put("contract", "bad" if bad else "unknown", f"length|{name}|{tag}|{slot}", f"length {x.ln} instead of n")
            if x.pd and names is not None:
                nm, want = x.pd.name, names[i]
                if nm is None or want is None:
                    put("contract", "unknown", f"name|{name}|{tag}|{slot}", f"name {nm!r} against {want!r}")
                elif nm == want:
                    put("contract", "ok", f"name|{name}|{tag}|{slot}", f"named {nm!r}")
                elif "{?}" in nm + want or s.opaque:
                    put("contract", "unknown", f"name|{name}|{tag}|{slot}", f"name {nm!r} against {want!r}")
                else:
                    put("contract", "bad", f"name|{name}|{tag}|{slot}", f"series is named {nm!r}, the transform advertises {want!r}")
            if x.off is None:
                put("causal", "unknown", f"causal|{name}|{tag}|{slot}", "view not tracked")
                continue
            ps = eng.view_pieces(x, s)
            for cs, m, d in causal_pieces(eng, s, x, ps, ignore):
                put("causal", cs, f"causal|{name}|{tag}|{slot}|{d.role if d is not None else '-'}", m)
            if not ps:
                put("causal", "ok", f"causal|{name}|{tag}|{slot}|-", "constant")


def unit(root, name, backend):
    repo = Repo(root)
    cls = transforms(repo)[name]
    out = []
    where = f"{cls._mod.path}:{cls.lineno} in {name}"
    eng, st = start(repo, cls)
    nret = 0
    for o, s in build(eng, st, cls):
        h = s.heap[o.bid]
        req = strings(h.get("requires")) if h.get("requires") is not None else None
        if req is None or None in req:
            out.append(("contract", "unknown", f"requires|{name}", where, "required columns not tracked"))
            continue
        req = list(dict.fromkeys(req))
        df = eng.pd.frame(s, sym("n"), req)
        onm = [(strings(v), s2) for v, s2 in eng.attr(o, "output_name", cls, s)]
        call = repo.method(cls, "__call__")
        rets = eng.call_fn(Fn(call, o), [df], {"backend": Str(backend)}, call, s)
        nret += len(rets)
        judge(eng, name, cls, rets, onm[0][0] if len(onm) == 1 else None, out, where, backend)
    for ob in eng.obl.values():
        key = f"{ob['kind']}|{ob['fn']}|{construct(ob['construct'])}"
        out.append((ob["kind"], ob["status"], key, f"{rel(ob['path'])}:{ob['line']} in {ob['fn']}",
                    ob["msg"] + f" [via {name}, backend {backend}]"))
    out.append(("unit", "ok", f"unit|{name}|{backend}", where, f"{nret} return paths"))
    return out


# ---------------------------------------------------------------- operators of Feature and Compose
SKIP_F = {"__init__", "__call__", "to_config", "from_config", "apply", "name", "__repr__", "__str__", "__neg__x"}


def feature_cases(repo):
    """every public way to derive one Feature from others: (method, how it is called)"""
    F = repo.cls("finmlkit.feature.kit", "Feature")
    out = []
    for m in F.body:
        if not isinstance(m, ast.FunctionDef) or m.name in SKIP_F or any(isinstance(d, ast.Attribute) or (isinstance(d, ast.Name) and d.id in ("property", "classmethod"))
                                                                        for d in m.decorator_list):
            continue
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.decorator_list)
        ps = [a.arg for a in m.args.args]
        if static and len(ps) == 2:
            out += [(m.name, "ff"), (m.name, "fc"), (m.name, "cf")]
        elif not static and m.name.startswith("__") and len(ps) == 2:
            out += [(m.name, "f"), (m.name, "c")] if not m.name.startswith("__r") else [(m.name, "c")]
        elif not static:
            out.append((m.name, "args"))
    out.append(("Compose", "chain"))
    return out


def feature_unit(root, name, how, backend):
    repo = Repo(root)
    KIT = "finmlkit.feature.kit"
    F = repo.cls(KIT, "Feature")
    ident = transforms(repo)["Identity"]
    tag = f"{name}:{how}|{backend}"
    eng, st = start(repo, F)
    out = []

    def mk(col, s):
        t, s = eng.instantiate(Cls(ident), [Str(col)], {}, F, s)[0]
        return eng.instantiate(Cls(F), [t], {}, F, s)[0] + (t,)
    f, st, ft = mk("c0", st)
    g, st, gt = mk("c1", st)
    m = next((x for x in F.body if isinstance(x, ast.FunctionDef) and x.name == name), None)
    const = Num(None, NOD, False, x=("num", "const"))
    where = f"{F._mod.path}:{(m or F).lineno} in Feature.{name}"
    if name == "Compose":
        tr = transforms(repo)
        C = repo.cls(KIT, "Compose")
        where = f"{C._mod.path}:{C.lineno} in Compose"
        a, st = build(eng, st, tr["Lag"])[0]
        b, st = build(eng, st, tr["SMA"], {"input_col": Str("c0_inner")})[0]
        made = eng.instantiate(Cls(C), [a, b], {}, C, st)
    else:
        if how == "ff":
            args, self_ = [f, g], None
        elif how == "fc":
            args, self_ = [f, const], None
        elif how == "cf":
            args, self_ = [const, g], None
        elif how == "f":
            args, self_ = [g], f
        elif how == "c":
            args, self_ = [const], f
        else:
            self_ = f
            args = []
            ps = m.args.args[1:]
            dfl = [None] * (len(ps) - len(m.args.defaults)) + list(m.args.defaults)
            for p, d in zip(ps, dfl):
                if d is not None and isinstance(d, ast.Constant) and d.value is None:
                    args.append(Num(None, NOD, False, x=("num", p.arg)))
                else:
                    args.append(arg_value(eng, st, p, p.annotation, d))
        made = eng.call_fn(Fn(m, self_), args, {}, m, st)
    n = 0
    for o, s in made:
        if not isinstance(o, Obj) or s.dead():
            continue
        df = eng.pd.frame(s, sym("n"), ["c0", "c1"])
        call = repo.method(o.cls, "__call__")
        onm = [strings(v) for v, s2 in eng.attr(o, "name" if o.cls is F else "output_name", call, s)]
        for v, s2 in [(None, None)]:
            pass
        rets = eng.call_fn(Fn(call, o), [df], {"backend": Str(backend)}, call, s)
        n += len(rets)
        judge(eng, f"Feature.{name}:{how}" if name != "Compose" else "Compose", F, rets, onm[0] if len(onm) == 1 else None, out, where, backend)
    if n == 0:
        out.append(("contract", "unknown", f"returns|Feature.{name}:{how}|{backend}", where, "no feature is produced"))
    for ob in eng.obl.values():
        out.append((ob["kind"], ob["status"], f"{ob['kind']}|{ob['fn']}|{construct(ob['construct'])}", f"{rel(ob['path'])}:{ob['line']} in {ob['fn']}",
                    ob["msg"] + f" [via Feature.{name}]"))
    out.append(("unit", "ok", f"unit|Feature.{name}:{how}|{backend}", where, f"{n} return paths"))
    return out


def run_transforms(rep, repo, kinds, limit=200, features=True):
    from . import pool
    from .kunits import run_units  # noqa: F401  (same report conventions)
    items = [(repo.root, n, b) for n in sorted(transforms(repo)) for b in ("pd", "nb")]
    fitems = [(repo.root, n, h, b) for n, h in feature_cases(repo) for b in ("pd", "nb")] if features else []
    res = pool.run(unit, items, limit) + pool.run(feature_unit, fitems, limit)
    done = 0
    for it, (s, v) in zip(items + fitems, res):
        tag = ":".join(it[1:])
        if s == "broken":
            raise AnalysisBroken(v)
        if s != "ok":
            rep.skipped.append(f"{tag}: {s}: {v}")
            continue
        done += 1
        rep.analysed.append(tag)
        for kind, st, key, where, msg in v:
            if kind in kinds:
                rep.add(st, kind, key, where, msg)
    rep.floor("transform and operator calls analysed", done, max(60, int(0.8 * len(items + fitems))))
    return done

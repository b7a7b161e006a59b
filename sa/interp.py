"""Abstract interpreter over the syntax trees of finmlkit's kernels and transforms.

Domain: affine integers + linear path facts (lin.py), per-cell row provenance of every array (vals.Piece),
must-initialised intervals of np.empty buffers, and access sets of parallel loops.  Loops are summarised
(induction variables, provenance fixpoint), never unrolled; calls inside the package are inlined.
Three-valued: an obligation is discharged, refuted (with a small integer witness over free symbols) or unknown;
only refuted ones are reported as violations."""
from __future__ import annotations
import ast
import itertools
from .lin import Lin, L, sym, prove, prove_eq, infeasible, witness
from .vals import *
from .repo import AnalysisBroken, is_parallel, docless

CAP = 10
INLINE_DEPTH = 7
ELEMENTWISE = {
    "log", "log1p", "log2", "log10", "exp", "sqrt", "abs", "fabs", "absolute", "sign", "isnan", "isfinite", "isinf", "floor",
    "ceil", "round", "around", "maximum", "minimum", "where", "nan_to_num", "square", "power", "divide", "multiply", "add",
    "subtract", "sin", "cos", "tan", "tanh", "clip", "fmax", "fmin", "negative", "logical_and", "logical_or", "logical_not",
    "isclose", "mod", "expm1", "rint", "floor_divide", "true_divide", "greater", "less", "greater_equal", "less_equal",
    "equal", "not_equal", "reciprocal", "invert", "bitwise_and", "bitwise_or",
}
COPYLIKE = {"asarray", "array", "copy", "ascontiguousarray", "asfarray", "float64", "float32", "int64", "int32", "int8", "atleast_1d", "require", "ravel", "squeeze"}
REDUCE = {"sum", "mean", "median", "std", "var", "min", "max", "nansum", "nanmean", "nanmedian", "nanstd", "nanvar", "nanmin",
          "nanmax", "amin", "amax", "any", "all", "percentile", "nanpercentile", "quantile", "nanquantile", "dot", "prod", "argmax",
          "argmin", "nanargmax", "nanargmin", "count_nonzero", "ptp", "vdot", "inner", "linalg.norm", "unique", "sort", "argsort", "corrcoef",
          "cov", "polyfit", "average", "array_equal", "allclose", "nanprod", "histogram", "bincount", "digitize", "flatnonzero", "nonzero"}
FULLMIX = {"unique", "sort", "argsort", "corrcoef", "cov", "polyfit", "histogram", "bincount", "digitize", "flatnonzero", "nonzero"}
CUM = {"cumsum", "cumprod", "nancumsum", "nancumprod"}
ALLOC = {"zeros", "ones", "full", "empty"}
LIKE = {"zeros_like", "ones_like", "full_like", "empty_like"}
SCALARFN = {"log", "log1p", "exp", "sqrt", "abs", "sign", "isnan", "isfinite", "floor", "ceil", "round", "fabs"}


class Frame:
    def __init__(self, fn, mod, parallel):
        self.fn, self.mod, self.parallel = fn, mod, parallel
        self.returns = []
        self.breaks = None
        self.conts = None


class PR:
    """an open parallel loop"""
    def __init__(self, ivar, node, fn, known, symno):
        self.ivar, self.node, self.fn, self.known, self.symno = ivar, node, fn, known, symno
        self.acc = []
        self.heads = None


class Interp:
    def __init__(self, repo):
        self.repo = repo
        self.n = 0
        self.bidn = 0
        self.free = set()
        self.nonfree = set()
        self.rec = True
        self.obl = {}        # key -> dict
        self.stack = []
        self.prs = []
        self.pd = None       # pandas model, installed by pdmodel
        self.calls = set()
        self.steps = 0
        self.trace_calls = None
        self.idxsym = {}
        self.evtroles_ignore = set()
        self.rowlen = None

    # ---------------------------------------------------------------- infrastructure
    def fresh(self, p, free=False):
        self.n += 1
        s = f"{p}#{self.n}"
        (self.free if free else self.nonfree).add(s)
        return s

    def newbid(self):
        self.bidn += 1
        return self.bidn

    @property
    def fr(self):
        return self.stack[-1]

    def note(self, kind, status, node, msg, key=None, wit=None):
        """record an obligation outcome; keyed by rule+function+construct"""
        if not self.rec:
            return
        fn = self.fr.fn.name
        path = self.fr.mod.path
        k = (kind, path, fn, key or ast.unparse(node)[:90], getattr(node, "lineno", 0))
        o = self.obl.get(k)
        rank = {"ok": 0, "unknown": 1, "bad": 2}
        chain = [f.fn.name for f in self.stack]
        if o is None or rank[status] > rank[o["status"]]:
            self.obl[k] = dict(kind=kind, path=path, fn=fn, construct=k[3], line=getattr(node, "lineno", 0), status=status,
                               msg=msg, chain=chain, witness=wit)

    def isfree(self, lins, st):
        for l in lins:
            for s in l.syms():
                if "#" in s and s not in self.free:
                    return False
        return True

    def find_bad(self, st, conds):
        """a witness for `conds` under the path facts, only over symbols that may take any admissible value"""
        conds = [c for c in conds]
        if st.opaque:
            return None
        if infeasible(st.facts, conds):
            return None
        w = witness(st.facts, conds)
        if w is None:
            return None
        for s in w:
            if "#" in s and s not in self.free:
                return None
        return w

    # ---------------------------------------------------------------- expressions
    def evs(self, nodes, st):
        out = [([], st)]
        for n in nodes:
            nxt = []
            for vs, s in out:
                for v, s2 in self.ev(n, s):
                    nxt.append((vs + [v], s2))
            out = nxt
        return out

    def ev(self, node, st):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            return self.ev_generic(node, st)
        r = m(node, st)
        if len(r) > 24:
            r = self.collapse(r)
        return r

    def collapse(self, r):
        v = r[0][0]
        st = r[0][1]
        for v2, s2 in r[1:]:
            st2 = self.join2(st, s2)
            v = self.joinv(v, v2, st, s2)
            st = st2
        return [(v, st)]

    def ev_generic(self, node, st):
        deps = NOD
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.expr):
                for v, st in self.ev(c, st)[:1]:
                    deps = dunion(deps, vdeps(v, st))
        return [(Unk(deps, type(node).__name__), st)]

    def ev_Constant(self, node, st):
        v = node.value
        if v is None:
            return [(NONE, st)]
        if isinstance(v, bool):
            return [(Num(const=v, isint=False, cond=((v, (), False, (), None),)), st)]
        if isinstance(v, int):
            return [(Num(L(v), isint=True, const=v), st)]
        if isinstance(v, float):
            return [(Num(None, isint=False, const=v), st)]
        if isinstance(v, str):
            return [(Str(v), st)]
        return [(Unk(why="const"), st)]

    def ev_JoinedStr(self, node, st):
        parts = []
        ok = True
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(str(p.value))
            else:
                v = self.ev(p.value, st)[0][0]
                if isinstance(v, Str) and v.s is not None:
                    parts.append(v.s)
                elif isinstance(v, Num) and v.lin is not None:
                    parts.append("{%r}" % v.lin)
                elif isinstance(v, Num) and v.x:
                    parts.append("{%s}" % (v.x,))
                else:
                    parts.append("{?}")
        return [(Str("".join(parts)), st)]

    def ev_Name(self, node, st):
        if node.id in st.env:
            v = st.env[node.id]
            if isinstance(v, Num) and v.carried is not None:
                self.carried_read(v, node, st)
                v = v.w(carried=None)
            if isinstance(v, Maybe):
                d = st.decided.get(("none", v.key))
                if d is True:
                    return [(NONE, st)]
                if d is False:
                    return [(v.val, st)]
            return [(v, st)]
        return [(self.global_(node.id), st)]

    def carried_read(self, v, node, st):
        pr, name, kind = v.carried
        if kind == "red":
            return
        self.note("race", "bad", node, f"variable '{name}' carries a value between iterations of the parallel loop at line "
                  f"{pr.node.lineno} ({kind})", key=f"carried:{name}")

    def global_(self, name):
        mod = self.fr.mod
        r = self.repo.resolve(mod.name, name)
        if r is None:
            import builtins
            if hasattr(builtins, name):
                return Mod("builtins." + name)
            return Unk(why="global " + name)
        if r[0] == "func":
            return Fn(r[1])
        if r[0] == "class":
            return Cls(r[1])
        if r[0] == "module":
            return Mod(r[1])
        if r[0] == "ext":
            return Mod(r[1])
        if r[0] == "const":
            e = r[1]
            self.stack.append(Frame(self.fr.fn, r[2], False))
            try:
                if isinstance(e, (ast.Constant, ast.UnaryOp, ast.BinOp)):
                    return self.ev(e, State())[0][0]
            finally:
                self.stack.pop()
            return Unk(why="const " + name)
        return Unk()

    def ev_Attribute(self, node, st):
        out = []
        for b, s in self.ev(node.value, st):
            out.extend(self.attr(b, node.attr, node, s))
        return out

    def attr(self, b, a, node, st):
        if isinstance(b, Mod):
            full = b.name + "." + a
            if b.name in self.repo.modules:
                r = self.repo.resolve(b.name, a)
                if r:
                    if r[0] == "func":
                        return [(Fn(r[1]), st)]
                    if r[0] == "class":
                        return [(Cls(r[1]), st)]
            if full in ("numpy.nan", "numpy.inf", "numpy.pi", "numpy.NaN"):
                return [(Num(const=full.split(".")[1]), st)]
            return [(Mod(full), st)]
        if isinstance(b, Arr):
            A = st.heap[b.bid]
            if a == "shape":
                return [(Tup([Num(b.ln, isint=True)]), st)]
            if a == "size":
                return [(Num(b.ln, isint=True), st)]
            if a in ("values", "array"):
                return [(Arr(b.bid, b.off, b.ln, b.step), st)]
            if a == "index" and b.pd:
                return [(self.pd.index_of(b) if self.pd is not None else Idx(None), st)]
            if a == "T":
                return [(b, st)]
            if a in ("iloc", "loc", "iat", "at"):
                return [(Tup([Str("@" + a), b]), st)]
            if a in ("dt", "str"):
                return [(b, st)]
            if a in ("dtype", "ndim", "name"):
                return [(Unk(why=a), st)]
        if isinstance(b, Num) and a in ("size",):
            return [(Num(L(1)), st)]
        if isinstance(b, Obj):
            h = st.heap[b.bid]
            if a in h:
                v = h[a]
                if isinstance(v, Maybe):
                    d = st.decided.get(("none", v.key))
                    if d is True:
                        return [(NONE, st)]
                    if d is False:
                        return [(v.val, st)]
                return [(v, st)]
            m = self.repo.method(b.cls, a)
            if m is not None:
                decs = [ast.unparse(d) for d in m.decorator_list]
                if "property" in decs:
                    return self.call_fn(Fn(m, b), [], {}, node, st)
                if "staticmethod" in decs:
                    return [(Fn(m), st)]
                return [(Fn(m, b), st)]
            if a == "__class__":
                return [(Cls(b.cls), st)]
        if isinstance(b, Cls):
            m = self.repo.method(b.node, a)
            if m is not None:
                return [(Fn(m), st)]
            if a == "__name__":
                return [(Str(b.node.name), st)]
        if self.pd is not None:
            r = self.pd.attr(b, a, node, st)
            if r is not None:
                return r
        return [(Tup([Str("@m"), b, Str(a)]), st)]

    # ---- arithmetic
    def tolin(self, v):
        return v.lin if isinstance(v, Num) else None

    def ev_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            return self.boolval(node, st)
        out = []
        for v, s in self.ev(node.operand, st):
            if isinstance(v, Num) and isinstance(node.op, ast.USub):
                c = -v.const if isinstance(v.const, (int, float)) and not isinstance(v.const, bool) else ("-" + v.const if isinstance(v.const, str) else None)
                out.append((Num(-v.lin if v.lin is not None else None, v.deps, v.isint, const=c, x=("neg", v.x) if v.x else None), s))
            elif isinstance(v, Arr):
                out.append((self.elementwise([v], s, node), s))
            elif isinstance(v, Num):
                out.append((Num(v.lin if isinstance(node.op, ast.UAdd) else None, v.deps, v.isint), s))
            else:
                out.append((Unk(vdeps(v, s)), s))
        return out

    def ev_BinOp(self, node, st):
        out = []
        for (a, b), s in self.evs([node.left, node.right], st):
            out.extend(self.binop(node.op, a, b, node, s))
        return out

    def binop(self, op, a, b, node, st):
        if isinstance(a, Maybe):
            a = a.val
        if isinstance(b, Maybe):
            b = b.val
        if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
            return [(self.elementwise([a, b], st, node), st)]
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(op, ast.Add) and isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None:
                return [(Str(a.s + b.s), st)]
            return [(Str(None), st)]
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return [(Tup(a.items + b.items, a.islist), st)]
        if isinstance(a, Tup) and isinstance(op, ast.Mult):
            return [(Unk(vdeps(a, st)), st)]
        if isinstance(a, Day) or isinstance(b, Day):
            if self.pd:
                return [(self.pd.daybin(a, b, st), st)]
        if not isinstance(a, Num) or not isinstance(b, Num):
            return [(Unk(dunion(vdeps(a, st), vdeps(b, st)), "binop"), st)]
        deps = dunion(a.deps, b.deps)
        la, lb = a.lin, b.lin
        isint = True if (a.isint and b.isint and not isinstance(op, ast.Div)) else (False if (a.isint is False or b.isint is False or isinstance(op, ast.Div)) else None)
        r = None
        time = None
        const = None
        if isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)) and not isinstance(a.const, bool) and not isinstance(b.const, bool):
            try:
                if isinstance(op, ast.Add): const = a.const + b.const
                elif isinstance(op, ast.Sub): const = a.const - b.const
                elif isinstance(op, ast.Mult): const = a.const * b.const
                elif isinstance(op, ast.Div): const = a.const / b.const
                elif isinstance(op, ast.FloorDiv): const = a.const // b.const
                elif isinstance(op, ast.Mod): const = a.const % b.const
                elif isinstance(op, ast.Pow): const = a.const ** b.const
            except Exception:
                const = None
            if isinstance(const, int) and isint:
                return [(Num(L(const), deps, True, const=const), st)]
            if isinstance(const, complex):
                const = None
        if isinstance(op, (ast.Add, ast.Sub)):
            if la is not None and lb is not None:
                r = la + lb if isinstance(op, ast.Add) else la - lb
            # time arithmetic
            if a.time is not None and b.time is None:
                sg = self.sign(b)
                if isinstance(op, ast.Sub):
                    sg = {"pos": "neg", "neg": "pos", "zero": "zero"}.get(sg, "?")
                time = (a.time[0], self.addsign(a.time[1], sg))
            elif b.time is not None and a.time is None and isinstance(op, ast.Add):
                time = (b.time[0], self.addsign(b.time[1], self.sign(a)))
        elif isinstance(op, ast.Mult):
            if la is not None and lb is not None:
                if la.const is not None:
                    r = lb.scale(la.const)
                elif lb.const is not None:
                    r = la.scale(lb.const)
                else:
                    r = self.product(la, lb, st)
        elif isinstance(op, ast.FloorDiv):
            if la is not None and lb is not None and lb.const not in (None, 0) and lb.const > 0:
                q = self.divsym("//", la, lb.const, st)
                r = q
            elif la is not None and lb is not None:
                r = self.opaque_int(("//", la, lb), st)
                if prove(st.facts, la) and prove(st.facts, lb - 1):
                    st.add(r, la - r)
        elif isinstance(op, ast.Mod):
            if la is not None and lb is not None and lb.const is None and prove(st.facts, lb - 1):
                r = self.opaque_int(("%", la, lb), st)
                st.add(r, lb - 1 - r)
            elif la is not None and lb is not None and lb.const is not None and lb.const > 0:
                q = self.divsym("//", la, lb.const, st)
                r = la - q.scale(lb.const)
        if r is None and isint and la is None:
            pass
        x = None
        if a.x or b.x:
            x = (type(op).__name__, a.x or (a.lin if a.lin is not None else a.const), b.x or (b.lin if b.lin is not None else b.const))
        return [(Num(r, deps, isint, time=time, const=const, x=None if self.xdepth(x) > 6 else x), st)]

    def xdepth(self, x):
        if not isinstance(x, tuple):
            return 0
        return 1 + max([self.xdepth(y) for y in x[1:]] or [0])

    def sign(self, v):
        if isinstance(v, Num):
            if isinstance(v.const, (int, float)):
                return "pos" if v.const > 0 else "neg" if v.const < 0 else "zero"
            if isinstance(v.x, tuple):
                return self.xsign(v.x)
            if v.lin is not None and v.lin.k and all(c > 0 for _, c in v.lin.k) and all("#" not in s for s, _ in v.lin.k):
                return "pos"
        return "?"

    def xsign(self, x):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return "pos" if x > 0 else "neg" if x < 0 else "zero"
        if isinstance(x, Lin):
            if x.const is not None:
                return self.xsign(x.const)
            return "pos" if all(c > 0 for _, c in x.k) and x.c >= 0 else "?"
        if isinstance(x, tuple):
            if x[0] == "neg":
                return {"pos": "neg", "neg": "pos", "zero": "zero"}.get(self.xsign(x[1]), "?")
            if x[0] in ("Mult", "Div"):
                a, b = self.xsign(x[1]), self.xsign(x[2])
                if a == "?" or b == "?":
                    return "?"
                if "zero" in (a, b):
                    return "zero"
                return "pos" if a == b else "neg"
            if x[0] == "pos":
                return "pos"
        return "?"

    def addsign(self, a, b):
        if a == "zero":
            return b
        if b == "zero" or a == b:
            return a
        return "?"

    def product(self, la, lb, st):
        key = ("*",) + tuple(sorted([la, lb], key=repr))
        r = self.opaque_int(key, st)
        if prove(st.facts, la) and prove(st.facts, lb):
            st.add(r)
            if prove(st.facts, la - 1):
                st.add(r - lb)
            if prove(st.facts, lb - 1):
                st.add(r - la)
        return r

    def divsym(self, op, la, c, st):
        if la.const is not None:
            return L(la.const // c)
        q = self.opaque_int((op, la, c), st, free=True)
        st.add(la - q.scale(c), q.scale(c) + (c - 1) - la)
        return q

    def opaque_int(self, key, st, free=False):
        """deterministic symbol per (operation, operands)"""
        if key not in self.idxsym:
            self.idxsym[key] = self.fresh("q", free)
        return sym(self.idxsym[key])

    def elementwise(self, vs, st, node, dtype=None):
        arrs = [v for v in vs if isinstance(v, Arr)]
        if not arrs:
            return Unk(dunion(*[vdeps(v, st) for v in vs]))
        ln = None
        for a in arrs:
            if a.ln is not None:
                ln = a.ln
                if not (ln.const == 1):
                    break
        pieces = []
        for v in vs:
            if isinstance(v, Arr):
                pieces.extend(self.view_pieces(v, st))
            else:
                d = vdeps(v, st)
                if d:
                    pieces.append(Piece(None, None, d))
        pds = [a.pd for a in arrs if a.pd]
        pd_ = pds[0] if pds else None
        if len(pds) > 1:
            if any(not p.same_rows(pd_) for p in pds[1:]):
                # label-aligned arithmetic of series over different rows
                d = frozenset(Dep(x.role, UNK, UNK, x.tags) for v in vs for x in vdeps(v, st))
                bid = self.alloc(st, None, [Piece(None, None, d)] if d else [], node, dtype=dtype)
                return Arr(bid, L(0), None, 1, pd_.w(index="unknown", roff=None, name=None))
            if any(p.name != pd_.name for p in pds[1:]):
                pd_ = pd_.w(name=None)
        if any(isinstance(st.heap.get(a.bid), ArrS) and st.heap[a.bid].kind == "masked" for a in arrs):
            m = next(a for a in arrs if isinstance(st.heap.get(a.bid), ArrS) and st.heap[a.bid].kind == "masked")
            bid = self.alloc(st, st.heap[m.bid].ln, pieces, node, dtype=dtype, kind="masked")
            return Arr(bid, L(0), None, 1, pd_)
        bid = self.alloc(st, ln, pieces, node, dtype=dtype)
        return Arr(bid, L(0), ln, 1, pd_)

    def view_pieces(self, v, st):
        """pieces of view v re-indexed from 0"""
        a = st.heap.get(v.bid)
        out = []
        if a is None:
            return out
        if v.off is None or v.step is None:
            d = dunion(*[dproj(p.deps, K, L(0), a.ln - 1 if isinstance(a.ln, Lin) else None) for p in a.pieces])
            return [Piece(None, None, d)] if d else []
        for p in a.pieces:
            if v.step == 1:
                m = {K: KL + v.off}
                klo = p.klo - v.off if p.klo is not None else None
                khi = p.khi - v.off if p.khi is not None else None
                out.append(Piece(klo, khi, dsub(p.deps, m)))
            elif v.step == -1:
                m = {K: v.off - KL}
                klo = v.off - p.khi if p.khi is not None else None
                khi = v.off - p.klo if p.klo is not None else None
                out.append(Piece(klo, khi, dsub(p.deps, m)))
            else:
                m = {K: KL.scale(v.step) + v.off}
                out.append(Piece(None, None, dsub(p.deps, m)))
        return out

    def alloc(self, st, ln, pieces, node, cover=None, kind="arr", dtype=None, fill=None):
        bid = self.newbid()
        pieces = merge_pieces(pieces)
        st.heap[bid] = ArrS(ln, pieces, cover, line=getattr(node, "lineno", 0), fn=self.fr.fn.name, kind=kind, dtype=dtype, fill=fill)
        return bid

    def ev_IfExp(self, node, st):
        groups = {True: [], False: []}
        res = []
        for t, s, d, k in self.cond(node.test, st):
            for v, s2 in self.ev(node.body if t else node.orelse, s):
                res.append((t, v, s2, d, k))
        if len(res) == 1:
            _, v, s, d, k = res[0]
            return [(v, s)]
        # join when no integer distinction is lost
        def simple(v):
            return not isinstance(v, Num) or v.lin is None
        if all(isinstance(r[1], (Num, Unk)) for r in res):
            lins = {r[1].lin if isinstance(r[1], Num) else None for r in res}
            kinds = {r[4] for r in res}
            if len(lins) == 1 and not any(isinstance(r[1], Num) and r[1].cond for r in res):
                deps = dunion(*[vdeps(r[1]) for r in res], *[r[3] for r in res])
                s = st.copy() if len(res) != 2 or True else st
                base = res[0][2]
                for r in res[1:]:
                    base = self.join2(base, r[2])
                base.ctl = st.ctl
                base.guards = st.guards
                consts = {r[1].const if isinstance(r[1], Num) else None for r in res}
                return [(Num(lins.pop(), deps, const=consts.pop() if len(consts) == 1 else None), base)]
            if "data" in kinds and not any(isinstance(r[1], Num) and r[1].cond for r in res):
                # data-dependent choice between integers: an arbitrary one of them
                allc = [r[1].lin for r in res if isinstance(r[1], Num) and r[1].lin is not None]
                if len(allc) == len(res) and all(l.const is not None for l in allc):
                    s_ = self.fresh("sel", True)
                    base = res[0][2]
                    for r in res[1:]:
                        base = self.join2(base, r[2])
                    base.ctl = st.ctl
                    base.guards = st.guards
                    cs = sorted(l.const for l in allc)
                    base.add(sym(s_) - cs[0], L(cs[-1]) - sym(s_))
                    return [(Num(sym(s_), dunion(*[vdeps(r[1]) for r in res], *[r[3] for r in res]), True), base)]
        out = []
        for t, v, s, d, k in res:
            if d and isinstance(v, Num):
                v = v.w(deps=dunion(v.deps, d))
            elif d and isinstance(v, Unk):
                v = Unk(dunion(v.deps, d), v.why)
            elif d and isinstance(v, Arr):
                s = s.copy()
                s.ctl = dunion(s.ctl, d)
            if k in ("data",):
                s.ctl = st.ctl
                s.guards = st.guards
            out.append((v, s))
        return out

    # ---- conditions: list of (truth, state, deps, kind)
    def cond(self, node, st):
        r = self._cond(node, st)
        r = [x for x in r if not x[1].dead()]
        if len(r) > 2:
            r = self.merge_conds(r)
        return r

    def merge_conds(self, r):
        out = []
        for t, s, d, k in r:
            for j, (t2, s2, d2, k2) in enumerate(out):
                if t2 == t and s2.facts == s.facts and s2.opaque == s.opaque and s2.decided == s.decided and s2.env is not None and self.same_env(s, s2):
                    s2.guards = s2.guards & s.guards
                    out[j] = (t, s2, dunion(d, d2), "opaque" if "opaque" in (k, k2) else k)
                    break
            else:
                out.append((t, s, d, k))
        return out

    def same_env(self, a, b):
        if a.env is b.env:
            return True
        if a.env.keys() != b.env.keys():
            return False
        for k in a.env:
            if a.env[k] is not b.env[k]:
                return False
        return all(a.heap.get(k) is b.heap.get(k) for k in b.heap)

    def _cond(self, node, st):
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur = [(isand, st, NOD, "const")]
            for v in node.values:
                nxt = []
                for t, s, d, k in cur:
                    if t != isand:
                        nxt.append((t, s, d, k))
                        continue
                    for t2, s2, d2, k2 in self.cond(v, s):
                        kk = k2 if k == "const" else (k if k2 == "const" else ("opaque" if "opaque" in (k, k2) else "data" if "data" in (k, k2) else k))
                        nxt.append((t2, s2, dunion(d, d2), kk))
                cur = self.merge_conds(nxt) if len(nxt) > 3 else nxt
            return cur
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(not t, s, d, k) for t, s, d, k in self.cond(node.operand, st)]
        if isinstance(node, ast.Compare):
            ops = []
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                ops.append((left, op, right))
                left = right
            cur = [(True, st, NOD, "const")]
            for (l, op, rr) in ops:
                nxt = []
                for t, s, d, k in cur:
                    if not t:
                        nxt.append((t, s, d, k))
                        continue
                    for (a, b), s2 in self.evs([l, rr], s):
                        for t2, s3, d2, k2 in self.compare(op, a, b, node, s2):
                            kk = k2 if k == "const" else (k if k2 == "const" else ("opaque" if "opaque" in (k, k2) else "data" if "data" in (k, k2) else k))
                            nxt.append((t2, s3, dunion(d, d2), kk))
                cur = nxt
            return cur
        out = []
        for v, s in self.ev(node, st):
            out.extend(self.truth(v, node, s))
        return out

    def truth(self, v, node, st):
        if v is NONE:
            return [(False, st, NOD, "const")]
        if isinstance(v, Maybe):
            k = ("none", v.key)
            if k in st.decided:
                return [(not st.decided[k], st, NOD, "const")]
            a, b = st.copy(), st.copy()
            a.decided[k] = False
            b.decided[k] = True
            return [(True, a, NOD, "key"), (False, b, NOD, "key")]
        if isinstance(v, Num):
            if v.cond is not None:
                out = []
                for (t, facts, opq, tags, dec) in v.cond:
                    s = st.copy()
                    if dec:
                        k0, v0 = dec
                        if k0 in s.decided and s.decided[k0] != v0:
                            continue
                        s.decided[k0] = v0
                    s.add(*facts)
                    if opq:
                        s.opaque = s.opaque | {opq if isinstance(opq, str) else "opq"}
                    if tags:
                        s.guards = s.guards | frozenset(tags)
                    kind = "opaque" if opq else ("data" if v.deps else ("const" if len(v.cond) == 1 else "lin"))
                    if s.dead():
                        continue
                    out.append((t, s, v.deps, kind))
                return out
            if isinstance(v.const, (int, float)):
                return [(bool(v.const), st, v.deps, "const")]
            if v.lin is not None:
                a, b, c = st.copy(), st.copy(), st.copy()
                a.add(v.lin - 1)
                c.add(-v.lin - 1)
                b.add(v.lin, -v.lin)
                return [(True, a, v.deps, "lin"), (True, c, v.deps, "lin"), (False, b, v.deps, "lin")]
            key = ("truth", v.x) if v.x else None
            if key is not None and not v.deps:
                if key in st.decided:
                    return [(st.decided[key], st, NOD, "const")]
                a, b = st.copy(), st.copy()
                a.decided[key] = True
                b.decided[key] = False
                return [(True, a, NOD, "key"), (False, b, NOD, "key")]
            if v.deps:
                return [(True, st.copy(), v.deps, "data"), (False, st.copy(), v.deps, "data")]
        if isinstance(v, Str) and v.s is not None:
            return [(bool(v.s), st, NOD, "const")]
        if isinstance(v, (Fn, Cls)):
            return [(True, st, NOD, "const")]
        if isinstance(v, Tup) and v.islist:
            return [(bool(v.items), st, NOD, "const")]
        d = vdeps(v, st)
        a, b = st.copy(), st.copy()
        if not d or isinstance(v, Unk):
            a.opaque = a.opaque | {"u"}
            b.opaque = b.opaque | {"u"}
        return [(True, a, d, "opaque"), (False, b, d, "opaque")]

    def compare(self, op, a, b, node, st):
        """-> [(truth, state, deps, kind)]"""
        if isinstance(op, (ast.Is, ast.IsNot)) or (isinstance(op, (ast.Eq, ast.NotEq)) and (a is NONE or b is NONE)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            if b is NONE or a is NONE:
                v = a if b is NONE else b
                if v is NONE:
                    return [(pos, st, NOD, "const")]
                if isinstance(v, Maybe):
                    k = ("none", v.key)
                    if k in st.decided:
                        return [(st.decided[k] == pos, st, NOD, "const")]
                    x, y = st.copy(), st.copy()
                    x.decided[k] = True
                    y.decided[k] = False
                    return [(pos, x, NOD, "key"), (not pos, y, NOD, "key")]
                if isinstance(v, Unk):
                    x, y = st.copy(), st.copy()
                    x.opaque = x.opaque | {"u"}
                    y.opaque = y.opaque | {"u"}
                    return [(True, x, NOD, "opaque"), (False, y, NOD, "opaque")]
                return [(not pos, st, NOD, "const")]
            if isinstance(a, Num) and isinstance(b, Num) and b.const in (True, False) and isinstance(b.const, bool):
                r = self.truth(a, node, st)
                flip = (b.const is True) != pos
                return [((not t) if flip else t, s, d, k) for t, s, d, k in r]
            x, y = st.copy(), st.copy()
            x.opaque |= {"u"}
            y.opaque |= {"u"}
            return [(True, x, NOD, "opaque"), (False, y, NOD, "opaque")]
        if isinstance(a, Maybe):
            a = a.val
        if isinstance(b, Maybe):
            b = b.val
        if isinstance(a, Str) and isinstance(b, Str):
            if a.s is not None and b.s is not None and "{" not in a.s and "{" not in b.s:
                if isinstance(op, (ast.Eq, ast.NotEq)):
                    return [((a.s == b.s) == isinstance(op, ast.Eq), st, NOD, "const")]
            k = ("streq", a.s, b.s)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                pos = isinstance(op, ast.Eq)
                if k in st.decided:
                    return [(st.decided[k] == pos, st, NOD, "const")]
                x, y = st.copy(), st.copy()
                x.decided[k] = True
                y.decided[k] = False
                return [(pos, x, NOD, "key"), (not pos, y, NOD, "key")]
        d = dunion(vdeps(a, st), vdeps(b, st))
        if isinstance(op, (ast.In, ast.NotIn)):
            known = self.membership(a, b)
            if known is not None:
                return [(known == isinstance(op, ast.In), st, NOD, "const")]
            x, y = st.copy(), st.copy()
            if not d:
                x.opaque |= {"u"}
                y.opaque |= {"u"}
            return [(True, x, d, "data" if d else "opaque"), (False, y, d, "data" if d else "opaque")]
        la = a.lin if isinstance(a, Num) else None
        lb = b.lin if isinstance(b, Num) else None
        if la is not None and lb is not None:
            # compare of data-valued integers against constants gives tags
            T, F = [], []
            df = la - lb
            if isinstance(op, ast.Lt):
                T, F = [[-df - 1]], [[df]]
            elif isinstance(op, ast.LtE):
                T, F = [[-df]], [[df - 1]]
            elif isinstance(op, ast.Gt):
                T, F = [[df - 1]], [[-df]]
            elif isinstance(op, ast.GtE):
                T, F = [[df]], [[-df - 1]]
            elif isinstance(op, ast.Eq):
                T, F = [[df, -df]], [[df - 1], [-df - 1]]
            elif isinstance(op, ast.NotEq):
                T, F = [[df - 1], [-df - 1]], [[df, -df]]
            tg = self.tags(op, a, b)
            if d and tg and isinstance(op, (ast.Eq, ast.NotEq)) and df.k and all(s in self.free and s.startswith("elem") for s in df.syms()):
                # value test on an input element: no index information, keep the two outcomes as data
                pass
            out = []
            for truth, alts in ((True, T), (False, F)):
                for fs in alts:
                    if infeasible(st.facts, fs):
                        continue
                    s = st.copy()
                    s.add(*fs)
                    if tg:
                        s.guards = s.guards | {tg[0] if truth else tg[1]}
                    out.append((truth, s, d, "lin" if not d else "data"))
            if len({t for t, *_ in out}) == 1:
                out = [(t, s, NOD if not d else d, "const") for t, s, _, _ in out][:1] if len(out) == 1 else out
                if len(out) == 1:
                    return [(out[0][0], st, NOD, "const")]
            return out
        if isinstance(a, Num) and isinstance(b, Num) and a.const is not None and b.const is not None and isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)):
            f = {ast.Lt: lambda: a.const < b.const, ast.LtE: lambda: a.const <= b.const, ast.Gt: lambda: a.const > b.const,
                 ast.GtE: lambda: a.const >= b.const, ast.Eq: lambda: a.const == b.const, ast.NotEq: lambda: a.const != b.const}.get(type(op))
            if f and not a.deps and not b.deps:
                return [(f(), st, NOD, "const")]
        x, y = st.copy(), st.copy()
        tg = self.tags(op, a, b)
        if tg:
            x.guards = x.guards | {tg[0]}
            y.guards = y.guards | {tg[1]}
        if d:
            return [(True, x, d, "data"), (False, y, d, "data")]
        # comparison of scalar float parameters: both outcomes possible, consistent along the path
        if isinstance(a, Num) and isinstance(b, Num):
            sa, sb = self.sign(a), self.sign(b)
            if b.const == 0 and sa == "pos" and a.lin is None:
                tr = {ast.Lt: False, ast.LtE: False, ast.Gt: True, ast.GtE: True, ast.Eq: False, ast.NotEq: True}.get(type(op))
                if tr is not None:
                    return [(tr, st, NOD, "const")]
            k = ("cmp", type(op).__name__, repr(a.x or a.const or a.lin), repr(b.x or b.const or b.lin))
            if "None" not in (k[2], k[3]):
                if k in st.decided:
                    return [(st.decided[k], st, NOD, "const")]
                x.decided[k] = True
                y.decided[k] = False
                return [(True, x, NOD, "key"), (False, y, NOD, "key")]
        x.opaque = x.opaque | {"u"}
        y.opaque = y.opaque | {"u"}
        return [(True, x, d, "opaque"), (False, y, d, "opaque")]

    def membership(self, a, b):
        if isinstance(b, Tup) and b.islist is not None and isinstance(a, Str) and a.s is not None:
            if all(isinstance(x, Str) and x.s is not None for x in b.items):
                if a.s in [x.s for x in b.items]:
                    return True
                if "{" not in a.s and not any("{" in x.s for x in b.items):
                    return False
        if self.pd is not None and isinstance(a, Str) and a.s is not None:
            return self.pd.member(a.s, b)
        return None

    def tags(self, op, a, b):
        """guard tag for `<data> == const` style tests: (true tag, false tag)"""
        def roles(v):
            return sorted({d.role for d in v.deps}) if isinstance(v, Num) else []
        def cst(v):
            if isinstance(v, Num) and v.const is not None and not v.deps:
                return v.const
            if isinstance(v, Num) and v.lin is not None and v.lin.const is not None and not v.deps:
                return v.lin.const
            return None
        ra, rb, ca, cb = roles(a), roles(b), cst(a), cst(b)
        if len(ra) == 1 and cb is not None and not rb:
            r, c, flip = ra[0], cb, False
        elif len(rb) == 1 and ca is not None and not ra:
            r, c, flip = rb[0], ca, True
        else:
            return None
        o = type(op).__name__
        if flip:
            o = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(o, o)
        neg = {"Eq": "NotEq", "NotEq": "Eq", "Lt": "GtE", "GtE": "Lt", "Gt": "LtE", "LtE": "Gt"}.get(o)
        if neg is None:
            return None
        return (f"{r} {o} {c}", f"{r} {neg} {c}")

    def boolval(self, node, st):
        outs = self.cond(node, st)
        if not outs:
            return [(Unk(why="dead"), st)]
        if len(outs) == 1 and outs[0][3] == "const":
            t, s, d, k = outs[0]
            return [(Num(const=t, isint=False, deps=d, cond=((t, (), False, (), None),)), s)]
        base = st
        alts = []
        deps = NOD
        for t, s, d, k in outs:
            extra = tuple(f for f in s.facts if f not in base.facts)
            newdec = [(k2, v2) for k2, v2 in s.decided.items() if k2 not in base.decided]
            opq = bool(s.opaque - base.opaque)
            tags = tuple(sorted(s.guards - base.guards))
            alts.append((t, extra, opq or len(newdec) > 1, tags, newdec[0] if len(newdec) == 1 else None))
            deps = dunion(deps, d)
        return [(Num(None, deps, False, cond=tuple(alts)), base)]

    def ev_Compare(self, node, st):
        res = []
        if len(node.ops) == 1 and not isinstance(node.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            for (a, b), s in self.evs([node.left, node.comparators[0]], st):
                if isinstance(a, Arr) or isinstance(b, Arr):
                    res.append((self.elementwise([a, b], s, node, "bool"), s))
            if res:
                return res
        return self.boolval(node, st)

    def ev_BoolOp(self, node, st):
        # value of and/or used as data (e.g. x or default): only boolean meaning is tracked
        return self.boolval(node, st)

    def ev_Tuple(self, node, st):
        return [(Tup(vs), s) for vs, s in self.evs(node.elts, st)]

    def ev_List(self, node, st):
        if not node.elts:
            bid = self.newbid()
            st.heap[bid] = ArrS(L(0), (), None, kind="list", line=node.lineno, fn=self.fr.fn.name)
            return [(Lst(bid), st)]
        return [(Tup(vs, True), s) for vs, s in self.evs(node.elts, st)]

    def ev_Dict(self, node, st):
        out = []
        for (vs), s in self.evs([v for v in node.values], st):
            d = {}
            for k, v in zip(node.keys, vs):
                if isinstance(k, ast.Constant):
                    d[k.value] = v
                elif k is not None:
                    kv = self.ev(k, s)[0][0]
                    if isinstance(kv, Str) and kv.s is not None:
                        d[kv.s] = v
            bid = self.newbid()
            s.heap[bid] = d
            out.append((Obj(None, bid), s))
        return out

    def ev_Set(self, node, st):
        return [(Unk(why="set"), st)]

    def ev_Lambda(self, node, st):
        return [(Fn(node, None, dict(st.env)), st)]

    def ev_Starred(self, node, st):
        return self.ev(node.value, st)

    def ev_NamedExpr(self, node, st):
        out = []
        for v, s in self.ev(node.value, st):
            s.env[node.target.id] = v
            out.append((v, s))
        return out

    def ev_ListComp(self, node, st):
        return self.comp(node, node.elt, st)

    def ev_GeneratorExp(self, node, st):
        return self.comp(node, node.elt, st)

    def ev_DictComp(self, node, st):
        # {k: f(k) for k in <tuple>}
        g = node.generators
        if len(g) == 1 and not g[0].ifs:
            for it, s in self.ev(g[0].iter, st)[:1]:
                if isinstance(it, Tup):
                    d = {}
                    for v in it.items:
                        e = dict(s.env)
                        s2 = s.copy()
                        self.assign(g[0].target, v, s2, node)
                        kv, s2 = self.ev(node.key, s2)[0]
                        vv, s2 = self.ev(node.value, s2)[0]
                        s2.env = e
                        s = s2
                        if isinstance(kv, Str):
                            d[kv.s] = vv
                    bid = self.newbid()
                    s.heap[bid] = d
                    return [(Obj(None, bid), s)]
        return [(Unk(why="dictcomp"), st)]

    ev_SetComp = ev_DictComp

    def comp(self, node, elt, st):
        g = node.generators
        if len(g) == 1 and g[0].ifs:
            it, s = self.ev(g[0].iter, st)[0]
            if isinstance(it, Tup):
                items, e, ok = [], dict(s.env), True
                for v in it.items:
                    s2 = s.copy()
                    self.assign(g[0].target, v, s2, node)
                    keep = True
                    for c in g[0].ifs:
                        r = self.cond(c, s2)
                        if len({t for t, *_ in r}) != 1:
                            ok = False
                            break
                        keep = keep and r[0][0]
                    if not ok:
                        break
                    if keep:
                        vv, s2 = self.ev(elt, s2)[0]
                        items.append(vv)
                        s = s2
                        s.env = dict(e)
                if ok:
                    return [(Tup(items, True), s)]
        if len(g) == 1 and not g[0].ifs:
            it, s = self.ev(g[0].iter, st)[0]
            if isinstance(it, Tup):
                items = []
                e = dict(s.env)
                for v in it.items:
                    s2 = s.copy()
                    self.assign(g[0].target, v, s2, node)
                    vv, s2 = self.ev(elt, s2)[0]
                    s = s2
                    s.env = dict(e)
                    items.append(vv)
                return [(Tup(items, True), s)]
            rng = self.iterspec(g[0].iter, s)
            if rng and rng[0][0][0] == "range":
                (k, lo, hi, step, par), s = rng[0]
                if step == 1 and lo is not None and hi is not None and isinstance(g[0].target, ast.Name):
                    j = self.fresh("c", True)
                    e = dict(s.env)
                    s2 = s.copy()
                    s2.add(sym(j) - lo, hi - 1 - sym(j))
                    s2.env[g[0].target.id] = Num(sym(j), isint=True)
                    vv, s2 = self.ev(elt, s2)[0]
                    d = vdeps(vv, s2)
                    d = dsub(d, {j: KL + lo})
                    bid = self.alloc(s, hi - lo, [Piece(None, None, d)] if d else [], node)
                    return [(Arr(bid, L(0), hi - lo), s)]
        s2 = st.copy()
        d = NOD
        for gg in g:
            it, s2 = self.ev(gg.iter, s2)[0]
            d = dunion(d, vdeps(it, s2))
        # bind unknowns and evaluate for effects on deps only
        for gg in g:
            for nm in ast.walk(gg.target):
                if isinstance(nm, ast.Name):
                    s2.env[nm.id] = Unk(d, "comp")
        rec, self.rec = self.rec, False
        try:
            v = self.ev(elt, s2)[0][0]
            d = dunion(d, vdeps(v, s2))
        finally:
            self.rec = rec
        bid = self.newbid()
        st.heap[bid] = ArrS(None, (Piece(None, None, d),) if d else (), None, kind="list", line=node.lineno, fn=self.fr.fn.name)
        return [(Lst(bid), st)]

    # ---- subscripts
    def ev_Subscript(self, node, st):
        out = []
        for b, s in self.ev(node.value, st):
            out.extend(self.subscript(b, node.slice, node, s))
        return out

    def slicebounds(self, sl, ln, st):
        """-> [( lo, hi, step, state )] ; lo/hi Lin or None(unknown)"""
        outs = []
        for (vs), s in self.evs([x for x in (sl.lower, sl.upper, sl.step) if x is not None], st):
            it = iter(vs)
            lo = next(it) if sl.lower is not None else None
            hi = next(it) if sl.upper is not None else None
            stp = next(it) if sl.step is not None else None
            lo = None if lo is NONE else lo
            hi = None if hi is NONE else hi
            step = 1
            if stp is not None and stp is not NONE:
                l = self.tolin(stp)
                step = l.const if l is not None and l.const is not None else None
            outs.append((lo, hi, step, s))
        return outs

    def clip_alts(self, v, ln, st, default):
        """position of a python slice bound; alternatives [(Lin|None, facts)] (negative bounds wrap)"""
        if v is None:
            return [(default, st)]
        l = self.tolin(v)
        if l is None:
            return [(None, st)]
        if prove(st.facts, l):
            return [(l, st)]
        if ln is not None and l.const is not None and l.const < 0:
            return [(ln + l, st)]
        if prove(st.facts, -l - 1):
            return [(ln + l if ln is not None else None, st)]
        a, b = st.copy(), st.copy()
        a.add(l)
        b.add(-l - 1)
        r = []
        if not a.dead():
            r.append((l, a))
        if not b.dead():
            r.append((ln + l if ln is not None else None, b))
        return r

    def subscript(self, b, sl, node, st):
        if isinstance(b, Maybe):
            b = b.val
        if isinstance(b, Tup) and b.items and isinstance(b.items[0], Str) and b.items[0].s in ("@iloc", "@loc", "@iat", "@at"):
            return self.pd.loc(b.items[0].s, b.items[1], sl, node, st) if self.pd else [(Unk(vdeps(b, st)), st)]
        if isinstance(b, Tup):
            if isinstance(sl, ast.Slice):
                def c(x):
                    if x is None:
                        return None
                    v = self.ev(x, st)[0][0]
                    l = self.tolin(v)
                    return l.const if l is not None else "?"
                lo, hi, sp = c(sl.lower), c(sl.upper), c(sl.step)
                if "?" not in (lo, hi, sp):
                    return [(Tup(b.items[lo:hi:sp], b.islist), st)]
                return [(Unk(vdeps(b, st)), st)]
            out = []
            for v, s in self.ev(sl, st):
                l = self.tolin(v)
                if l is not None and l.const is not None and -len(b.items) <= l.const < len(b.items):
                    out.append((b.items[l.const], s))
                else:
                    out.append((Unk(vdeps(b, s)), s))
            return out
        if isinstance(b, Df) or isinstance(b, Idx) or isinstance(b, Day):
            if self.pd:
                return self.pd.getitem(b, sl, node, st)
        if isinstance(b, Obj):
            h = st.heap.get(b.bid)
            out = []
            for v, s in self.ev(sl, st):
                if isinstance(v, Str) and isinstance(h, dict) and v.s in h:
                    out.append((h[v.s], s))
                else:
                    out.append((Unk(why="dictget"), s))
            return out
        if isinstance(b, Lst):
            return self.lst_get(b, sl, node, st)
        if not isinstance(b, Arr):
            out = []
            if isinstance(sl, ast.Slice):
                return [(Unk(vdeps(b, st)), st)]
            for v, s in self.ev(sl, st):
                out.append((Unk(dunion(vdeps(b, s), vdeps(v, s)), "sub"), s))
            return out
        A = st.heap[b.bid]
        if isinstance(sl, ast.Slice):
            return self.slice_view(b, sl, node, st)
        if isinstance(sl, ast.Tuple):
            d = proj_all(A, b, st)
            for e in sl.elts:
                if not isinstance(e, ast.Slice):
                    v, st = self.ev(e, st)[0]
            # first axis treated as the row axis
            e0 = sl.elts[0]
            v = Num(None)
            if not isinstance(e0, ast.Slice):
                v, st = self.ev(e0, st)[0]
                l = self.tolin(v)
                if l is not None:
                    self.access(b, l, l + 1, "r", node, st)
                    return [(Num(None, dunion(self.cell(b, l, st), v.deps)), st)]
            return [(Unk(d, "nd"), st)]
        out = []
        for v, s in self.ev(sl, st):
            if isinstance(v, Maybe):
                v = v.val
            if isinstance(v, Arr):
                # fancy / mask indexing
                vd = proj_all(s.heap[v.bid], v, s)
                ismask = s.heap[v.bid].dtype == "bool"
                iperm = s.heap[v.bid].kind
                if ismask:
                    # compressed copy: cells keep the row numbering of the source
                    ps = self.view_pieces(b, s) + self.view_pieces(v, s)
                    bid = self.alloc(s, b.ln, ps, node, kind="masked", dtype=s.heap[b.bid].dtype if s.heap[b.bid].dtype in ("int", "float") else None)
                    out.append((Arr(bid, L(0), None, 1, b.pd.w(index="filtered") if b.pd else None), s))
                    continue
                d = dunion(blur(s.heap[b.bid], b, s), blur(s.heap[v.bid], v, s))
                ln = v.ln
                bid = self.alloc(s, ln, [Piece(None, None, d)] if d else [], node)
                out.append((Arr(bid, L(0), ln, 1, b.pd), s))
                continue
            if isinstance(v, Str):
                out.append((Unk(vdeps(b, s)), s))
                continue
            l = self.tolin(v)
            out.extend(self.read(b, v, l, node, s))
        return out

    def slice_view(self, b, sl, node, st):
        outs = []
        if isinstance(st.heap[b.bid], ArrS) and st.heap[b.bid].kind == "masked" and (sl.lower or sl.upper or sl.step):
            A = st.heap[b.bid]
            d = frozenset(Dep(x.role, UNK, UNK, x.tags) for x in proj_all(A, b, st))
            bid = self.alloc(st, None, [Piece(None, None, d)] if d else [], node)
            return [(Arr(bid, L(0), None, 1, b.pd), st)]
        for lo, hi, step, s in self.slicebounds(sl, b.ln, st):
            if step == -1 and lo is None and hi is None:
                if b.ln is not None and b.step in (1, -1):
                    pd_ = b.pd
                    if pd_ is not None and pd_.roff is not None:
                        pd_ = pd_.w(roff=pd_.roff + (b.ln - 1) if not pd_.rev else pd_.roff - (b.ln - 1), rev=not pd_.rev)
                    outs.append((Arr(b.bid, b.off + (b.ln - 1) if b.step == 1 else b.off - (b.ln - 1), b.ln, -b.step, pd_), s))
                    continue
            if step != 1 or b.step != 1:
                d = proj_all(s.heap[b.bid], b, s)
                bid = self.alloc(s, None, [Piece(None, None, d)] if d else [], node)
                outs.append((Arr(bid, L(0), None, 1, b.pd), s))
                continue
            for l, s1 in self.clip_alts(lo, b.ln, s, L(0)):
                for h, s2 in self.clip_alts(hi, b.ln, s1, b.ln):
                    if l is None:
                        # unknown view
                        d = proj_all(s2.heap[b.bid], b, s2)
                        d = frozenset(Dep(x.role, UNK, UNK, x.tags) for x in d)
                        bid = self.alloc(s2, None, [Piece(None, None, d)] if d else [], node)
                        outs.append((Arr(bid, L(0), None, 1, b.pd), s2))
                        continue
                    hh = h
                    if hh is not None and b.ln is not None and hi is not None:
                        if not prove(s2.facts, b.ln - hh):
                            # clipped upper bound: two cases
                            s3 = s2.copy()
                            s3.add(hh - b.ln - 1)
                            s2 = s2.copy()
                            s2.add(b.ln - hh)
                            if not s3.dead():
                                outs.append(self.mkview(b, l, b.ln, s3))
                            if s2.dead():
                                continue
                    if hh is None:
                        hs = self.fresh("sh")
                        hh = sym(hs)
                        s2.add(hh - l)
                        if b.ln is not None:
                            s2.add(b.ln - hh)
                    outs.append(self.mkview(b, l, hh, s2))
        return outs

    def mkview(self, b, l, h, s):
        ln = h - l if h is not None else None
        if ln is not None and not prove(s.facts, ln):
            # possibly empty
            if prove(s.facts, -ln):
                ln = L(0)
        pd_ = b.pd
        if pd_ is not None:
            pd_ = pd_.w(roff=None if pd_.roff is None else (pd_.roff - l if pd_.rev else pd_.roff + l))
        return (Arr(b.bid, b.off + l, ln, 1, pd_), s)

    def read(self, b, v, l, node, st):
        A = st.heap[b.bid]
        vd = vdeps(v, st)
        if l is None:
            d = blur(A, b, st)
            return [(self.elemval(A, None, dunion(d, vd), st), st)]
        outs = []
        for pos, s in self.position(b, l, node, st, "r"):
            if pos is None:
                d = blur(A, b, s)
                outs.append((self.elemval(A, None, dunion(d, vd), s), s))
                continue
            self.access(b, pos, pos + 1, "r", node, s, absolute=True)
            d = self.cell_abs(A, pos, s)
            outs.append((self.elemval(A, pos, dunion(d, vd), s), s))
        return outs

    def position(self, b, l, node, st, rw):
        """bounds obligation for element access l of view b; returns absolute positions"""
        if b.off is None or b.step not in (1, -1):
            return [(None, st)]
        ln = b.ln
        A = st.heap[b.bid]
        neg_const = l.const is not None and l.const < 0
        if neg_const and ln is not None:
            l2 = ln + l
            if not prove(st.facts, l2):
                w = self.find_bad(st, [-l2 - 1])
                if w:
                    self.note("bounds", "bad", node, f"index {l} on an array of length {ln}: out of bounds for {fmtw(w)}", wit=w)
                else:
                    self.note("bounds", "unknown", node, f"index {l}, length {ln}")
            else:
                self.note("bounds", "ok", node, f"{l} within {ln}")
            return [((b.off + l2) if b.step == 1 else b.off - l2, st)]
        status = "ok"
        msg = f"{l} within 0..{ln}"
        wit = None
        if not prove(st.facts, l):
            w = self.find_bad(st, [-l - 1])
            if w:
                status, wit = "bad", w
                msg = f"index {l} can be negative ({fmtw(w)}): wraps to the end of the array"
            else:
                status = "unknown"
                msg = f"lower bound of {l} not established"
        if ln is not None:
            if not prove(st.facts, ln - 1 - l):
                w = self.find_bad(st, [l - ln])
                if w:
                    status, wit = "bad", w
                    msg = f"index {l} can reach length {ln} ({fmtw(w)}): out of bounds"
                elif status == "ok":
                    status = "unknown"
                    msg = f"upper bound of {l} against {ln} not established"
        elif status == "ok":
            status = "unknown"
            msg = "length not tracked"
        self.note("bounds", status, node, msg, wit=wit)
        st2 = st
        if status != "ok":
            # continue under the assumption that the access is legal
            st2 = st.copy()
            st2.add(l)
            if ln is not None:
                st2.add(ln - 1 - l)
            if st2.dead():
                st2 = st
        return [(b.off + l if b.step == 1 else b.off - l, st2)]

    def cell(self, b, l, st):
        A = st.heap[b.bid]
        if b.off is None or b.step not in (1, -1):
            return proj_all(A, b, st)
        return self.cell_abs(A, b.off + l if b.step == 1 else b.off - l, st)

    def cell_abs(self, A, pos, st):
        out = []
        if A.kind == "masked":
            return dunion(*[dproj(p.deps, K, p.klo if p.klo is not None else L(0), p.khi if p.khi is not None else (A.ln - 1 if isinstance(A.ln, Lin) else None)) for p in A.pieces])
        for p in A.pieces:
            if p.klo is not None and prove(st.facts, p.klo - pos - 1):
                continue
            if p.khi is not None and prove(st.facts, pos - p.khi - 1):
                continue
            ds = p.deps
            if p.klo is not None:
                # a fixed row bound at or before the first cell of the piece also bounds relative to the cell read
                r = set()
                for d in ds:
                    if isinstance(d.hi, Lin) and K not in d.hi.syms():
                        c = (d.hi - p.klo).const
                        if c is not None and (c <= 0 or p.klo == p.khi) and not (pos - p.klo).const == 0:
                            d = Dep(d.role, d.lo, KL + c, d.tags)
                    r.add(d)
                ds = frozenset(r)
            out.append(dsub(ds, {K: pos}))
        return dunion(*out)

    def elemval(self, A, pos, deps, st):
        if A.kind == "list" or A.kind == "arrlist":
            return Unk(deps, "listelem")
        if A.role is not None and A.dtype == "index":
            if pos is not None:
                key = ("elem", A.role, pos)
                new = key not in self.idxsym
                if new:
                    self.idxsym[key] = self.fresh("elem_" + A.role, True)
                s = sym(self.idxsym[key])
                lo, hi = A.fill
                if A.mono == "first" and prove(st.facts, pos - 1):
                    lo = L(0)       # only the very first boundary may lie before the first row
                st.add(s - lo, hi - s)
                if A.mono:
                    for k2, s2 in list(self.idxsym.items()):
                        if k2[0] == "elem" and k2[1] == A.role and k2 != key:
                            df = (pos - k2[2]).const
                            if df is not None and df > 0:
                                st.add(s - sym(s2))
                            elif df is not None and df < 0:
                                st.add(sym(s2) - s)
                return Num(s, deps, True)
            return Num(None, deps, True)
        if A.role is not None and A.dtype == "time":
            return Num(None, deps, None, time=(pos, "zero") if pos is not None else None)
        return Num(None, deps, True if A.dtype == "int" else (False if A.dtype in ("float", "bool") else None))

    # ---- race accounting
    def access(self, b, lo, hi, rw, node, st, absolute=False):
        if not self.rec or not self.prs:
            return
        A = st.heap[b.bid]
        for pr in self.prs:
            if b.bid not in pr.known:
                continue
            if A.param and rw == "r" and A.alias is None and b.bid not in pr.written and False:
                continue
            if not absolute:
                if b.off is None or lo is None:
                    lo2 = hi2 = None
                else:
                    lo2, hi2 = b.off + lo, b.off + hi
            else:
                lo2, hi2 = lo, hi
            pr.acc.append((b.bid, lo2, hi2, rw, st.facts, node, bool(st.opaque), self.fr.fn.name, A.line))

    def check_races(self, pr):
        by = {}
        for a in pr.acc:
            by.setdefault(a[0], []).append(a)
        for bid, acc in by.items():
            writes = [a for a in acc if a[3] == "w"]
            if not writes:
                continue
            seen = set()
            uniq = []
            for a in acc:
                k = (a[1], a[2], a[3], frozenset(a[4]), getattr(a[5], "lineno", 0))
                if k in seen:
                    continue
                seen.add(k)
                uniq.append(a)
            wr = [a for a in uniq if a[3] == "w"]
            for w in wr:
                res = "ok"
                msg = "distinct iterations write distinct cells"
                wit = None
                for o in uniq:
                    r, m, ww = self.pair(pr, w, o)
                    if r == "bad":
                        res, msg, wit = r, m, ww
                        break
                    if r == "unknown" and res == "ok":
                        res, msg = r, m
                self.note("race", res, w[5], msg, wit=wit)

    def pair(self, pr, w, o):
        if w[1] is None or o[1] is None:
            return "unknown", "cell not tracked", None

        def local(s):
            return s == pr.ivar or ("#" in s and int(s.rsplit("#", 1)[1]) > pr.symno)
        syms = set()
        for l in (o[1], o[2]) + tuple(o[4]):
            if l is not None:
                syms |= set(l.syms())
        m = {s: sym(s + "'") for s in syms if local(s)}
        i, i2 = sym(pr.ivar), sym(pr.ivar + "'")
        m[pr.ivar] = i2
        ofacts = tuple(f.sub(m) for f in o[4])
        lo2, hi2 = o[1].sub(m), o[2].sub(m)
        facts = tuple(w[4]) + ofacts
        # overlap: w.lo < o.hi and o.lo < w.hi
        ov = [hi2 - w[1] - 1, w[2] - lo2 - 1, w[2] - w[1] - 1, hi2 - lo2 - 1]
        for order in ([i2 - i - 1], [i - i2 - 1]):
            cs = ov + order
            if infeasible(facts, cs):
                continue
            if w[6] or o[6]:
                return "unknown", "guard not tracked", None
            wt = witness(facts, cs)
            if wt is None:
                return "unknown", "overlap not decided", None
            for s in wt:
                b = s.rstrip("'")
                if "#" in b and b not in self.free:
                    return "unknown", f"depends on untracked {b}", None
            what = "write" if o[3] == "w" else "read"
            return "bad", (f"iterations of the parallel loop at line {pr.node.lineno} touch the same cell: write "
                           f"[{w[1]}:{w[2]}) vs {what} [{o[1]}:{o[2]}) at line {getattr(o[5], 'lineno', 0)} ({fmtw(wt)})"), wt
        return "ok", "", None

    # ---- writes
    def write(self, b, l, v, node, st, aug=False):
        """element write b[l] = v; returns states"""
        A = st.heap[b.bid]
        d = dunion(vdeps(v, st), st.ctl)
        if l is None or b.off is None or b.step not in (1, -1):
            s = st
            d = frozenset(Dep(x.role, x.lo, x.hi, x.tags) for x in d)
            self.setheap(s, b.bid, A.w(pieces=merge_pieces(A.pieces + (Piece(None, None, d),)), mayunk=True))
            self.access(Arr(b.bid, None, None), None, None, "w", node, s)
            return [s]
        outs = []
        for pos, s in self.position(b, l, node, st, "w"):
            if s is st:
                s = s.copy()
            A = s.heap[b.bid]
            self.access(b, pos, pos + 1, "w", node, s, absolute=True)
            if s.guards:
                old = self.cell_abs(A, pos, s)
                d2 = frozenset(x if x in old else Dep(x.role, x.lo, x.hi, x.tags | s.guards) for x in d)
            else:
                d2 = d
            self.hook_write(b, A, pos, v, d2, node, s)
            pc = self.mkpiece(pos, pos, d2, s)
            evt = A.evt
            if isinstance(v, Num) and v.lin is not None and v.isint:
                evt = evt + ((v.lin, d),)
                evt = tuple(dict.fromkeys(evt))[-12:]
            nl = isinstance(v, Num) and v.const in ("nan",) and v.const is not None
            A2 = A.w(pieces=merge_pieces(A.pieces + ((pc,) if d2 else ())), evt=evt)
            if A.cover is not None:
                A2.cover = A.cover + ((pos, pos + 1),) if (pos, pos + 1) not in A.cover else A.cover
            self.setheap(s, b.bid, A2)
            outs.append(s)
        return outs

    def mkpiece(self, klo, khi, d, st):
        """cells klo..khi(inclusive) get deps d (already expressed with loop symbols); convert to @k when pointwise"""
        if klo == khi and klo.k:
            # choose a loop symbol to invert
            for s_, c in klo.k:
                if s_.startswith("i#") or s_.startswith("w#") or s_.startswith("c#"):
                    if c in (1, -1):
                        rest = klo - Lin(((s_, c),), 0)
                        inv = (KL - rest).scale(c)
                        d = dsub(d, {s_: inv})
                        break
        return Piece(klo, khi, d)

    def setheap(self, st, bid, A):
        st.heap[bid] = A

    def hook_write(self, b, A, pos, v, d, node, st):
        if getattr(self, "on_write", None) and self.rec:
            self.on_write(b, A, pos, v, d, node, st)

    def write_slice(self, b, sl, v, node, st):
        outs = []
        if isinstance(sl, ast.Tuple):
            A = st.heap[b.bid]
            e0 = sl.elts[0]
            d = dunion(vdeps(v, st), st.ctl)
            if not isinstance(e0, ast.Slice):
                iv, st = self.ev(e0, st)[0]
                l = self.tolin(iv)
                for e in sl.elts[1:]:
                    if not isinstance(e, ast.Slice):
                        _, st = self.ev(e, st)[0]
                if l is not None and b.off is not None:
                    self.access(b, l, l + 1, "w", node, st)
                    pc = self.mkpiece(b.off + l, b.off + l, d, st)
                    self.setheap(st, b.bid, A.w(pieces=merge_pieces(A.pieces + (pc,)), mayunk=True))
                    return [st]
            self.setheap(st, b.bid, A.w(pieces=merge_pieces(A.pieces + (Piece(None, None, d),)), mayunk=True))
            self.access(Arr(b.bid, None, None), None, None, "w", node, st)
            return [st]
        for bv, s in self.slice_view(b, sl, node, st):
            A = s.heap[b.bid]
            lo = bv.off
            hi = bv.off + bv.ln if (bv.bid == b.bid and bv.ln is not None) else None
            if bv.bid != b.bid:
                d = dunion(vdeps(v, s), s.ctl)
                self.setheap(s, b.bid, A.w(pieces=merge_pieces(A.pieces + (Piece(None, None, d),)), mayunk=True))
                self.access(Arr(b.bid, None, None), None, None, "w", node, s)
                outs.append(s)
                continue
            s = s.copy()
            new = []
            if isinstance(v, Arr):
                for p in self.view_pieces(v, s):
                    new.append(Piece(lo + p.klo if p.klo is not None else lo, lo + p.khi if p.khi is not None else (hi - 1 if hi is not None else None),
                                     dunion(dsub(p.deps, {K: KL - lo}), s.ctl)))
            else:
                d = dunion(vdeps(v, s), s.ctl)
                if d:
                    new.append(Piece(lo, hi - 1 if hi is not None else None, d))
            self.access(b, lo, hi, "w", node, s, absolute=True)
            A2 = A.w(pieces=merge_pieces(A.pieces + tuple(new)))
            if A.cover is not None:
                if hi is not None:
                    A2.cover = A.cover + ((lo, hi),)
                else:
                    A2.mayunk = True
            # unclipped upper bound is fine for coverage
            self.setheap(s, b.bid, A2)
            outs.append(s)
        return outs

    # ---- lists
    def lst_get(self, b, sl, node, st):
        A = st.heap[b.bid]
        d = dunion(*[p.deps for p in A.pieces])
        if isinstance(sl, ast.Slice):
            return [(Unk(d, "lslice"), st)]
        outs = []
        for v, s in self.ev(sl, st):
            l = self.tolin(v)
            dd = dunion(d, vdeps(v, s))
            if l is not None and A.ln is not None:
                if l.const is not None and l.const < 0:
                    outs.append((self.lstelem(A, dd), s))
                    continue
                for pos, s2 in self.position(Arr(b.bid, L(0), A.ln), l, node, s, "r"):
                    outs.append((self.lstelem(A, dd), s2))
            else:
                outs.append((self.lstelem(A, dd), s))
        return outs

    def lstelem(self, A, d):
        if A.kind == "listof":
            return A.fill
        return Num(None, d) if A.dtype == "num" else Unk(d, "lstelem")

    def append(self, b, v, node, st):
        A = st.heap[b.bid]
        d = dunion(vdeps(v, st), st.ctl)
        for pr in (self.prs if self.rec else []):
            if b.bid in pr.known:
                self.note("race", "bad", node, f"list append inside the parallel loop at line {pr.node.lineno}: order depends on the schedule")
        evt = A.evt
        if isinstance(v, Num) and v.lin is not None:
            evt = tuple(dict.fromkeys(evt + ((v.lin, d),)))[-12:]
        self.hook_append(b, A, v, d, node, st)
        num = isinstance(v, Num)
        self.setheap(st, b.bid, A.w(ln=A.ln + 1 if A.ln is not None else None, pieces=merge_pieces(A.pieces + (Piece(None, None, d),)),
                                     evt=evt, dtype="num" if num and A.dtype in (None, "num") else "obj"))

    def hook_append(self, b, A, v, d, node, st):
        if getattr(self, "on_append", None) and self.rec:
            self.on_append(b, A, v, d, node, st)


def fmtw(w):
    return ", ".join(f"{k.split('#')[0] if '#' in k else k}={v}" for k, v in sorted(w.items()))

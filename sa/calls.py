"""Call handling for the abstract interpreter: builtins, numpy, methods, inlining."""
from __future__ import annotations
import ast
from .lin import Lin, L, sym, prove, infeasible
from .vals import *
from .interp import *
from .interp import Interp as _Base


class Calls(_Base):

    def ev_Call(self, node, st):
        f = node.func
        if isinstance(f, ast.Name) and f.id == "super" and not node.args:
            me = st.env.get("self")
            cls = getattr(self.fr.fn, "_cls", None)
            if isinstance(me, Obj) and cls is not None:
                return [(Tup([Str("@super"), me, Cls(cls)]), st)]
        out = []
        for fv, s in self.ev(f, st):
            star = [a for a in node.args if isinstance(a, ast.Starred)]
            for vs, s2 in self.evs([a for a in node.args] + [k.value for k in node.keywords], s):
                args = []
                for a, v in zip(node.args, vs):
                    if isinstance(a, ast.Starred):
                        if isinstance(v, Tup):
                            args.extend(v.items)
                        else:
                            args.append(Unk(vdeps(v, s2), "star"))
                    else:
                        args.append(v)
                kw = {}
                for k, v in zip(node.keywords, vs[len(node.args):]):
                    if k.arg is None:
                        kw["**"] = v
                    else:
                        kw[k.arg] = v
                out.extend(self.call(fv, args, kw, node, s2))
        return out

    def call(self, f, args, kw, node, st):
        if isinstance(f, Maybe):
            f = f.val
        args = [self.unmaybe(a, st) for a in args]
        kw = {k: self.unmaybe(v, st) for k, v in kw.items()}
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, node, st)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node, st)
        if isinstance(f, Obj) and f.cls is not None:
            m = self.repo.method(f.cls, "__call__")
            if m is not None:
                return self.call_fn(Fn(m, f), args, kw, node, st)
        if isinstance(f, Tup) and f.items and isinstance(f.items[0], Str):
            tag = f.items[0].s
            if tag == "@m":
                return self.method_call(f.items[1], f.items[2].s, args, kw, node, st)
        if isinstance(f, Mod):
            n = f.name
            if n.startswith("builtins."):
                return self.builtin(n[9:], args, kw, node, st)
            if n.startswith("numpy."):
                return self.numpy(n[6:], args, kw, node, st)
            if n.startswith("math."):
                return self.numpy(n[5:], args, kw, node, st)
            if n.endswith("typed.List") or n.endswith("NumbaList"):
                if not args:
                    bid = self.newbid()
                    st.heap[bid] = ArrS(L(0), (), None, kind="list", line=node.lineno, fn=self.fr.fn.name)
                    return [(Lst(bid), st)]
                return [(args[0], st)]
            if self.pd is not None:
                r = self.pd.modcall(n, args, kw, node, st)
                if r is not None:
                    return r
        d = dunion(*[vdeps(a, st) for a in args], *[vdeps(v, st) for v in kw.values()], vdeps(f, st) if isinstance(f, Unk) else NOD)
        return [(Unk(d, "call " + ast.unparse(node.func)[:30]), st)]

    def unmaybe(self, a, st):
        if isinstance(a, Maybe):
            dd = st.decided.get(("none", a.key))
            if dd is True:
                return NONE
            if dd is False:
                return a.val
        return a

    # ---------------------------------------------------------------- inlining
    def call_fn(self, f, args, kw, node, st):
        fn = f.node
        if isinstance(fn, ast.Lambda):
            env = dict(st.env)
            s = st.copy()
            s.env = dict(f.env or {})
            for p, a in zip(fn.args.args, args):
                s.env[p.arg] = a
            out = []
            for v, s2 in self.ev(fn.body, s):
                s2.env = dict(env)
                out.append((v, s2))
            return out
        if f.self_ is not None:
            args = [f.self_] + list(args)
        if len(self.stack) > INLINE_DEPTH or sum(1 for x in self.stack if x.fn is fn) > 1:
            d = dunion(*[vdeps(a, st) for a in args], *[vdeps(v, st) for v in kw.values()])
            return [(Unk(d, "depth"), st)]
        self.calls.add((self.fr.fn.name, fn.name))
        if self.trace_calls is not None and self.rec:
            self.trace_calls.append((self.fr, fn, list(args), dict(kw), node, st))
        env = {}
        a = fn.args
        params = [p.arg for p in a.posonlyargs + a.args]
        defaults = a.defaults
        for p, v in zip(params, args):
            env[p] = v
        if len(args) > len(params):
            if a.vararg:
                env[a.vararg.arg] = Tup(args[len(params):])
        elif a.vararg:
            env[a.vararg.arg] = Tup([])
        for k, v in kw.items():
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
        for p, dflt in zip(params[len(params) - len(defaults):], defaults):
            if p not in env:
                env[p] = self.default(dflt, fn)
        for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                env[p.arg] = self.default(dflt, fn) if dflt is not None else Unk(why="kwonly")
        for p in params:
            if p not in env:
                env[p] = Unk(why="missing arg")
        if a.kwarg:
            env[a.kwarg.arg] = Unk(why="kwargs")
        if f.env:
            env = {**f.env, **env}
        return self.run_fn(fn, env, st)

    def default(self, node, fn):
        self.stack.append(Frame(fn, fn._mod, False))
        try:
            return self.ev(node, State())[0][0]
        finally:
            self.stack.pop()

    def run_fn(self, fn, env, st):
        caller_env = st.env
        s = st.copy()
        s.env = env
        ctl0, g0 = st.ctl, st.guards
        fr = Frame(fn, fn._mod, is_parallel(fn))
        self.stack.append(fr)
        try:
            ends = self.block(docless(fn.body), [s])
            for e in ends:
                fr.returns.append((NONE, e))
        finally:
            self.stack.pop()
        out = []
        for v, s2 in fr.returns:
            s2.env = dict(caller_env)
            # control dependence of early returns belongs to the value
            extra = s2.ctl - ctl0
            if extra:
                v = self.adddeps(v, frozenset(extra), s2)
            s2.ctl = ctl0
            s2.guards = g0
            out.append((v, s2))
        if len(out) > 4:
            out = self.collapse_rets(out)
        return out

    def adddeps(self, v, d, st):
        if isinstance(v, Num):
            return v.w(deps=dunion(v.deps, d))
        if isinstance(v, Unk):
            return Unk(dunion(v.deps, d), v.why)
        if isinstance(v, Tup):
            return Tup([self.adddeps(x, d, st) for x in v.items], v.islist)
        if isinstance(v, Arr):
            A = st.heap[v.bid]
            if not isinstance(A, dict):
                bid = self.newbid()
                st.heap[bid] = A.w(pieces=merge_pieces(A.pieces + (Piece(None, None, d),)), param=False)
                return Arr(bid, v.off, v.ln, v.step, v.pd)
        return v

    def collapse_rets(self, out):
        groups = []
        for v, s in out:
            for g in groups:
                if self.joinable(g[0], v, g[1], s):
                    nv = self.joinv(g[0], v, g[1], s)
                    g[1] = self.join2(g[1], s)
                    g[0] = nv
                    break
            else:
                groups.append([v, s])
        while len(groups) > 6:
            v, s = groups.pop()
            g = groups[-1]
            nv = self.joinv(g[0], v, g[1], s)
            g[1] = self.join2(g[1], s)
            g[0] = nv
        return [(g[0], g[1]) for g in groups]

    def joinable(self, a, b, sa, sb):
        if type(a) is not type(b):
            return False
        if isinstance(a, Num):
            return a.lin == b.lin
        if isinstance(a, Arr):
            return a.same(b)
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(self.joinable(x, y, sa, sb) for x, y in zip(a.items, b.items))
        return True

    # ---------------------------------------------------------------- classes
    def instantiate(self, c, args, kw, node, st):
        cls = c.node
        bid = self.newbid()
        st.heap[bid] = {}
        o = Obj(cls, bid)
        init = self.repo.method(cls, "__init__")
        if init is not None:
            if len(self.stack) > INLINE_DEPTH:
                return [(o, st)]
            return [(o, s) for _, s in self.call_fn(Fn(init, o), args, kw, node, st)]
        return [(o, st)]

    # ---------------------------------------------------------------- builtins
    def builtin(self, n, args, kw, node, st):
        a = args[0] if args else None
        if n == "len":
            if isinstance(a, Arr):
                return [(Num(a.ln, isint=True, deps=NOD), st)]
            if isinstance(a, Lst):
                A = st.heap[a.bid]
                return [(Num(A.ln, isint=True, deps=st.ctl if False else NOD), st)]
            if isinstance(a, Tup):
                return [(Num(L(len(a.items)), isint=True), st)]
            if isinstance(a, (Df, Idx)) and self.pd:
                return [(Num(self.pd.length(a), isint=True), st)]
            return [(Num(sym(self.fresh("len")), isint=True, deps=vdeps(a, st) if a is not None else NOD), st)]
        if n in ("min", "max"):
            if len(args) == 2 and all(isinstance(x, Num) for x in args):
                return self.minmax(n, args, node, st)
            if len(args) == 1 and isinstance(a, Arr):
                return [(Num(None, proj_all(st.heap[a.bid], a, st)), st)]
            d = dunion(*[vdeps(x, st) for x in args])
            return [(Num(None, d), st)]
        if n in ("int",):
            if isinstance(a, Num):
                return [(Num(a.lin, a.deps, True, const=int(a.const) if isinstance(a.const, (int, float)) else None, x=a.x, time=a.time), st)]
            return [(Num(None, vdeps(a, st) if a is not None else NOD, True), st)]
        if n in ("float", "abs", "round"):
            if isinstance(a, Arr):
                return [(self.elementwise([a], st, node), st)]
            if isinstance(a, Num):
                lin = a.lin if n == "float" else (a.lin if n == "abs" and a.lin is not None and prove(st.facts, a.lin) else None)
                return [(Num(lin, a.deps, False if n == "float" else a.isint, const=a.const if n == "float" else None, x=a.x), st)]
            return [(Num(None, vdeps(a, st) if a is not None else NOD), st)]
        if n == "bool":
            return [(Num(None, vdeps(a, st)), st)]
        if n == "sum":
            return [(Num(None, dunion(*[vdeps(x, st) for x in args])), st)]
        if n in ("sorted", "list", "tuple", "reversed", "set"):
            if isinstance(a, (Tup, Arr, Lst)) and n in ("list", "tuple"):
                return [(a, st)]
            if isinstance(a, Tup) and n == "reversed":
                return [(Tup(a.items[::-1], True), st)]
            if a is None:
                bid = self.newbid()
                st.heap[bid] = ArrS(L(0), (), None, kind="list", line=node.lineno, fn=self.fr.fn.name)
                return [(Lst(bid), st)]
            return [(Unk(vdeps(a, st), n), st)]
        if n == "isinstance":
            return [(self.isinstance_(a, node, st), st)]
        if n in ("hasattr", "callable"):
            return [(Unk(why=n), st)]
        if n == "getattr" and len(args) >= 2 and isinstance(args[1], Str) and args[1].s:
            return self.attr(a, args[1].s, node, st)
        if n == "print":
            return [(NONE, st)]
        if n == "str":
            return [(a if isinstance(a, Str) else Str(None), st)]
        if n == "type":
            return [(Unk(why="type"), st)]
        if n in ("any", "all"):
            return [(Num(None, dunion(*[vdeps(x, st) for x in args])), st)]
        if n == "zip":
            if all(isinstance(x, Tup) for x in args):
                return [(Tup([Tup(list(t)) for t in zip(*[x.items for x in args])], True), st)]
        if n == "enumerate" and isinstance(a, Tup):
            return [(Tup([Tup([Num(L(i), isint=True), v]) for i, v in enumerate(a.items)], True), st)]
        if n == "range":
            lins = [self.tolin(x) for x in args]
            if len(lins) == 1 and lins[0] is not None and lins[0].const is not None and lins[0].const <= 32:
                return [(Tup([Num(L(i), isint=True) for i in range(lins[0].const)], True), st)]
        d = dunion(*[vdeps(x, st) for x in args])
        return [(Unk(d, n), st)]

    def isinstance_(self, a, node, st):
        t = ast.unparse(node.args[1]) if len(node.args) > 1 else ""
        yes = no = False
        def T(*names):
            return any(x in t for x in names)
        if isinstance(a, Str):
            yes = T("str")
            no = not yes
        elif isinstance(a, Tup) and not (a.items and isinstance(a.items[0], Str) and a.items[0].s and a.items[0].s.startswith("@")):
            yes = T("list", "Sequence") if a.islist else T("tuple", "Sequence")
            no = not yes
        elif isinstance(a, Df):
            yes = T("DataFrame")
            no = not yes
        elif isinstance(a, Idx):
            yes = T("DatetimeIndex")
        elif isinstance(a, Arr):
            if a.pd:
                yes = T("Series")
            else:
                yes = T("ndarray")
            no = not yes
        elif a is NONE:
            no = True
        elif isinstance(a, Obj) and a.cls is not None:
            ts = [t.strip() for t in t.strip("()").split(",") if t.strip()]
            mro = {c.name for c in self.repo.mro(a.cls)}
            yes = any(x.split(".")[-1] in mro for x in ts)
            no = not yes
        elif isinstance(a, Num) and (a.isint is not None or a.lin is not None or a.const is not None):
            if T("int", "float", "Number", "Real"):
                yes = T("float") and T("int") or (a.isint is True and T("int")) or (a.isint is False and T("float"))
                no = not yes
            elif "[" not in t:
                no = True
        if yes or no:
            return Num(const=yes, isint=False, cond=((yes, (), False, (), None),))
        return Unk(why="isinstance")

    def minmax(self, n, args, node, st):
        a, b = args
        d = dunion(a.deps, b.deps)
        la, lb = a.lin, b.lin
        if la is None or lb is None:
            c = None
            return [(Num(None, d, None), st)]
        if prove(st.facts, la - lb):
            return [((a if n == "max" else b).w(deps=d), st)]
        if prove(st.facts, lb - la):
            return [((b if n == "max" else a).w(deps=d), st)]
        if d:
            # data-valued: bounded symbol, no fork
            s = self.fresh("mm", True)
            if n == "max":
                st.add(sym(s) - la, sym(s) - lb)
            else:
                st.add(la - sym(s), lb - sym(s))
            self.free.discard(s)
            self.nonfree.add(s)
            return [(Num(sym(s), d, True), st)]
        s1, s2 = st.copy(), st
        s1.add(la - lb)
        s2.add(lb - la - 1)
        return [((a if n == "max" else b), s1), ((b if n == "max" else a), s2)]

    # ---------------------------------------------------------------- numpy
    def numpy(self, n, args, kw, node, st):
        a = args[0] if args else kw.get("a", kw.get("arr"))
        base = n.split(".")[-1]
        dt = self.dtype(kw.get("dtype", args[1] if base in ("zeros", "ones", "empty") and len(args) > 1 else None), node)
        if base in ALLOC:
            ln = None
            shp = a if a is not None else kw.get("shape")
            if isinstance(shp, Num):
                ln = shp.lin
            elif isinstance(shp, Tup) and shp.items and isinstance(shp.items[0], Num):
                ln = shp.items[0].lin if len(shp.items) == 1 else None
                if ln is None and len(shp.items) > 1:
                    ln = shp.items[0].lin
            fillv = args[1] if base == "full" and len(args) > 1 else kw.get("fill_value")
            d = vdeps(fillv, st) if fillv is not None else NOD
            bid = self.alloc(st, ln, [Piece(None, None, d)] if d else [], node, cover=() if base == "empty" else None, dtype=dt)
            return [(Arr(bid, L(0), ln), st)]
        if base in LIKE:
            ln = a.ln if isinstance(a, Arr) else None
            bid = self.alloc(st, ln, [], node, cover=() if base == "empty_like" else None, dtype=dt)
            return [(Arr(bid, L(0), ln), st)]
        if base == "arange":
            r = [self.tolin(x) for x in args]
            ln = None
            if len(r) == 1 and r[0] is not None:
                ln = r[0]
            elif len(r) == 2 and None not in r:
                ln = r[1] - r[0]
            d = dunion(*[vdeps(x, st) for x in args])
            if ln is None:
                s = self.fresh("arange", True)
                ln = sym(s)
                st.add(ln - 1)      # documented use: at least one element
                self.free.discard(s)
                self.nonfree.add(s)
            bid = self.alloc(st, ln, [Piece(None, None, d)] if d else [], node)
            return [(Arr(bid, L(0), ln), st)]
        if base == "searchsorted":
            return self.searchsorted(args, kw, node, st)
        if base in COPYLIKE and isinstance(a, Arr):
            return [(self.elementwise([a], st, node), st)] if base not in ("asarray", "ascontiguousarray", "atleast_1d", "ravel", "squeeze") else [(self.aliasview(a, st), st)]
        if base in COPYLIKE and isinstance(a, Lst):
            A = st.heap[a.bid]
            d = dunion(*[p.deps for p in A.pieces])
            bid = self.alloc(st, A.ln, [Piece(None, None, d)] if d else [], node)
            st.heap[bid] = st.heap[bid].w(evt=A.evt)
            return [(Arr(bid, L(0), A.ln), st)]
        if base in ("array", "asarray") and isinstance(a, Tup):
            d = vdeps(a, st)
            bid = self.alloc(st, L(len(a.items)), [Piece(None, None, d)] if d else [], node)
            return [(Arr(bid, L(0), L(len(a.items))), st)]
        if base in CUM and isinstance(a, Arr):
            return [(self.cumulative(a, st, node), st)]
        if base == "diff" and isinstance(a, Arr):
            if kw or len(args) > 1:
                d = blur(st.heap[a.bid], a, st)
                bid = self.alloc(st, None, [Piece(None, None, d)], node)
                return [(Arr(bid, L(0), None), st)]
            ps = self.view_pieces(a, st)
            ps2 = [Piece(p.klo - 1 if p.klo is not None else None, p.khi - 1 if p.khi is not None else None, dsub(p.deps, {K: KL + 1})) for p in ps]
            ps1 = [Piece(p.klo, p.khi, p.deps) for p in ps]
            ln = a.ln - 1 if a.ln is not None else None
            bid = self.alloc(st, ln, ps1 + ps2, node)
            return [(Arr(bid, L(0), ln), st)]
        if base == "roll" and isinstance(a, Arr):
            sh = self.tolin(args[1]) if len(args) > 1 else None
            ps = self.view_pieces(a, st)
            out = []
            for p in ps:
                if sh is None:
                    out.append(Piece(None, None, frozenset(Dep(x.role, UNK, UNK, x.tags) for x in p.deps)))
                else:
                    out.append(Piece(sh, None, dsub(p.deps, {K: KL - sh})) if prove(st.facts, sh) else Piece(None, None, dsub(p.deps, {K: KL - sh})))
            bid = self.alloc(st, a.ln, out, node)
            return [(Arr(bid, L(0), a.ln), st)]
        if base in ("flip", "flipud") and isinstance(a, Arr) and a.ln is not None:
            return [(Arr(a.bid, a.off + (a.ln - 1), a.ln, -1), st)] if a.step == 1 else [(Arr(a.bid, a.off - (a.ln - 1), a.ln, 1), st)]
        if base in REDUCE and isinstance(a, (Arr, Lst, Tup)):
            d = dunion(vdeps(a, st), *[vdeps(x, st) for x in args[1:]])
            if base in FULLMIX:
                ln = a.ln if isinstance(a, Arr) and base in ("sort", "argsort", "digitize") else None
                bid = self.alloc(st, ln, [Piece(None, None, d)] if d else [], node)
                if base == "polyfit":
                    return [(Unk(d, "polyfit"), st)]
                return [(Arr(bid, L(0), ln), st)]
            if base in ("argmax", "argmin") and isinstance(a, Arr) and a.ln is not None:
                s = self.fresh("arg", True)
                st.add(sym(s), a.ln - 1 - sym(s))
                return [(Num(sym(s), d, True), st)]
            if isinstance(kw.get("axis"), Num) and isinstance(a, Arr) and self.tolin(kw["axis"]) is not None and self.tolin(kw["axis"]).const == 1:
                return [(Unk(d, "axis1"), st)]
            return [(Num(None, d, None), st)]
        if base in ("concatenate", "append", "hstack", "concat", "vstack", "stack", "column_stack"):
            items = a.items if isinstance(a, Tup) else args
            if base == "append":
                items = args
            off = L(0)
            ps = []
            for it in items:
                if isinstance(it, Arr) and off is not None:
                    for p in self.view_pieces(it, st):
                        hi = off + it.ln - 1 if it.ln is not None else None
                        ps.append(Piece(off + p.klo if p.klo is not None else off, off + p.khi if p.khi is not None else hi, dsub(p.deps, {K: KL - off})))
                    off = off + it.ln if it.ln is not None else None
                elif isinstance(it, Tup) and off is not None:
                    d = vdeps(it, st)
                    if d:
                        ps.append(Piece(off, off + len(it.items) - 1, d))
                    off = off + len(it.items)
                else:
                    d = vdeps(it, st)
                    if d:
                        ps.append(Piece(None, None, frozenset(Dep(x.role, UNK, UNK, x.tags) for x in d)))
                    off = None
            bid = self.alloc(st, off, ps, node)
            return [(Arr(bid, L(0), off), st)]
        if base == "sliding_window_view" and isinstance(a, Arr):
            w = self.tolin(args[1]) if len(args) > 1 else None
            if w is not None and a.ln is not None:
                ps = []
                for p in self.view_pieces(a, st):
                    ps.append(Piece(None, None, dunion(p.deps, dsub(p.deps, {K: KL + w - 1}))))
                ln = a.ln - w + 1
                bid = self.alloc(st, ln, ps, node)
                return [(Arr(bid, L(0), ln), st)]
        if base in ELEMENTWISE or (base in COPYLIKE):
            if any(isinstance(x, Arr) for x in args):
                d = dt
                if base in ("isnan", "isfinite", "isinf", "logical_not", "logical_and", "logical_or", "greater", "less", "isclose", "equal"):
                    d = "bool"
                return [(self.elementwise(args, st, node, d), st)]
            v = a
            if isinstance(v, Num):
                if base in ("int64", "int32", "float64", "float32", "int8", "abs"):
                    return [(Num(v.lin if base != "abs" or (v.lin is not None and prove(st.facts, v.lin)) else None, dunion(*[vdeps(x, st) for x in args]), v.isint, x=v.x, time=v.time,
                                 const=v.const if base != "abs" else None), st)]
                if base in ("maximum", "minimum") and len(args) == 2 and all(isinstance(x, Num) for x in args):
                    return self.minmax("max" if base == "maximum" else "min", args, node, st)
                x = (base, v.x) if v.x else None
                return [(Num(None, dunion(*[vdeps(x, st) for x in args]), None, x=x), st)]
        if base in ("random", "rand", "randn", "default_rng", "normal", "uniform"):
            return [(Unk(frozenset([Dep("*random", UNK, UNK)]), "random"), st)]
        d = dunion(*[vdeps(x, st) for x in args], *[vdeps(x, st) for x in kw.values()])
        if any(isinstance(x, Arr) for x in args):
            dd = dunion(*[blur(st.heap[x.bid], x, st) if isinstance(x, Arr) and isinstance(st.heap.get(x.bid), ArrS) else vdeps(x, st) for x in list(args) + list(kw.values())])
            bid = self.alloc(st, None, [Piece(None, None, dd)] if dd else [], node)
            return [(Unk(dd, "np." + n), st)]
        return [(Unk(d, "np." + n), st)]

    def aliasview(self, a, st):
        return Arr(a.bid, a.off, a.ln, a.step)

    def dtype(self, v, node):
        if v is None:
            return None
        n = v.name if isinstance(v, Mod) else ""
        if "bool" in n:
            return "bool"
        if "int" in n:
            return "int"
        if "float" in n:
            return "float"
        return None

    def cumulative(self, a, st, node):
        ps = []
        for p in self.view_pieces(a, st):
            lo = p.klo if p.klo is not None else L(0)
            # prefix: cells lo..@k ; use a temporary symbol
            t = "@t"
            d = dsub(p.deps, {K: sym(t)})
            d = dproj(d, t, lo, KL)
            if p.khi is not None:
                # beyond khi the prefix stays at khi; over-approximate with @k when monotone
                pass
            ps.append(Piece(p.klo, None, d))
        bid = self.alloc(st, a.ln, ps, node)
        return Arr(bid, L(0), a.ln, 1, a.pd)

    def searchsorted(self, args, kw, node, st, method_of=None):
        a, v = args[0], args[1] if len(args) > 1 else kw.get("v")
        side = kw.get("side", args[2] if len(args) > 2 else Str("left"))
        right = isinstance(side, Str) and side.s == "right"
        if isinstance(v, Arr):
            d = dunion(proj_all(st.heap[v.bid], v, st))
            bid = self.alloc(st, v.ln, [Piece(None, None, dunion(*[p.deps for p in self.view_pieces(v, st)]))], node)
            # values in [0, len(a)]
            return [(Arr(bid, L(0), v.ln), st)]
        vd = vdeps(v, st)
        if isinstance(a, Arr) and a.ln is not None and isinstance(v, (Num, Unk)):
            A = st.heap[a.bid]
            s = self.fresh("ss", True)
            r = sym(s)
            st.add(r, a.ln - r)
            tm = v.time if isinstance(v, Num) else None
            d = vd
            if A.dtype == "time" and tm is not None and a.off == L(0):
                p, sg = tm
                if sg == "zero":
                    # timestamps are distinct
                    q = p + 1 if right else p
                    st.add(r - q, q - r)
                elif sg == "neg":
                    st.add(p - r)
                elif sg == "pos":
                    st.add(r - p - 1) if right or True else None
                    # any later row may be reached
                else:
                    self.free.discard(s)
                    self.nonfree.add(s)
                d = frozenset(x for x in vd)
            elif A.dtype == "time":
                d = vd
                if not vd:
                    pass
            else:
                d = dunion(vd, proj_all(A, a, st))
            return [(Num(r, d, True), st)]
        d = dunion(vd, vdeps(a, st))
        return [(Num(sym(self.fresh("ss")), d, True), st)]

    # ---------------------------------------------------------------- methods
    def method_call(self, b, m, args, kw, node, st):
        if isinstance(b, Tup) and b.items and isinstance(b.items[0], Str) and b.items[0].s == "@super":
            me, c = b.items[1], b.items[2].node
            mro = self.repo.mro(me.cls) if me.cls is not None else []
            after = mro[mro.index(c) + 1:] if c in mro else []
            for k in after:
                for x in k.body:
                    if isinstance(x, ast.FunctionDef) and x.name == m:
                        return self.call_fn(Fn(x, me), args, kw, node, st)
            return [(NONE, st)]
        if isinstance(b, Lst):
            A = st.heap[b.bid]
            if m == "append" and args:
                st = st.copy() if False else st
                self.append(b, args[0], node, st)
                return [(NONE, st)]
            if m == "extend" and args:
                d = dunion(vdeps(args[0], st), st.ctl)
                st.heap[b.bid] = A.w(ln=None, pieces=merge_pieces(A.pieces + (Piece(None, None, d),)))
                return [(NONE, st)]
            if m in ("pop", "clear", "insert", "sort", "reverse", "remove"):
                st.heap[b.bid] = A.w(ln=None)
            return [(Unk(vdeps(b, st), m), st)]
        if isinstance(b, Arr):
            if b.pd and self.pd is not None:
                r = self.pd.series_method(b, m, args, kw, node, st)
                if r is not None:
                    return r
            A = st.heap[b.bid]
            if m == "fill":
                d = dunion(vdeps(args[0], st), st.ctl)
                lo = b.off
                A2 = A.w(pieces=merge_pieces(A.pieces + ((Piece(None, None, d),) if d else ())))
                if b.ln is not None and b.off is not None:
                    self.access(b, L(0), b.ln, "w", node, st)
                    if A.cover is not None:
                        A2.cover = A.cover + ((b.off, b.off + b.ln),)
                else:
                    A2.mayunk = True
                st.heap[b.bid] = A2
                return [(NONE, st)]
            if m in ("copy", "astype", "flatten", "round", "clip"):
                dt = None
                if m == "astype" and args:
                    dt = self.dtype(args[0], node)
                r = self.elementwise([b] + (args if m == "clip" else []), st, node, dt)
                if A.dtype == "time" and m in ("copy", "astype"):
                    st.heap[r.bid] = st.heap[r.bid].w(dtype="time", role=A.role)
                elif A.role and m == "astype" and A.dtype != "index":
                    st.heap[r.bid] = st.heap[r.bid].w(role=A.role, dtype=A.dtype)
                return [(r, st)]
            if m in ("to_numpy", "view", "reshape", "ravel", "squeeze"):
                return [(Arr(b.bid, b.off, b.ln, b.step), st)]
            if m in REDUCE or m in CUM or m in ("searchsorted", "diff"):
                return self.numpy(m, [Arr(b.bid, b.off, b.ln, b.step)] + args, kw, node, st)
            if m in ("item", "tolist"):
                return [(Unk(vdeps(b, st), m), st)]
        if isinstance(b, Obj):
            h = st.heap.get(b.bid)
            if isinstance(h, dict):
                if m == "get" and args and isinstance(args[0], Str) and args[0].s in h:
                    return [(h[args[0].s], st)]
                if m in ("items", "values", "keys") and b.cls is None:
                    if m == "items":
                        return [(Tup([Tup([Str(k), v]) for k, v in h.items()], True), st)]
                    return [(Tup([v for v in h.values()] if m == "values" else [Str(k) for k in h], True), st)]
        if isinstance(b, Str):
            a = args[0] if args else None
            if m == "join" and b.s is not None and isinstance(a, Tup) and all(isinstance(x, Str) and x.s is not None for x in a.items):
                return [(Str(b.s.join(x.s for x in a.items)), st)]
            if m in ("lower", "upper", "strip") and b.s is not None and "{" not in b.s and not args:
                return [(Str(getattr(b.s, m)()), st)]
            return [(Str(None), st)]
        if isinstance(b, Tup) and b.islist and m == "append":
            b.items.append(args[0])
            return [(NONE, st)]
        if self.pd is not None:
            r = self.pd.method(b, m, args, kw, node, st)
            if r is not None:
                return r
        d = dunion(vdeps(b, st), *[vdeps(a, st) for a in args], *[vdeps(v, st) for v in kw.values()])
        return [(Unk(d, "m:" + m), st)]

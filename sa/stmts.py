"""Statement semantics: joins, branches, loop summarisation."""
from __future__ import annotations
import ast
from .lin import Lin, L, sym, prove, infeasible, witness
from .vals import *
from .interp import *
from .interp import PR, CAP, fmtw
from .calls import Calls

IGN = ("Pass", "Global", "Nonlocal", "ClassDef", "Delete")


def covers(facts, cov, x):
    """every cell of the half-open interval x lies in one of the intervals cov"""
    cov = list(cov)[:7]

    def rec(i, conds):
        if infeasible(facts, conds):
            return True
        if i == len(cov):
            return False
        return rec(i + 1, conds + [cov[i][0] - 1 - KL]) and rec(i + 1, conds + [KL - cov[i][1]])
    return rec(0, [KL - x[0], x[1] - 1 - KL])


class Stmts(Calls):

    # ------------------------------------------------------------ joins
    def joinv(self, a, b, sa, sb):
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            d = dunion(a.deps, b.deps)
            lin = a.lin if a.lin == b.lin else None
            if lin is None and a.lin is not None and b.lin is not None:
                s = self.fresh("j")
                lin = sym(s)
            return Num(lin, d, a.isint if a.isint == b.isint else None, a.cond if a.cond == b.cond else None,
                       a.time if a.time == b.time else None, a.const if a.const == b.const and type(a.const) is type(b.const) else None,
                       a.carried or b.carried, a.x if a.x == b.x else None)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.same(b):
                return a
            ps = []
            for v, s in ((a, sa), (b, sb)):
                if not isinstance(s.heap.get(v.bid), dict) and v.bid in s.heap:
                    ps += self.view_pieces(v, s)
            # a fresh array standing for either
            bid = self.newbid()
            ln = a.ln if a.ln == b.ln else None
            unk = any(s.heap[v.bid].cover is not None for v, s in ((a, sa), (b, sb)) if v.bid in s.heap)
            rec = ArrS(ln, merge_pieces(ps), None, kind="arr")
            A0 = sa.heap.get(a.bid)
            B0 = sb.heap.get(b.bid)
            if A0 is not None and B0 is not None and A0.dtype == B0.dtype:
                rec.dtype = A0.dtype
                if A0.role == B0.role:
                    rec.role = A0.role
            sa.heap[bid] = rec
            sb.heap[bid] = rec
            return Arr(bid, L(0), ln, 1, a.pd if a.pd == b.pd else (a.pd.w(name=None) if a.pd and b.pd and a.pd.same_rows(b.pd) else None))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.islist == b.islist:
            return Tup([self.joinv(x, y, sa, sb) for x, y in zip(a.items, b.items)], a.islist)
        if isinstance(a, Str) and isinstance(b, Str):
            return a if a.s == b.s else Str(None)
        if isinstance(a, Lst) and isinstance(b, Lst) and a.bid == b.bid:
            return a
        if isinstance(a, Obj) and isinstance(b, Obj) and a.bid == b.bid:
            return a
        if type(a) is type(b) and isinstance(a, (Df, Idx, Fn, Mod, Cls)):
            if isinstance(a, Df) and (a.bid, a.off, a.ln) != (b.bid, b.off, b.ln):
                return Unk(dunion(vdeps(a, sa), vdeps(b, sb)))
            if isinstance(a, Idx) and a.pd != b.pd:
                return Unk(why="join idx")
            if isinstance(a, (Fn, Cls)) and a.node is not b.node or isinstance(a, Mod) and a.name != b.name:
                return Unk(why="join")
            return a
        if isinstance(a, Maybe) and isinstance(b, Maybe) and a.key == b.key:
            return a
        return Unk(dunion(vdeps(a, sa), vdeps(b, sb)), "join")

    def joinA(self, a, b, sa=None, sb=None):
        if a is b or isinstance(a, dict) or isinstance(b, dict):
            return a
        cov = None
        if a.cover is not None and b.cover is not None:
            cov = tuple(x for x in a.cover if x in b.cover or (sb is not None and covers(sb.facts, b.cover, x)))
            if sa is not None:
                cov += tuple(x for x in b.cover if x not in cov and covers(sa.facts, a.cover, x))
        mu = a.mayunk or b.mayunk
        ln = a.ln
        if a.ln != b.ln:
            s = self.fresh("ln")
            ln = sym(s)
        return a.w(pieces=merge_pieces(a.pieces + b.pieces), cover=cov, mayunk=mu, evt=tuple(dict.fromkeys(a.evt + b.evt))[-12:], ln=ln,
                   dtype=a.dtype if a.dtype == b.dtype else ("num" if a.dtype is None or b.dtype is None else "obj"))

    def join2(self, a, b):
        if a is b:
            return a
        s = State()
        for k in a.env:
            if k in b.env:
                s.env[k] = self.joinv(a.env[k], b.env[k], a, b)
            else:
                s.env[k] = a.env[k]
        for k in b.env:
            if k not in a.env:
                s.env[k] = b.env[k]
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None:
                s.heap[k] = x if y is None else y
            elif isinstance(x, dict):
                if x is y:
                    s.heap[k] = x
                else:
                    s.heap[k] = {n: (self.joinv(x[n], y[n], a, b) if n in y else x[n]) for n in x}
                    for n in y:
                        s.heap[k].setdefault(n, y[n])
            else:
                s.heap[k] = self.joinA(x, y, a, b)
        fa, fb = set(a.facts), set(b.facts)
        keep = [f for f in a.facts if f in fb]
        for f in a.facts:
            if f not in fb and prove(b.facts, f):
                keep.append(f)
        for f in b.facts:
            if f not in fa and prove(a.facts, f):
                keep.append(f)
        s.facts = tuple(keep)
        s.ctl = dunion(a.ctl, b.ctl)
        s.decided = {k: v for k, v in a.decided.items() if b.decided.get(k, None) == v}
        s.opaque = a.opaque & b.opaque
        s.guards = a.guards & b.guards
        return s

    def sig(self, s):
        """discrete part of a state: states with equal signatures are joined"""
        out = []
        for k in sorted(s.env):
            v = s.env[k]
            out.append((k, self.vsig(v)))
        for b in sorted(s.heap):
            A = s.heap[b]
            if isinstance(A, dict):
                out.append((b, tuple(sorted((n, self.vsig(v)) for n, v in A.items()))))
            elif A.cover is not None:
                out.append((b, frozenset(A.cover), A.mayunk))
            elif A.kind == "list":
                out.append((b, A.ln))
        return tuple(out)

    def vsig(self, v):
        if isinstance(v, Num):
            return ("n", v.lin, v.cond if v.lin is None and v.cond is not None else None, v.time)
        if isinstance(v, Arr):
            return ("a", v.bid, v.off, v.ln, v.step)
        if isinstance(v, Tup):
            return ("t",) + tuple(self.vsig(x) for x in v.items)
        if isinstance(v, Lst):
            return ("l", v.bid)
        if isinstance(v, Str):
            return ("s", v.s)
        if isinstance(v, Maybe):
            return ("m", v.key)
        if isinstance(v, Df):
            return ("df", v.bid, v.off, v.ln)
        if isinstance(v, Idx):
            return ("idx", v.pd)
        if hasattr(v, "row"):
            return ("lab", v.row)
        return (type(v).__name__,)

    def live(self, states):
        """join states that agree on every tracked integer; cap the rest"""
        if len(states) <= 1:
            return states
        g = {}
        for s in states:
            k = self.sig(s)
            if k in g:
                g[k] = self.join2(g[k], s)
            else:
                g[k] = s
        out = list(g.values())
        while len(out) > CAP:
            b = out.pop()
            out[-1] = self.join2(out[-1], b)
        return out

    # ------------------------------------------------------------ blocks
    def block(self, stmts, states):
        for stn in stmts:
            nxt = []
            for s in states:
                if s.dead():
                    continue
                nxt.extend(self.stmt(stn, s))
            states = self.live(nxt)
            if not states:
                break
        return states

    def stmt(self, node, st):
        self.steps += 1
        n = type(node).__name__
        if n in IGN:
            return [st]
        m = getattr(self, "st_" + n, None)
        if m is None:
            return [st]
        return m(node, st)

    def st_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [st]
        return [s for _, s in self.ev(node.value, st)]

    def st_FunctionDef(self, node, st):
        node._mod = self.fr.mod
        st.env[node.name] = Fn(node, None, dict(st.env))
        return [st]

    def st_Import(self, node, st):
        for a in node.names:
            st.env[a.asname or a.name.split(".")[0]] = Mod(a.name if a.asname else a.name.split(".")[0])
        return [st]

    def st_ImportFrom(self, node, st):
        for a in node.names:
            st.env[a.asname or a.name] = self.global_(a.asname or a.name)
        return [st]

    def st_Assign(self, node, st):
        out = []
        for v, s in self.ev(node.value, st):
            ss = [s]
            for t in node.targets:
                n2 = []
                for x in ss:
                    n2.extend(self.assign(t, v, x, node))
                ss = n2
            out.extend(ss)
        return out

    def st_AnnAssign(self, node, st):
        if node.value is None:
            return [st]
        out = []
        for v, s in self.ev(node.value, st):
            out.extend(self.assign(node.target, v, s, node))
        return out

    def ctlv(self, v, st):
        if st.ctl and isinstance(v, Num):
            if not st.ctl <= v.deps:
                return v.w(deps=dunion(v.deps, st.ctl))
        return v

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            v = self.ctlv(v, st)
            if st.guards and isinstance(v, Num) and v.deps:
                old = st.env.get(t.id)
                od = old.deps if isinstance(old, Num) else NOD
                nd = frozenset(x if x in od or x.role == "" else Dep(x.role, x.lo, x.hi, x.tags | st.guards) for x in v.deps)
                v = v.w(deps=dnorm(nd))
            if isinstance(v, Num) and v.carried is not None:
                v = v.w(carried=None)
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                ss = [st]
                for e, x in zip(t.elts, v.items):
                    n2 = []
                    for s in ss:
                        n2.extend(self.assign(e, x, s, node))
                    ss = n2
                return ss
            d = vdeps(v, st)
            for e in t.elts:
                e = e.value if isinstance(e, ast.Starred) else e
                st = self.assign(e, Unk(d, "unpack"), st, node)[0]
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for b, s in self.ev(t.value, st):
                if isinstance(b, Obj) and isinstance(s.heap.get(b.bid), dict):
                    h = dict(s.heap[b.bid])
                    h[t.attr] = v
                    s.heap[b.bid] = h
                elif isinstance(b, Arr) and b.pd and t.attr == "name" and isinstance(t.value, ast.Name):
                    s.env[t.value.id] = Arr(b.bid, b.off, b.ln, b.step, b.pd.w(name=v.s if isinstance(v, Str) else None))
                elif isinstance(b, Arr) and b.pd and t.attr == "index" and isinstance(t.value, ast.Name):
                    s.env[t.value.id] = Arr(b.bid, b.off, b.ln, b.step, self.pd.reindexed(v, b.pd) if self.pd else b.pd)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, s in self.ev(t.value, st):
                out.extend(self.assign_sub(b, t, v, s))
            return out
        return [st]

    def assign_sub(self, b, t, v, st):
        sl = t.slice
        if isinstance(b, Maybe):
            b = b.val
        if isinstance(b, Obj):
            kv, st = self.ev(sl, st)[0]
            h = st.heap.get(b.bid)
            if isinstance(h, dict) and isinstance(kv, Str) and kv.s is not None:
                h = dict(h)
                h[kv.s] = v
                st.heap[b.bid] = h
            return [st]
        if isinstance(b, Tup) and b.items and isinstance(b.items[0], Str) and b.items[0].s in ("@iloc", "@loc", "@iat", "@at"):
            if self.pd:
                return self.pd.setloc(b.items[0].s, b.items[1], sl, v, t, st)
            return [st]
        if isinstance(b, Arr):
            if isinstance(sl, ast.Slice) or isinstance(sl, ast.Tuple):
                return self.write_slice(b, sl, v, t, st)
            out = []
            for iv, s in self.ev(sl, st):
                if isinstance(iv, Maybe):
                    iv = iv.val
                if isinstance(iv, Arr):
                    A = s.heap[b.bid]
                    mask = s.heap[iv.bid]
                    same = mask.dtype == "bool" or (iv.ln is not None and iv.ln == b.ln)
                    if same:
                        # elementwise masked write keeps row alignment
                        ps = [Piece(p.klo, p.khi, p.deps) for p in self.view_pieces(iv, s)]
                        if isinstance(v, Arr):
                            ps += self.view_pieces(v, s)
                        else:
                            d = dunion(vdeps(v, s), s.ctl)
                            if d:
                                ps.append(Piece(None, None, d))
                        off = b.off if b.off is not None else L(0)
                        ps = [Piece(p.klo + off if p.klo is not None else None, p.khi + off if p.khi is not None else None, dsub(p.deps, {K: KL - off})) for p in ps]
                    else:
                        d = dunion(vdeps(iv, s), vdeps(v, s), s.ctl)
                        ps = [Piece(None, None, d)]
                    s = s.copy()
                    s.heap[b.bid] = A.w(pieces=merge_pieces(A.pieces + tuple(ps)), mayunk=True)
                    self.access(Arr(b.bid, None, None), None, None, "w", t, s)
                    out.append(s)
                    continue
                if isinstance(iv, Num):
                    out.extend(self.write(b, iv.lin, v, t, s))
                else:
                    out.extend(self.write(b, None, v, t, s))
            return out
        if isinstance(b, Lst):
            iv, st = self.ev(sl, st)[0] if not isinstance(sl, ast.Slice) else (Unk(), st)
            A = st.heap[b.bid]
            d = dunion(vdeps(v, st), st.ctl)
            st.heap[b.bid] = A.w(pieces=merge_pieces(A.pieces + (Piece(None, None, d),)))
            return [st]
        if self.pd is not None:
            r = self.pd.setitem(b, sl, v, t, st)
            if r is not None:
                return r
        return [st]

    def st_AugAssign(self, node, st):
        t = node.target
        if isinstance(t, ast.Name):
            cur = st.env.get(t.id)
            out = []
            for v, s in self.ev(node.value, st):
                cur = s.env.get(t.id)
                if isinstance(cur, Num) and cur.carried is not None:
                    pr, name, kind = cur.carried
                    isint = isinstance(v, Num) and (v.isint is True)
                    if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)) and kind != "after":
                        if isint and cur.isint is not False:
                            s.env[t.id] = cur
                            pr.red.add(name)
                            out.append(s)
                            continue
                        self.note("race", "bad", node, f"floating-point reduction into '{name}' across iterations of the parallel loop at line "
                                  f"{pr.node.lineno}: the summation order depends on the number of threads", key=f"reduction:{name}")
                    else:
                        self.carried_read(cur, node, s)
                    cur = cur.w(carried=None)
                if cur is None:
                    cur = self.global_(t.id)
                if isinstance(cur, Maybe):
                    cur = self.unmaybe(cur, s)
                if isinstance(cur, Arr):
                    # in-place array update
                    A = s.heap[cur.bid]
                    out.extend(self.write_slice(cur, ast.Slice(), self.elementwise([cur, v], s, node), node, s))
                    continue
                for r, s2 in self.binop(node.op, cur, v, node, s):
                    out.extend(self.assign(t, r, s2, node))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            import copy
            ld = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
            ast.copy_location(ld, t)
            for (cur, v), s in self.evs([ld, node.value], st):
                if isinstance(cur, Maybe):
                    cur = cur.val
                for r, s2 in self.binop(node.op, cur, v, node, s):
                    out.extend(self.assign(t, r, s2, node))
            return out
        if isinstance(t, ast.Attribute):
            v, st = self.ev(node.value, st)[0]
            return [st]
        return [st]

    def st_Return(self, node, st):
        if node.value is None:
            self.fr.returns.append((NONE, st))
            return []
        for v, s in self.ev(node.value, st):
            self.fr.returns.append((v, s))
        return []

    def st_Raise(self, node, st):
        return []

    def st_Assert(self, node, st):
        out = []
        for t, s, d, k in self.cond(node.test, st):
            if t:
                s.ctl = st.ctl
                s.guards = st.guards
                s.opaque = st.opaque
                out.append(s)
        return out

    def st_With(self, node, st):
        for it in node.items:
            v, st = self.ev(it.context_expr, st)[0]
            if it.optional_vars is not None:
                st = self.assign(it.optional_vars, v, st, node)[0]
        return self.block(node.body, [st])

    def st_Try(self, node, st):
        a = self.block(node.body, [st.copy()])
        out = list(a)
        if node.orelse:
            out = self.block(node.orelse, out)
        for h in node.handlers:
            s = st.copy()
            s.opaque = s.opaque | {"exc"}
            if h.name:
                s.env[h.name] = Unk(why="exc")
            out.extend(self.block(h.body, [s]))
        if node.finalbody:
            out = self.block(node.finalbody, out)
        return out

    def st_Break(self, node, st):
        if self.fr.breaks is not None:
            self.fr.breaks.append(st)
        return []

    def st_Continue(self, node, st):
        if self.fr.conts is not None:
            self.fr.conts.append(st)
        return []

    @staticmethod
    def always_raises(body):
        return bool(body) and isinstance(body[-1], ast.Raise) and not any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for b in body for x in ast.walk(b))

    def st_If(self, node, st):
        pre_ctl, pre_g, pre_o = st.ctl, st.guards, st.opaque
        outs = self.cond(node.test, st)
        falls = {True: [], False: []}
        raises = {True: self.always_raises(node.body), False: self.always_raises(node.orelse)}
        for t, s, d, k in outs:
            if s is st:
                s = st.copy()
            body = node.body if t else node.orelse
            if raises[not t] and not raises[t]:
                s.guards = pre_g
                # validation guard: no information flows to the result, the check is not a path constraint of interest
                if k == "opaque":
                    s.opaque = pre_o
            elif d:
                s.ctl = dunion(s.ctl, d)
            r = self.block(body, [s]) if body else [s]
            falls[t].extend(r)
        if falls[True] and falls[False]:
            allf = falls[True] + falls[False]
            for s in allf:
                s.ctl = pre_ctl
                s.guards = pre_g
            return allf
        res = falls[True] + falls[False]
        if len({t for t, *_ in outs}) == 1:
            for s in res:
                s.ctl = pre_ctl
                s.guards = pre_g
        return res

    def st_Match(self, node, st):
        st.opaque = st.opaque | {"match"}
        out = []
        for c in node.cases:
            s = st.copy()
            out.extend(self.block(c.body, [s]))
        return out + [st]

    # ------------------------------------------------------------ loops
    def iterspec(self, it, st):
        """-> [(spec, state)]"""
        if isinstance(it, ast.Call) and isinstance(it.func, (ast.Name, ast.Attribute)):
            nm = it.func.id if isinstance(it.func, ast.Name) else it.func.attr
            tgt = nm
            if isinstance(it.func, ast.Name) and nm not in ("range",):
                r = self.repo.resolve(self.fr.mod.name, nm)
                if r and r[0] == "ext":
                    tgt = r[1].split(".")[-1]
            if tgt in ("range", "prange") and not it.keywords:
                out = []
                for vs, s in self.evs(it.args, st):
                    ls = [self.tolin(v) for v in vs]
                    ds = dunion(*[vdeps(v, s) for v in vs])
                    vals = []
                    for l in ls:
                        if l is None:
                            l = sym(self.fresh("rb"))
                        vals.append(l)
                    if len(vals) == 1:
                        lo, hi, step = L(0), vals[0], 1
                    elif len(vals) == 2:
                        lo, hi, step = vals[0], vals[1], 1
                    else:
                        lo, hi = vals[0], vals[1]
                        step = vals[2].const
                    out.append((("range", lo, hi, step, tgt == "prange", ds), s))
                return out
            if nm == "enumerate" and it.args:
                out = []
                for v, s in self.ev(it.args[0], st):
                    out.append((("enum", v, None), s))
                return out
            if nm == "zip":
                out = []
                for vs, s in self.evs(it.args, st):
                    out.append((("zip", vs, None), s))
                return out
            if nm == "reversed" and it.args:
                sub = self.iterspec(it.args[0], st)
                out = []
                for sp, s in sub:
                    if sp[0] == "range" and sp[3] == 1:
                        out.append((("range", sp[2] - 1, sp[1] - 1, -1, False, sp[5]), s))
                    else:
                        out.append((("opaque", sp[1] if len(sp) > 1 and not isinstance(sp[1], Lin) else Unk(), None), s))
                return out
        return [(("val", v, None), s) for v, s in self.ev(it, st)]

    def st_For(self, node, st):
        out = []
        for spec, s in self.iterspec(node.iter, st):
            out.extend(self.for_spec(node, spec, s))
        return out

    def for_spec(self, node, spec, st):
        k = spec[0]
        if k == "range":
            _, lo, hi, step, par, ds = spec
            if step in (1, -1):
                def bind(s, j):
                    return self.assign(node.target, Num(j, dunion(), True), s, node)
                return self.loop(node, st, lo, hi, step, bind, par and self.fr.parallel, ds)
            if step is not None and step > 1:
                def bind(s, j):
                    return self.assign(node.target, Num(j, NOD, True), s, node)
                return self.loop(node, st, lo, hi, 1, bind, par and self.fr.parallel, ds, skip=True)
            def bind(s, j):
                return self.assign(node.target, Num(sym(self.fresh("ix")), NOD, True), s, node)
            return self.loop(node, st, L(0), sym(self.fresh("cnt")), 1, bind, par and self.fr.parallel, ds, skip=True)
        v = spec[1]
        if k in ("enum", "zip", "val") and k == "zip":
            if all(isinstance(x, Tup) for x in v):
                return self.unroll(node, [Tup(list(t)) for t in zip(*[x.items for x in v])], st)
            arrs = [x for x in v if isinstance(x, (Arr, Lst))]
            if arrs and all(isinstance(x, Arr) for x in v):
                ln = next((x.ln for x in v if x.ln is not None), None) or sym(self.fresh("cnt"))
                def bind(s, j):
                    items = [self.read_q(x, j, s) for x in v]
                    return self.assign(node.target, Tup(items), s, node)
                return self.loop(node, st, L(0), ln, 1, bind, False, NOD)
        if k == "enum":
            if isinstance(v, Tup):
                return self.unroll(node, [Tup([Num(L(i), isint=True), x]) for i, x in enumerate(v.items)], st)
            if isinstance(v, Arr):
                ln = v.ln if v.ln is not None else sym(self.fresh("cnt"))
                def bind(s, j):
                    return self.assign(node.target, Tup([Num(j, NOD, True), self.read_q(v, j, s)]), s, node)
                return self.loop(node, st, L(0), ln, 1, bind, False, NOD)
        if k == "val":
            if isinstance(v, Tup) and not (v.items and isinstance(v.items[0], Str) and v.items[0].s and v.items[0].s.startswith("@")) and len(v.items) <= 16:
                return self.unroll(node, v.items, st)
            if isinstance(v, Arr):
                ln = v.ln if v.ln is not None else sym(self.fresh("cnt"))
                def bind(s, j):
                    return self.assign(node.target, self.read_q(v, j, s), s, node)
                return self.loop(node, st, L(0), ln, 1, bind, False, NOD)
        if self.pd is not None and not isinstance(v, list):
            r = self.pd.run_iter(node, v, st)
            if r is not None:
                return r
        ds = dunion(*[vdeps(x, st) for x in v]) if isinstance(v, list) else vdeps(v, st)
        special = self.pd.iterate(v, node, st) if self.pd is not None and not isinstance(v, list) else None
        def bind(s, j):
            if special is not None:
                return self.assign(node.target, special(s, j), s, node)
            if isinstance(v, Lst) and k == "val":
                return self.assign(node.target, self.lstelem(s.heap[v.bid], ds), s, node)
            return self.assign(node.target, Unk(ds, "iter"), s, node)
        return self.loop(node, st, L(0), sym(self.fresh("cnt")), 1, bind, False, NOD)

    def read_q(self, v, j, s):
        """element j of view v, in bounds by construction"""
        if isinstance(v, Arr):
            A = s.heap[v.bid]
            pos = v.off + j if v.off is not None and v.step == 1 else (v.off - j if v.step == -1 else None)
            if pos is None:
                return Num(None, proj_all(A, v, s))
            self.access(v, pos, pos + 1, "r", self.fr.fn, s, absolute=True) if False else None
            return self.elemval(A, pos, self.cell_abs(A, pos, s), s)
        return Unk(vdeps(v, s))

    def unroll(self, node, items, st):
        states = [st]
        brk = []
        for it in items:
            nxt = []
            for s in states:
                for s2 in self.assign(node.target, it, s, node):
                    e, b = self.body(node.body, s2)
                    nxt.extend(e)
                    brk.extend(b)
            states = self.live(nxt)
        if node.orelse:
            states = self.block(node.orelse, states)
        return self.live(states + brk)

    def body(self, stmts, st, discard=False):
        fr = self.fr
        ob, oc, nr = fr.breaks, fr.conts, len(fr.returns)
        fr.breaks, fr.conts = [], []
        try:
            ends = self.block(stmts, [st])
            ends = ends + fr.conts
            brk = fr.breaks
        finally:
            fr.breaks, fr.conts = ob, oc
        if discard:
            del fr.returns[nr:]
        return ends, brk

    def quiet(self, f):
        r, self.rec = self.rec, False
        try:
            return f()
        finally:
            self.rec = r

    def changed(self, head, ends):
        names, bids, attrs = set(), set(), set()
        for e in ends:
            for k, v in e.env.items():
                if head.env.get(k) is not v:
                    names.add(k)
            for b, A in head.heap.items():
                if e.heap.get(b) is not A:
                    bids.add(b)
        return names, bids

    # -- the counted loop
    def loop(self, node, st, lo, hi, step, bind, par, ds, skip=False):
        jn = self.fresh("i", True)
        j = sym(jn)
        rng = (j - lo, hi - 1 - j) if step == 1 else (lo - j, j - hi - 1)
        first, last = (lo, hi - 1) if step == 1 else (lo, hi + 1)
        klo_, khi_ = (lo, hi - 1) if step == 1 else (hi + 1, lo)     # numeric range of j
        trip = hi - lo if step == 1 else lo - hi
        idx = j - lo if step == 1 else lo - j                        # iterations completed at head
        prev = j - 1 if step == 1 else j + 1

        def mkhead(base):
            h = base.copy()
            h.add(*rng)
            h.ctl = dunion(st.ctl, ds)
            return h
        h0 = mkhead(st)
        if h0.dead():
            return self.block(node.orelse, [st]) if node.orelse else [st]

        symno = self.n
        pr = None
        # pass 0: which variables / objects change
        def p0():
            es, bs = [], []
            for b in bind(h0.copy(), j):
                e, k = self.body(node.body, b, True)
                es += e
                bs += k
            return es, bs
        es, bs = self.quiet(p0)
        nprs = self.prs
        names, bids = self.changed(h0, es + bs)
        # pass 1: deltas of integers
        havoc = {}
        h1 = h0.copy()
        for n in names:
            v = st.env.get(n)
            if isinstance(v, Num) and v.lin is not None and not v.cond:
                s_ = self.fresh("h")
                havoc[n] = s_
                h1.env[n] = v.w(lin=sym(s_), const=None, x=None, time=None)
            elif isinstance(v, Num):
                h1.env[n] = v.w(const=None, x=None, time=None, cond=None)
        lhavoc = {}
        for b in bids:
            A = st.heap.get(b)
            if isinstance(A, ArrS) and A.kind == "list" and A.ln is not None:
                s_ = self.fresh("hl")
                lhavoc[b] = s_
                h1.heap[b] = A.w(ln=sym(s_))
        def p1():
            es = []
            for b in bind(h1.copy(), j):
                e, k = self.body(node.body, b, True)
                es += e
            return es
        es1 = self.quiet(p1) if (havoc or lhavoc) else es
        inv = {}      # name -> ('exact',c) | ('range',cmin,cmax) | ('last', lin) | ('free',)
        def classify(s_, endlins, cur):
            ds_ = []
            for l in endlins:
                if l is None:
                    return ("free",)
                d = (l - sym(s_)).const
                ds_.append(d)
            if ds_ and all(d is not None for d in ds_):
                if min(ds_) == max(ds_):
                    return ("exact", ds_[0])
                return ("range", min(ds_), max(ds_))
            return ("free",)
        headlin = {}
        mfacts = []
        for n, s_ in havoc.items():
            c = classify(s_, [self.tolin(e.env.get(n)) for e in es1], n)
            init = st.env[n].lin
            if c[0] == "exact" and not skip:
                headlin[n] = init + idx.scale(c[1])
                inv[n] = c
            elif c[0] == "exact" or c[0] == "range":
                cmin, cmax = (min(0, c[1]), max(0, c[1])) if c[0] == "exact" else (c[1], c[2])
                hs = self.fresh("hv", True)
                headlin[n] = sym(hs)
                mfacts += [sym(hs) - init - idx.scale(cmin), init + idx.scale(cmax) - sym(hs)]
                inv[n] = ("range", cmin, cmax)
            else:
                # end value independent of the carried one on all paths that change it?
                lins = []
                for e in es1:
                    l = self.tolin(e.env.get(n))
                    if l is None:
                        lins = None
                        break
                    lins.append(l)
                hs = self.fresh("hv")
                headlin[n] = sym(hs)
                inv[n] = ("free",)
                if lins and all(not any(x.startswith("h#") or x.startswith("hl#") for x in l.syms() if x != s_) for l in lins):
                    # candidate bounds: carried value stays within [min, max] of init and assigned ones
                    cand = []
                    for up in (True, False):
                        for bnd in [init, prev, first, hi, lo] + [l.sub({jn: prev}) for l in lins if s_ not in l.syms()]:
                            f = (bnd - sym(hs)) if up else (sym(hs) - bnd)
                            cand.append((f, bnd, up))
                    good = []
                    for f, bnd, up in cand:
                        # holds initially (j=first) and is preserved
                        f0 = f.sub({hs: init, jn: first})
                        if not prove(st.facts + (trip - 1,), f0):
                            continue
                        ok = True
                        nf = f.sub({jn: j + (1 if step == 1 else -1)})
                        for e, l in zip(es1, lins):
                            hyp = e.facts + (f.sub({hs: sym(s_)}),)
                            if not prove(hyp, nf.sub({hs: l})):
                                ok = False
                                break
                        if ok:
                            good.append(f)
                    mfacts += good
                    inv[n] = ("bounded", tuple(good), hs)
        listlin = {}
        for b, s_ in lhavoc.items():
            c = classify(s_, [e.heap[b].ln for e in es1], None)
            init = st.heap[b].ln
            if c[0] == "exact" and not skip:
                listlin[b] = init + idx.scale(c[1])
            elif c[0] in ("exact", "range"):
                cmin, cmax = (min(0, c[1]), max(0, c[1])) if c[0] == "exact" else (c[1], c[2])
                hs = self.fresh("hv", True)
                listlin[b] = sym(hs)
                mfacts += [sym(hs) - init - idx.scale(cmin), init + idx.scale(cmax) - sym(hs)]
                inv[("l", b)] = ("range", cmin, cmax)
            else:
                listlin[b] = sym(self.fresh("hv"))
                inv[("l", b)] = ("free",)

        def clean(deps, state):
            """replace iteration-local opaque bounds by provable ones"""
            if not deps:
                return deps
            out = set()
            for d in deps:
                def c(b, up):
                    if not isinstance(b, Lin):
                        return b
                    loc = [x for x in b.syms() if "#" in x and x != jn and int(x.rsplit("#", 1)[1]) > symno]
                    if not loc:
                        return b
                    for tgt in (j, j + 1, j - 1, khi_ if up else klo_):
                        if up and prove(state.facts, tgt - b):
                            return tgt
                        if not up and prove(state.facts, b - tgt):
                            return tgt
                    return UNK
                out.add(Dep(d.role, c(d.lo, False), c(d.hi, True), d.tags))
            return dnorm(out)

        def cleanpiece(p, e):
            d = clean(p.deps, e)
            if p.klo is not None and p.klo == p.khi and p.klo.coef(jn) in (1, -1):
                c_ = p.klo.coef(jn)
                inv_ = (KL - (p.klo - Lin(((jn, c_),), 0))).scale(c_)
                d = dsub(d, {jn: inv_})
            return Piece(p.klo, p.khi, d)

        def toprev(deps):
            """union over all completed iterations, seen from iteration j"""
            if step == 1:
                return dproj(deps, jn, lo, j - 1)
            return dproj(deps, jn, j + 1, lo)

        def toend(deps):
            return dproj(deps, jn, klo_, khi_)

        def piece_range(p, a, b):
            klo, khi = p.klo, p.khi
            def pj(x, up):
                if x is None:
                    return None
                r = _projl(x, jn, a, b, up)
                return r
            return Piece(pj(klo, False), pj(khi, True), dproj(p.deps, jn, a, b))

        def build_head(prevends, breaks):
            h = mkhead(st)
            h.add(*mfacts)
            for n in names:
                v0 = st.env.get(n)
                vals = [e.env.get(n) for e in prevends]
                states = prevends
                if v0 is None:
                    # undefined before the loop: value of the previous iteration, if read
                    h.env.pop(n, None)
                    if vals and all(x is not None for x in vals):
                        v = vals[0]
                        for x, e in zip(vals[1:], states[1:]):
                            v = self.joinv(v, x, states[0], e)
                        h.env[n] = self.fromprev(v, toprev, clean, states[0], jn, prev)
                    continue
                v = v0
                for x, e in zip(vals, states):
                    if x is None:
                        continue
                    x2 = self.fromprev(x, toprev, clean, e, jn, prev)
                    v = self.joinv(v, x2, st, e)
                if isinstance(v, Num) and n in headlin:
                    ch = any(isinstance(x, Num) for x in vals)
                    v = Num(headlin[n], v.deps, v0.isint if isinstance(v0, Num) else None)
                elif isinstance(v, Num):
                    v = Num(v.lin if v.lin == v0.lin else None, v.deps, v.isint, const=v.const, x=v.x if not vals else None, cond=None if not (v.cond == v0.cond) else v.cond)
                h.env[n] = v
            for b in bids:
                A = st.heap[b]
                if isinstance(A, dict):
                    cur = dict(A)
                    for e in prevends:
                        for kk, vv in e.heap[b].items():
                            if cur.get(kk) is not vv:
                                cur[kk] = self.joinv(cur[kk], vv, st, e) if kk in cur else vv
                    h.heap[b] = cur
                    continue
                ps = list(A.pieces)
                evt = list(A.evt)
                cov = A.cover
                mu = A.mayunk
                ln = A.ln
                for e in prevends:
                    B = e.heap.get(b)
                    if B is None:
                        continue
                    for p in B.pieces:
                        if p in A.pieces:
                            continue
                        p2 = cleanpiece(p, e)
                        if step == 1:
                            ps.append(piece_range(p2, lo, j - 1))
                        else:
                            ps.append(piece_range(p2, j + 1, lo))
                    mu = mu or B.mayunk
                    evt += [x for x in B.evt]
                if b in listlin:
                    ln = listlin[b]
                h.heap[b] = A.w(pieces=merge_pieces(ps), evt=tuple(dict.fromkeys(evt))[-12:], ln=ln, mayunk=mu,
                                dtype=A.dtype if not prevends else prevends[0].heap[b].dtype)
            for e in breaks:
                ex = frozenset(x for x in e.ctl if x not in h.ctl)
                if ex:
                    h.ctl = dunion(h.ctl, toprev(clean(ex, e)))
            return h

        ends, brks = es, bs
        prevsig = None
        hprev = None
        for it in range(7):
            h = build_head(ends, brks)
            if it >= 2:
                self.widen_head(h, hprev, names, bids)
            hprev = h
            sg = self.headsig(h, names, bids)
            if sg == prevsig:
                break
            prevsig = sg
            def pk():
                E, B = [], []
                for b in bind(h.copy(), j):
                    e, k = self.body(node.body, b, True)
                    E += e
                    B += k
                return E, B
            ends, brks = self.quiet(pk)
        else:
            # widen
            for n in names:
                v = h.env.get(n)
                if isinstance(v, Num):
                    h.env[n] = v.w(deps=frozenset(Dep(d.role, d.lo, d.hi if prevsig is None else d.hi, d.tags) for d in v.deps))
        # recorded pass
        if par:
            pr = PR(jn, node, self.fr.fn, set(st.heap), symno)
            pr.written = set()
            pr.red = set()
            for n in names:
                if n in st.env and isinstance(h.env.get(n), Num):
                    h.env[n] = h.env[n].w(carried=(pr, n, "loop-carried"))
                elif n in st.env and isinstance(h.env.get(n), (Unk,)):
                    h.env[n] = Num(None, vdeps(h.env[n]), carried=(pr, n, "loop-carried"))
            if self.rec:
                self.prs.append(pr)
        ends, brks = [], []
        for b in bind(h.copy(), j):
            e, k = self.body(node.body, b)
            ends += e
            brks += k
        if par:
            if self.rec:
                self.prs.pop()
                self.check_races(pr)
        # ------- exit states
        outs = []
        exit_needed = any(n in headlin and inv[n][0] in ("exact", "range", "bounded", "free") for n in names)
        definite = prove(st.facts, trip - 1)
        ex = st.copy()
        zero = None
        if not definite:
            if exit_needed or ends and any(n not in st.env for n in names) or lhavoc:
                zero = st.copy()
                zero.add(-trip)
                if zero.dead():
                    zero = None
                else:
                    zero.ctl = dunion(st.ctl, ds)
                    if self.vsig_target(node, names) and False:
                        pass
            if zero is not None or exit_needed:
                ex.add(trip - 1)
        T = trip
        dead_exit = ex.dead() or not ends
        for n in names:
            v0 = st.env.get(n)
            vals = [e.env.get(n) for e in ends]
            v = None
            for x, e in zip(vals, ends):
                if x is None:
                    continue
                x2 = self.fromend(x, toend, clean, e, jn, last)
                v = x2 if v is None else self.joinv(v, x2, ex, e)
            if v is None:
                continue
            if isinstance(v, Num):
                lin = v.lin
                if n in headlin:
                    c = inv[n]
                    init = v0.lin
                    if c[0] == "exact":
                        lin = init + T.scale(c[1])
                    elif c[0] == "range":
                        fs = self.fresh("fv", True)
                        lin = sym(fs)
                        ex.add(lin - init - T.scale(c[1]), init + T.scale(c[2]) - lin)
                    elif c[0] == "bounded":
                        fs = self.fresh("fv")
                        lin = sym(fs)
                        for f in c[1]:
                            ex.add(f.sub({c[2]: lin, jn: hi if step == 1 else hi}))
                    else:
                        lin = sym(self.fresh("fv"))
                    d = v.deps
                    if isinstance(v0, Num) and c[0] != "exact":
                        d = dunion(d, v0.deps)
                    v = Num(lin, d, v.isint if v.isint == getattr(v0, "isint", None) else None)
                else:
                    tgt = {t.id for t in ast.walk(node.target) if isinstance(t, ast.Name)} if hasattr(node, "target") else set()
                    if lin is not None and jn in lin.syms():
                        lin = lin.sub({jn: last})
                    if lin is not None and any("#" in x and int(x.rsplit("#", 1)[1]) > symno for x in lin.syms()):
                        lin = sym(self.fresh("fv"))
                    v = Num(lin, v.deps, v.isint, const=v.const if (v0 is None or (isinstance(v0, Num) and v0.const == v.const)) else None)
                if v0 is not None and isinstance(v0, Num) and not definite and zero is None:
                    v = v.w(deps=dunion(v.deps, v0.deps), lin=v.lin if v.lin == v0.lin else (sym(self.fresh("fv")) if v.lin is not None else None))
                if par:
                    if n in pr.red:
                        v = v.w(carried=None)
                    else:
                        v = v.w(carried=(pr, n, "after"))
            elif v0 is not None and not definite and zero is None:
                v = self.joinv(v0, v, st, ends[0])
            ex.env[n] = v
        for b in bids:
            A = st.heap[b]
            if isinstance(A, dict):
                ex.heap[b] = h.heap[b]
                continue
            ps = list(A.pieces)
            evt = list(A.evt)
            mu = A.mayunk
            newcov = None
            for e in ends:
                B = e.heap.get(b)
                if B is None:
                    continue
                for p in B.pieces:
                    if p in A.pieces:
                        continue
                    p2 = cleanpiece(p, e)
                    ps.append(piece_range(p2, klo_, khi_))
                mu = mu or B.mayunk
                evt += list(B.evt)
            ln = A.ln
            if b in lhavoc:
                c = inv.get(("l", b))
                if c is None:
                    cc = (listlin[b] - A.ln)
                    ln = listlin[b].sub({jn: (hi if step == 1 else hi)})
                elif c[0] == "range":
                    fs = self.fresh("fv", True)
                    ln = sym(fs)
                    ex.add(ln - A.ln - T.scale(c[1]), A.ln + T.scale(c[2]) - ln)
                else:
                    ln = sym(self.fresh("fv"))
            cov = A.cover
            if cov is not None:
                if skip:
                    mu = True
                else:
                    extra, unk = self.loopcover(A, b, ends, h, jn, j, lo, hi, step, klo_, khi_, definite or zero is not None, inv, headlin, st, ex, T)
                    cov = cov + tuple(x for x in extra if x not in cov)
                    mu = mu or unk
            ex.heap[b] = A.w(pieces=merge_pieces(ps), evt=tuple(dict.fromkeys(evt))[-12:], ln=ln, cover=cov, mayunk=mu,
                             dtype=ends[0].heap[b].dtype if ends else A.dtype)
        # heap objects created inside and still referenced
        for e in ends:
            for b, A in e.heap.items():
                if b not in ex.heap:
                    if isinstance(A, dict):
                        ex.heap[b] = A
                    else:
                        ex.heap[b] = A.w(pieces=merge_pieces([piece_range(Piece(p.klo, p.khi, clean(p.deps, e)), klo_, khi_) for p in A.pieces]), mayunk=A.mayunk)
        if not dead_exit:
            outs.append(ex)
        if zero is not None:
            outs.append(zero)
        if not outs and not brks and not dead_exit:
            outs.append(ex)
        if node.orelse:
            outs = self.block(node.orelse, outs)
        for bst in brks:
            bst = bst.copy()
            bst.ctl = dunion(st.ctl)
            bst.guards = st.guards
            outs.append(bst)
        return self.live(outs)

    def widen_head(self, h, hp, names, bids):
        for n in names:
            v, w = h.env.get(n), hp.env.get(n)
            if isinstance(v, Num) and isinstance(w, (Num, Unk)):
                h.env[n] = v.w(deps=widen_deps(v.deps, w.deps))
            elif isinstance(v, Unk) and isinstance(w, (Num, Unk)):
                h.env[n] = Unk(widen_deps(v.deps, w.deps), v.why)
        for b in bids:
            A, B = h.heap.get(b), hp.heap.get(b)
            if isinstance(A, ArrS) and isinstance(B, ArrS):
                h.heap[b] = A.w(pieces=widen_pieces(A.pieces, B.pieces))
        h.ctl = widen_deps(h.ctl, hp.ctl)

    def vsig_target(self, node, names):
        return False

    def headsig(self, h, names, bids):
        out = []
        for n in sorted(names):
            v = h.env.get(n)
            if isinstance(v, (Num, Unk)):
                out.append((n, v.deps, type(v).__name__))
            elif isinstance(v, Arr):
                A = h.heap.get(v.bid)
                out.append((n, frozenset(A.pieces) if isinstance(A, ArrS) else None))
            else:
                out.append((n, type(v).__name__))
        for b in sorted(bids):
            A = h.heap[b]
            if isinstance(A, ArrS):
                out.append((b, frozenset(A.pieces), A.evt, A.mayunk))
        out.append(h.ctl)
        return tuple(out)

    def fromprev(self, x, toprev, clean, e, jn, prev):
        if isinstance(x, Num):
            return Num(x.lin.sub({jn: prev}) if x.lin is not None and jn in x.lin.syms() else x.lin, toprev(clean(x.deps, e)), x.isint, const=x.const, x=None,
                       time=(x.time[0].sub({jn: prev}), x.time[1]) if x.time and isinstance(x.time[0], Lin) else None)
        if isinstance(x, Unk):
            return Unk(toprev(clean(x.deps, e)), x.why)
        if isinstance(x, Tup):
            return Tup([self.fromprev(y, toprev, clean, e, jn, prev) for y in x.items], x.islist)
        return x

    def fromend(self, x, toend, clean, e, jn, last):
        if isinstance(x, Num):
            return Num(x.lin, toend(clean(x.deps, e)), x.isint, const=x.const,
                       time=(x.time[0].sub({jn: last}), x.time[1]) if x.time and isinstance(x.time[0], Lin) else None)
        if isinstance(x, Unk):
            return Unk(toend(clean(x.deps, e)), x.why)
        if isinstance(x, Tup):
            return Tup([self.fromend(y, toend, clean, e, jn, last) for y in x.items], x.islist)
        return x

    def loopcover(self, A, b, ends, h, jn, j, lo, hi, step, klo_, khi_, definite, inv, headlin, st, ex, T):
        extra, unk = [], False
        base = set(h.heap[b].cover or ())
        sets = []
        for e in ends:
            B = e.heap.get(b)
            c = set(B.cover or ()) - base if B is not None and B.cover is not None else set()
            sets.append((c, e))
        allc = set().union(*[c for c, _ in sets]) if sets else set()
        for ent in sorted(allc, key=repr):
            have = [e for c, e in sets if ent in c]
            miss = [e for c, e in sets if ent not in c]
            # a path that writes a superset interval also counts
            miss = [e for e in miss if not any(prove(e.facts, ent[0] - x[0]) and prove(e.facts, x[1] - ent[1]) for c, e2 in sets if e2 is e for x in c)]
            a, z = ent
            if any("#" in x and int(x.rsplit("#", 1)[1]) > int(jn.rsplit("#", 1)[1]) and x not in [s for l in headlin.values() for s in l.syms()] for x in a.syms() + z.syms()):
                if a == z - 1 and not any(s in self.free for s in a.syms()):
                    unk = True
                else:
                    unk = True
                continue
            cj = a.coef(jn)
            hv = [n for n, l in headlin.items() if inv[n][0] == "range" and any(s in a.syms() for s in l.syms())]
            if hv:
                continue        # counter idiom handled below
            if not miss:
                if cj in (1, -1) and z.coef(jn) == cj and prove(st.facts, z - a - 1):
                    if cj == 1:
                        extra.append((a.sub({jn: klo_}), z.sub({jn: khi_})))
                    else:
                        extra.append((a.sub({jn: khi_}), z.sub({jn: klo_})))
                elif cj == 0 and z.coef(jn) == 0:
                    if definite:
                        extra.append(ent)
                    else:
                        unk = True
                elif cj == 0 and z.coef(jn) == 1:
                    extra.append((a, z.sub({jn: khi_})))
                else:
                    unk = True
                continue
            if any(e.opaque - h.opaque for e in miss + have):
                unk = True
                continue
            # guarded by a bound on the loop variable?
            done = False
            if cj in (1, -1) and z.coef(jn) == cj:
                for f in have[0].facts:
                    if f in h.facts or f.coef(jn) not in (1, -1):
                        continue
                    if all(prove(e.facts, f) for e in have) and all(prove(e.facts, -f - 1) for e in miss):
                        c = f.coef(jn)
                        bound = (f - Lin(((jn, c),), 0)).scale(-c)     # j >= bound (c=1) / j <= bound (c=-1)
                        if c == 1 and prove(st.facts, bound - klo_):
                            rr = (bound, khi_)
                        elif c == -1 and prove(st.facts, khi_ - bound):
                            rr = (klo_, bound)
                        else:
                            unk = True
                            done = True
                            break
                        if cj == 1:
                            extra.append((a.sub({jn: rr[0]}), z.sub({jn: rr[1]})))
                        else:
                            extra.append((a.sub({jn: rr[1]}), z.sub({jn: rr[0]})))
                        done = True
                        break
            if not done:
                # genuinely conditional: some path leaves the cell unwritten
                if any(e.facts != h.facts and not all(f in h.facts for f in e.facts) and not e.ctl - h.ctl for e in miss) and not any(e.ctl - h.ctl for e in miss):
                    pass
        # counter idiom
        for n, l in headlin.items():
            if inv[n][0] != "range":
                continue
            hvs = l.syms()[0]
            if not any(hvs in x[0].syms() for c, _ in sets for x in c):
                continue
            for e0 in (0, 1):
                ok = True
                for c, e in sets:
                    d = (self.tolin(e.env[n]) - l).const if self.tolin(e.env.get(n)) is not None else None
                    if d is None:
                        ok = False
                        break
                    for t in range(d):
                        p = l + e0 + t
                        if (p, p + 1) not in c:
                            ok = False
                            break
                    if not ok:
                        break
                if ok:
                    v = ex.env.get(n)
                    if isinstance(v, Num) and v.lin is not None:
                        extra.append((st.env[n].lin + e0, v.lin + e0))
                    break
            else:
                pass
        return extra, unk

    # -- while
    def st_While(self, node, st):
        h0 = st.copy()
        symno = self.n

        def runp(head):
            es, bs, exits = [], [], []
            for t, s, d, k in self.cond(node.test, head):
                if not t:
                    exits.append((s, d))
                    continue
                if d:
                    s = s.copy() if s is head else s
                    s.ctl = dunion(s.ctl, d)
                s.guards = head.guards
                e, b = self.body(node.body, s, not self.rec)
                es += e
                bs += b
            return es, bs, exits
        es, bs, _ = self.quiet(lambda: runp(h0.copy()))
        names, bids = self.changed(h0, es + bs)
        havoc = {}
        h1 = h0.copy()
        for n in names:
            v = st.env.get(n)
            if isinstance(v, Num) and v.lin is not None and not v.cond:
                s_ = self.fresh("w", True)
                havoc[n] = s_
                h1.env[n] = Num(sym(s_), v.deps, v.isint)
            elif isinstance(v, Num):
                h1.env[n] = Num(None, v.deps, v.isint)
        for b in bids:
            A = st.heap.get(b)
            if isinstance(A, ArrS) and A.kind == "list":
                h1.heap[b] = A.w(ln=sym(self.fresh("hl")))
        es1, _, _ = self.quiet(lambda: runp(h1.copy()))
        facts = []
        prevmap = {}
        # the exits of a `while True` are not described by its test: the counter's range stays unknown
        endless = isinstance(node.test, ast.Constant)
        for n, s_ in havoc.items():
            ds_ = []
            for e in es1:
                l = self.tolin(e.env.get(n))
                ds_.append((l - sym(s_)).const if l is not None else None)
            init = st.env[n].lin
            if ds_ and None not in ds_:
                if min(ds_) >= 0:
                    facts.append(sym(s_) - init)
                if max(ds_) <= 0:
                    facts.append(init - sym(s_))
                if min(ds_) >= 1:
                    prevmap[s_] = sym(s_) - min(ds_)
                if max(ds_) <= -1:
                    prevmap[s_] = sym(s_) - max(ds_)
            if endless or not ds_ or None in ds_:
                self.free.discard(s_)
                self.nonfree.add(s_)
        # relational candidates (Houdini): differences of carried ints, relaxed loop condition bounds
        cand = []
        items = list(havoc.items())
        for a in range(len(items)):
            for b2 in range(len(items)):
                if a == b2:
                    continue
                (n1, s1), (n2, s2) = items[a], items[b2]
                d0 = (st.env[n1].lin - st.env[n2].lin)
                cand.append(sym(s1) - sym(s2) - d0)
        for t, s, d, k in self.quiet(lambda: self.cond(node.test, h1.copy())):
            if t:
                for f in s.facts:
                    if f not in h1.facts and any(x in havoc.values() for x in f.syms()):
                        cand += [f, f + 1, f + 2]
        # parameter-range candidates: s <= len etc. from entry facts
        for n, s_ in items:
            for f in st.facts:
                for x in f.syms():
                    pass
        inits = {s_: st.env[n].lin for n, s_ in items}
        good = [f for f in cand if prove(st.facts, f.sub(inits))]
        changed = True
        while changed and good:
            changed = False
            keep = []
            for f in good:
                ok = True
                for e in es1:
                    m = {}
                    bad = False
                    for n, s_ in items:
                        l = self.tolin(e.env.get(n))
                        if l is None:
                            if s_ in f.syms():
                                bad = True
                            continue
                        m[s_] = l
                    if bad or not prove(e.facts + tuple(facts) + tuple(good), f.sub(m)):
                        ok = False
                        break
                if ok:
                    keep.append(f)
                else:
                    changed = True
            good = keep
        facts += good

        def toprev(d):
            return dsub(d, prevmap) if prevmap else d

        def clean(deps, e):
            out = set()
            hs = set(havoc.values())
            for d in deps:
                def c(b, up):
                    if not isinstance(b, Lin):
                        return b
                    loc = [x for x in b.syms() if "#" in x and x not in hs and int(x.rsplit("#", 1)[1]) > symno]
                    if not loc:
                        return b
                    for s_ in hs:
                        for tgt in (sym(s_), sym(s_) + 1):
                            if up and prove(e.facts, tgt - b):
                                return tgt
                            if not up and prove(e.facts, b - tgt):
                                return tgt
                    return UNK
                out.add(Dep(d.role, c(d.lo, False), c(d.hi, True), d.tags))
            return dnorm(out)

        def build(prevends):
            h = st.copy()
            h.add(*facts)
            for n in names:
                v0 = st.env.get(n)
                vals = [(e.env.get(n), e) for e in prevends]
                v = v0
                for x, e in vals:
                    if x is None:
                        continue
                    if isinstance(x, Num):
                        x2 = Num(x.lin, toprev(clean(x.deps, e)), x.isint, const=x.const)
                    elif isinstance(x, Unk):
                        x2 = Unk(toprev(clean(x.deps, e)), x.why)
                    else:
                        x2 = x
                    v = x2 if v is None else self.joinv(v, x2, st, e)
                if n in havoc:
                    v = Num(sym(havoc[n]), vdeps(v) if isinstance(v, (Num, Unk)) else NOD, getattr(v0, "isint", None))
                elif isinstance(v, Num):
                    v = Num(v.lin if isinstance(v0, Num) and v.lin == v0.lin else (sym(self.fresh("wv")) if v.lin is not None else None), v.deps, v.isint)
                if v0 is None and n not in havoc:
                    h.env.pop(n, None)
                    if v is not None:
                        h.env[n] = v
                elif v is not None:
                    h.env[n] = v
            for b in bids:
                A = st.heap[b]
                if isinstance(A, dict):
                    cur = dict(A)
                    for e in prevends:
                        for kk, vv in e.heap[b].items():
                            if cur.get(kk) is not vv:
                                cur[kk] = self.joinv(cur[kk], vv, st, e) if kk in cur else vv
                    h.heap[b] = cur
                    continue
                ps, evt, mu = list(A.pieces), list(A.evt), A.mayunk
                for e in prevends:
                    B = e.heap.get(b)
                    if B is None:
                        continue
                    for p in B.pieces:
                        if p in A.pieces:
                            continue
                        d = clean(p.deps, e)
                        klo, khi = p.klo, p.khi
                        hsy = [x for x in (klo.syms() if klo is not None else []) if x in havoc.values()]
                        if klo is not None and klo == khi and len(hsy) == 1:
                            s_ = hsy[0]
                            n_ = [n for n, q in havoc.items() if q == s_][0]
                            klo = klo.sub({s_: st.env[n_].lin})
                            khi = khi.sub(prevmap)
                            if klo.coef(s_) < 0:
                                klo, khi = None, None
                        elif hsy:
                            klo = khi = None
                        ps.append(Piece(klo, khi, toprev(d)))
                    evt += list(B.evt)
                    mu = True
                h.heap[b] = A.w(pieces=merge_pieces(ps), evt=tuple(dict.fromkeys(evt))[-12:], mayunk=True if A.cover is not None else mu,
                                ln=A.ln if A.kind != "list" else sym(self.fresh("hl")), dtype=prevends[0].heap[b].dtype if prevends else A.dtype)
            return h
        ends = es1
        psig = None
        hprev = None
        for it in range(6):
            h = build(ends)
            if it >= 2:
                self.widen_head(h, hprev, names, bids)
            hprev = h
            sg = self.headsig(h, names, bids)
            if sg == psig:
                break
            psig = sg
            ends, _b, _x = self.quiet(lambda: runp(h.copy()))
        ends, brks, exits = runp(h.copy())
        outs = []
        istrue = isinstance(node.test, ast.Constant) and node.test.value
        for s, d in exits:
            s.ctl = st.ctl
            s.guards = st.guards
            outs.append(s)
        if node.orelse:
            outs = self.block(node.orelse, outs)
        for b in brks:
            b.ctl = st.ctl
            b.guards = st.guards
            outs.append(b)
        return self.live(outs)


def _projl(x, s, a, b, up):
    c = x.coef(s)
    if c == 0:
        return x
    tgt = (b if c > 0 else a) if up else (a if c > 0 else b)
    return x.sub({s: tgt})

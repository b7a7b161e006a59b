"""Model of the pandas vocabulary: which rows of which column a row of the result may depend on, the index and the name it carries."""
from __future__ import annotations
import ast
from .lin import Lin, L, sym, prove, infeasible
from .vals import *
from . import vals as _v


class PdM:
    """series metadata: index kind, label row of its first element, direction, name (None: not known)"""
    __slots__ = ("index", "roff", "rev", "name")

    def __init__(self, index="row", roff=L(0), rev=False, name=None):
        self.index, self.roff, self.rev, self.name = index, roff, rev, name

    def w(self, **k):
        n = PdM(self.index, self.roff, self.rev, self.name)
        for a, b in k.items():
            setattr(n, a, b)
        return n

    def same_rows(self, o):
        return self.index == o.index and self.roff == o.roff and self.rev == o.rev and self.roff is not None

    def __eq__(self, o):
        return isinstance(o, PdM) and (self.index, self.roff, self.rev, self.name) == (o.index, o.roff, o.rev, o.name)

    def __hash__(self):
        return hash((self.index, self.rev, self.name))


class Lab:
    """the index label of one row (also: start-of-day label of the day that begins at that row)"""
    __slots__ = ("row",)

    def __init__(self, row):
        self.row = row


class Op:
    """an intermediate pandas object: rolling / ewm / groupby / resample ..."""
    __slots__ = ("kind", "base", "par")

    def __init__(self, kind, base, par):
        self.kind, self.base, self.par = kind, base, par


SER_ELEM = {"abs", "astype", "copy", "round", "clip", "where", "mask", "fillna", "replace", "isna", "isnull", "notna", "notnull", "add", "sub",
            "mul", "div", "truediv", "floordiv", "mod", "pow", "radd", "rsub", "rmul", "rdiv", "rtruediv", "gt", "lt", "ge", "le", "eq", "ne",
            "apply", "map", "between", "isin", "rename", "infer_objects", "convert_dtypes", "dt", "transform", "combine_first", "mul_", "divide",
            "multiply", "subtract", "to_frame", "total_seconds", "floor", "normalize", "set_axis", "pipe", "combine"}
SER_CUM = {"cumsum", "cumprod", "cummax", "cummin", "ffill", "pad", "expanding"}
SER_ALL = {"bfill", "backfill", "interpolate", "rank", "sort_values", "argsort", "sample", "mode"}
SER_RED = {"sum", "mean", "std", "var", "min", "max", "median", "prod", "quantile", "skew", "kurt", "kurtosis", "any", "all", "count", "nunique",
           "idxmax", "idxmin", "argmax", "argmin", "first_valid_index", "last_valid_index", "sem", "corr", "cov", "autocorr", "dot", "item"}
WIN_RED = {"sum", "mean", "std", "var", "min", "max", "median", "quantile", "skew", "kurt", "count", "apply", "corr", "cov", "rank", "sem", "agg", "aggregate"}
DAYKEYS = ("D", "1D", "d", "24h", "24H", "B")


class PdModel:
    def __init__(self, eng):
        self.e = eng
        self.cols = {}
        eng.pd = self

    # ------------------------------------------------------------------ frames
    def frame(self, st, n, cols):
        """the caller's frame: length n, sorted DatetimeIndex, exactly the columns `cols`"""
        bid = self.e.newbid()
        d = Df(bid, "row")
        d.off, d.ln = L(0), n
        self.n = n
        self.ts = self.e.newbid()
        st.heap[self.ts] = ArrS(n, (Piece(None, None, frozenset([Dep("ts", KL, KL)])),), None, role="ts", param=True, dtype="time", mono=True)
        h = {"@closed": True, "@param": True}
        for c in cols:
            b = self.e.newbid()
            st.heap[b] = ArrS(n, (Piece(None, None, frozenset([Dep(c, KL, KL)])),), None, role=c, param=True, dtype="float")
            h[c] = Arr(b, L(0), n, 1, PdM(name=c))
        st.heap[bid] = h
        self.st0 = st
        return d

    def member(self, name, b):
        """is `name` among the columns b?  None: not known"""
        if isinstance(b, Op) and b.kind == "columns":
            return b.par.get(name, False) if "{?}" not in name else None
        if isinstance(b, (Df,)):
            return None
        return None

    def reindexed(self, idx, pd):
        if isinstance(idx, Idx):
            return pd.w(index="row", roff=idx.pd[1], rev=False)
        return pd.w(index="unknown", roff=None)

    def sub(self, df, off, ln):
        d = Df(df.bid, df.pd)
        d.off, d.ln = off, ln
        return d

    def column(self, df, name, st):
        h = st.heap.get(df.bid, {})
        if name in h:
            v = h[name]
            if isinstance(v, Arr) and (df.off != L(0) or v.ln != df.ln) and v.off is not None:
                return Arr(v.bid, v.off + df.off, df.ln, 1, v.pd.w(roff=df.off) if v.pd else None)
            return v
        return Unk(why="column " + str(name))

    def length(self, a):
        if isinstance(a, Df):
            return a.ln
        return a.pd[2] if isinstance(a.pd, tuple) else None

    def index_of(self, b):
        if b.pd.index != "row":
            return Unk(why="index")
        return Idx(("row", b.pd.roff, b.ln))

    def tsview(self, idx):
        k, off, ln = idx.pd
        return Arr(self.ts, off, ln, 1)

    # ------------------------------------------------------------------ helpers
    def fresh_series(self, st, ln, pieces, node, pd, dtype=None):
        bid = self.e.alloc(st, ln, pieces, node, dtype=dtype)
        return Arr(bid, L(0), ln, 1, pd)

    def window(self, v, st, lo, hi):
        """cell k uses cells k-lo .. k-hi of v; lo None: from the first cell; lo 'unk': unknown start; hi 'unk' unknown end; hi 'all': to the end"""
        out = []
        for p in self.e.view_pieces(v, st):
            a = L(0) if lo is None else (None if lo == "unk" else KL - lo)
            b = None if hi == "unk" else (KL - hi if hi != "all" else None)
            if hi == "all":
                d = frozenset(Dep(x.role, TOP, TOP, x.tags) if any(isinstance(l, Lin) and K in l.syms() for l in (x.lo, x.hi)) else x for x in p.deps)
                out.append(Piece(None, None, d))
                continue
            d = dproj(p.deps, K, a, b)
            klo = p.klo + hi if p.klo is not None and hi != "unk" else None
            khi = p.khi + lo if p.khi is not None and isinstance(lo, Lin) else None
            if d:
                out.append(Piece(klo, khi, d))
        return out

    def blurred(self, v, st):
        return frozenset(Dep(x.role, UNK, UNK, x.tags) for x in vdeps(v, st))

    def unk_series(self, v, st, node, ln=None, pd=None):
        d = self.blurred(v, st)
        return self.fresh_series(st, ln, [Piece(None, None, d)] if d else [], node, pd)

    def sval(self, v):
        return v.s if isinstance(v, Str) else None

    def lin(self, v):
        return self.e.tolin(v) if v is not None else None

    def names(self, v):
        """list of column names, or None"""
        if isinstance(v, Str):
            return [v.s] if v.s is not None else None
        if isinstance(v, Tup) and all(isinstance(x, Str) and x.s is not None for x in v.items):
            return [x.s for x in v.items]
        return None

    # ------------------------------------------------------------------ attributes
    def attr(self, b, a, node, st):
        if isinstance(b, Df):
            if a == "index":
                return [(Idx(("row", b.off, b.ln)), st)]
            if a in ("iloc", "loc", "iat", "at"):
                return [(Tup([Str("@" + a), b]), st)]
            if a == "columns":
                return [(Op("columns", NONE, {k: True for k in st.heap.get(b.bid, {}) if not k.startswith("@")}), st)]
            if a == "shape":
                return [(Tup([Num(b.ln, isint=True), Num(sym(self.e.fresh("ncol")), isint=True)]), st)]
            if a == "empty":
                return [(Num(const=False, isint=False, cond=((False, (), False, (), None),)), st)]
            if a in ("values",):
                return [(Unk(vdeps(b, st), "df.values"), st)]
            h = st.heap.get(b.bid, {})
            if a in h:
                return [(self.column(b, a, st), st)]
            return None
        if isinstance(b, Idx):
            if a in ("values", "array", "asi8"):
                return [(self.tsview(b), st)]
            if a == "is_monotonic_increasing":
                return [(Num(const=True, isint=False, cond=((True, (), False, (), None),)), st)]
            if a in ("is_monotonic_decreasing", "has_duplicates"):
                return [(Unk(why=a), st)]
            if a in ("size",):
                return [(Num(b.pd[2], isint=True), st)]
            if a in ("hour", "minute", "second", "day", "month", "year", "dayofweek", "weekday", "date", "dayofyear", "time"):
                v = self.tsview(b)
                r = self.e.elementwise([v], st, node)
                return [(Arr(r.bid, r.off, r.ln, 1, None), st)] if a != "date" else [(Op("daykey", b, {}), st)]
            if a in ("name", "dtype", "tz", "freq"):
                return [(Unk(why=a), st)]
            return None
        if isinstance(b, Lab):
            if a in ("year", "month", "day"):
                return [(Op("daypart", b, {"p": a}), st)]
            if a in ("hour", "minute", "second", "value", "dayofweek", "tz", "tzinfo", "microsecond"):
                return [(Num(None, frozenset([Dep("ts", b.row, b.row)])), st)]
            return None
        if isinstance(b, Arr) and b.pd:
            if a in ("is_monotonic_increasing", "is_monotonic_decreasing", "is_unique", "hasnans"):
                return [(Num(None, proj_all(st.heap[b.bid], b, st)), st)]
            if a == "empty":
                return [(Num(const=False, isint=False, cond=((False, (), False, (), None),)), st)]
            if a in ("days", "seconds", "hour", "minute", "day", "month", "year", "dayofweek", "weekday", "date"):
                return [(self.e.elementwise([b], st, node), st)]
        if isinstance(b, Op) and b.kind in ("rolling", "groupby", "resample", "ewm", "expanding") and isinstance(b.base, Df):
            # column selection on the grouped object: g.col
            return None
        return None

    # ------------------------------------------------------------------ subscripts
    def getitem(self, b, sl, node, st):
        if isinstance(b, Idx):
            if isinstance(sl, ast.Slice):
                outs = []
                for v, s in self.e.slice_view(self.tsview(b), sl, node, st):
                    outs.append((Idx(("row", v.off, v.ln)) if v.bid == self.ts else Unk(why="idx"), s))
                return outs
            outs = []
            for v, s in self.e.ev(sl, st):
                l = self.lin(v)
                if l is None:
                    outs.append((Unk(why="label"), s))
                    continue
                for pos, s2 in self.e.position(self.tsview(b), l, node, s, "r"):
                    outs.append((Lab(pos), s2))
            return outs
        if isinstance(b, Df):
            if isinstance(sl, ast.Slice):
                return self.rowslice(b, sl, node, st)
            outs = []
            for v, s in self.e.ev(sl, st):
                if isinstance(v, Str):
                    outs.append((self.column(b, v.s, s) if v.s is not None else Unk(vdeps(b, s), "col"), s))
                elif isinstance(v, Tup) and self.names(v) is not None:
                    outs.append((self.select(b, self.names(v), s), s))
                elif isinstance(v, Arr):
                    outs.append((Unk(frozenset(Dep(x.role, UNK, UNK) for x in vdeps(v, s)), "df[mask]"), s))
                else:
                    outs.append((Unk(vdeps(b, s), "df[]"), s))
            return outs
        return [(Unk(vdeps(b, st), "sub"), st)]

    def select(self, b, names, st):
        bid = self.e.newbid()
        st.heap[bid] = {n: self.column(b, n, st) for n in names}
        st.heap[bid]["@closed"] = True
        d = Df(bid, b.pd)
        d.off, d.ln = L(0), b.ln
        return d

    def rowslice(self, b, sl, node, st):
        outs = []
        for v, s in self.e.slice_view(Arr(self.ts, b.off, b.ln), sl, node, st):
            if v.bid == self.ts and v.off is not None and v.step == 1:
                outs.append((self.sub(b, v.off, v.ln), s))
            else:
                outs.append((Unk(vdeps(b, s), "rows"), s))
        return outs

    def lab_bounds(self, sl, st, roff, ln):
        """positions of a label slice with known rows -> (lo, hi_exclusive) or None"""
        lo, hi = L(0), ln
        if sl.lower is not None:
            v = self.e.ev(sl.lower, st)[0][0]
            if not isinstance(v, Lab):
                return None
            lo = v.row - roff
        if sl.upper is not None:
            v = self.e.ev(sl.upper, st)[0][0]
            if not isinstance(v, Lab):
                return None
            hi = v.row - roff + 1
        return lo, hi

    def loc(self, kind, b, sl, node, st):
        if kind in ("@iloc", "@iat"):
            if isinstance(b, Arr):
                return self.e.subscript(b, sl, node, st)
            if isinstance(b, Df):
                if isinstance(sl, ast.Slice):
                    return self.rowslice(b, sl, node, st)
                if isinstance(sl, ast.Tuple):
                    return [(Unk(vdeps(b, st), "iloc2"), st)]
                outs = []
                for v, s in self.e.ev(sl, st):
                    outs.append((Op("row", b, {"pos": self.lin(v)}), s))
                return outs
            return [(Unk(vdeps(b, st)), st)]
        # label based
        col = None
        if isinstance(sl, ast.Tuple) and len(sl.elts) == 2:
            col = self.e.ev(sl.elts[1], st)[0][0]
            sl = sl.elts[0]
            if isinstance(b, Df) and isinstance(col, Str) and col.s is not None:
                b = self.column(b, col.s, st)
        if isinstance(b, Arr) and b.pd:
            if isinstance(sl, ast.Slice):
                if sl.lower is None and sl.upper is None:
                    return [(b, st)]
                r = self.lab_bounds(sl, st, b.pd.roff, b.ln)
                if r is not None:
                    return [self.e.mkview(b, r[0], r[1], st)]
                return [(self.unk_series(b, st, node), st)]
            outs = []
            for v, s in self.e.ev(sl, st):
                if isinstance(v, Lab) and b.pd.roff is not None and not b.pd.rev:
                    outs.extend(self.e.read(b, Num(v.row - b.pd.roff, isint=True), v.row - b.pd.roff, node, s))
                elif isinstance(v, Arr):
                    outs.extend(self.e.subscript(b, sl, node, s))
                else:
                    outs.append((Num(None, self.blurred(b, s)), s))
            return outs
        if isinstance(b, Df) and isinstance(sl, ast.Slice):
            if sl.lower is None and sl.upper is None:
                return [(b, st)]
            r = self.lab_bounds(sl, st, b.off, b.ln)
            if r is not None:
                return [(self.sub(b, b.off + r[0], r[1] - r[0]), st)]
        return [(Unk(frozenset(Dep(d.role, UNK, UNK) for d in vdeps(b, st)), "loc"), st)]

    def setloc(self, kind, b, sl, v, t, st):
        if kind in ("@iloc", "@iat"):
            if isinstance(b, Arr):
                t2 = ast.Subscript(value=t.value, slice=sl, ctx=t.ctx)
                ast.copy_location(t2, t)
                return self.e.assign_sub(b, t2, v, st)
            return [st]
        if isinstance(sl, ast.Tuple) and len(sl.elts) == 2 and isinstance(b, Df):
            col = self.e.ev(sl.elts[1], st)[0][0]
            if isinstance(col, Str) and col.s is not None:
                b = self.column(b, col.s, st)
            sl = sl.elts[0]
        if isinstance(b, Arr):
            if isinstance(sl, ast.Slice):
                if sl.lower is None and sl.upper is None:
                    t2 = ast.copy_location(ast.Subscript(value=t.value, slice=sl, ctx=t.ctx), t)
                    return self.e.assign_sub(b, t2, v, st)
                return self.blurwrite(b, v, st)
            outs = []
            for lv, s in self.e.ev(sl, st):
                if isinstance(lv, Lab) and b.pd and b.pd.roff is not None:
                    outs.extend(self.e.write(b, lv.row - b.pd.roff, v, t, s))
                elif isinstance(lv, Arr) and s.heap[lv.bid].dtype == "bool":
                    t2 = ast.copy_location(ast.Subscript(value=t.value, slice=sl, ctx=t.ctx), t)
                    outs.extend(self.e.assign_sub(b, t2, v, s))
                else:
                    outs.extend(self.blurwrite(b, v, s))
            return outs
        return [st]

    def blurwrite(self, b, v, st):
        A = st.heap[b.bid]
        d = frozenset(Dep(x.role, UNK, UNK, x.tags) for x in dunion(vdeps(v, st), st.ctl))
        if A.param:
            self.e.note("mutate", "bad", self.e.fr.fn, f"writes into the caller's column {A.role}", key=f"{A.role}")
        st.heap[b.bid] = A.w(pieces=merge_pieces(A.pieces + ((Piece(None, None, d),) if d else ())), mayunk=True)
        return [st]

    def setitem(self, b, sl, v, t, st):
        if isinstance(b, Df):
            outs = []
            for kv, s in self.e.ev(sl, st):
                h = dict(s.heap.get(b.bid, {}))
                if h.get("@param"):
                    self.e.note("mutate", "bad", t, "adds or replaces a column of the caller's frame", key="frame")
                if isinstance(kv, Str) and kv.s is not None:
                    if isinstance(v, Arr):
                        nm = (v.pd or PdM()).w(name=kv.s)
                        h[kv.s] = Arr(v.bid, v.off, v.ln, v.step, nm)
                    else:
                        d = vdeps(v, s)
                        h[kv.s] = self.fresh_series(s, b.ln, [Piece(None, None, d)] if d else [], t, PdM(name=kv.s, roff=b.off))
                    s.heap[b.bid] = h
                outs.append(s)
            return outs
        return None

    # ------------------------------------------------------------------ methods
    def result(self, v, st, pieces, node, name="keep", dtype=None):
        pd = v.pd or PdM()
        if name != "keep":
            pd = pd.w(name=name)
        return self.fresh_series(st, v.ln, pieces, node, pd, dtype)

    def series_method(self, b, m, args, kw, node, st):
        e = self.e
        A = st.heap.get(b.bid)
        a0 = args[0] if args else None

        def one(r):
            return [(r, st)]
        if "inplace" in kw and not (isinstance(kw["inplace"], Num) and kw["inplace"].const is False):
            if A is not None and A.param:
                e.note("mutate", "bad", node, f"in-place {m} on the caller's column {A.role}", key=f"{A.role}")
            return one(NONE)
        if isinstance(A, ArrS) and A.kind == "masked":
            ix = a0 if a0 is not None else kw.get("index")
            if m == "reindex" and isinstance(ix, Idx):
                a0 = ix
                return one(self.fresh_series(st, a0.pd[2], list(A.pieces), node, PdM(roff=a0.pd[1], name=b.pd.name if b.pd else None)))
            if m not in SER_ELEM and m not in SER_RED and b.pd:
                b = self.unk_series(b, st, node, None, b.pd.w(index="filtered"))
                A = st.heap[b.bid]
        if m in ("shift", "diff", "pct_change"):
            p = a0 if a0 is not None else kw.get("periods")
            if "freq" in kw:
                return one(self.unk_series(b, st, node, b.ln, b.pd))
            l = L(1) if p is None else self.lin(p)
            if l is None:
                return one(self.unk_series(b, st, node, b.ln, b.pd))
            ps = self.window(b, st, l, l)
            if "fill_value" in kw:
                d = vdeps(kw["fill_value"], st)
                if d:
                    ps.append(Piece(None, None, d))
            if m != "shift":
                ps += e.view_pieces(b, st)
                if m == "pct_change" and False:
                    ps += []
            return one(self.result(b, st, ps, node))
        if m in ("rolling", "ewm", "expanding"):
            par = dict(kw)
            if a0 is not None and m == "rolling":
                par["window"] = a0
            return one(Op(m, b, par))
        if m == "groupby":
            return one(self.groupby(b, a0 if a0 is not None else kw.get("by"), kw, node, st))
        if m == "resample":
            return one(Op("resample", b, {"rule": self.sval(a0 if a0 is not None else kw.get("rule"))}))
        if m in SER_CUM:
            return one(self.result(b, st, self.window(b, st, None, L(0)), node))
        if m in SER_ALL or (m == "fillna" and self.sval(kw.get("method")) in ("bfill", "backfill")):
            return one(self.result(b, st, self.window(b, st, None, "all"), node))
        if m == "fillna" and self.sval(kw.get("method")) in ("ffill", "pad"):
            return one(self.result(b, st, self.window(b, st, None, L(0)), node))
        if m == "rename" and isinstance(a0 or kw.get("index"), Str):
            s = self.sval(a0 or kw.get("index"))
            return one(Arr(b.bid, b.off, b.ln, b.step, b.pd.w(name=s)))
        if m in SER_ELEM:
            extra = [x for x in list(args) + [kw[k] for k in ("lower", "upper", "other", "value", "cond", "fill_value") if k in kw] if isinstance(x, (Arr, Num, Unk))]
            extra = [x for x in extra if not isinstance(x, Fn)]
            r = e.elementwise([b] + extra, st, node, "bool" if m in ("isna", "notna", "isnull", "notnull", "gt", "lt", "ge", "le", "eq", "ne", "between", "isin") else None)
            if A is not None and A.dtype == "time" and m in ("astype", "copy"):
                st.heap[r.bid] = st.heap[r.bid].w(dtype="time", role=A.role)
            return one(Arr(r.bid, r.off, r.ln, r.step, b.pd))
        if m == "sort_index":
            asc = kw.get("ascending")
            if asc is not None and not (isinstance(asc, Num) and asc.const is True):
                return one(self.unk_series(b, st, node, b.ln, b.pd.w(roff=None)))
            r = e.elementwise([b], st, node)
            return one(Arr(r.bid, r.off, r.ln, r.step, b.pd))
        if m == "reindex":
            a0 = a0 if a0 is not None else kw.get("index")
            if not isinstance(a0, Idx):
                return one(self.unk_series(b, st, node, None, None))
            if b.pd and b.pd.index == "row":
                return one(Arr(b.bid, b.off, b.ln, b.step, b.pd))
            return one(self.unk_series(b, st, node, a0.pd[2], PdM(roff=a0.pd[1], name=b.pd.name if b.pd else None)))
        if m in SER_RED:
            d = proj_all(A, b, st)
            for x in args:
                d = dunion(d, vdeps(x, st))
            return one(Num(None, d))
        if m in ("to_numpy", "tolist", "to_list"):
            if m == "to_numpy" and "copy" in kw:
                r = e.elementwise([b], st, node)
                return one(Arr(r.bid, r.off, r.ln, r.step))
            return one(Arr(b.bid, b.off, b.ln, b.step))
        if m in ("items", "iteritems"):
            return one(Op("seritems", b, {}))
        if m in ("dropna", "drop_duplicates") and b.pd and b.pd.index in ("row", "filtered"):
            bid = e.alloc(st, b.ln, e.view_pieces(b, st), node, kind="masked", dtype=A.dtype if A is not None else None)
            return one(Arr(bid, L(0), None, 1, b.pd.w(index="filtered")))
        if m in ("dropna", "drop_duplicates", "loc", "head", "tail", "drop"):
            return one(self.unk_series(b, st, node))
        if m in ("reset_index",):
            return one(Arr(b.bid, b.off, b.ln, b.step, b.pd.w(index="other")))
        return None

    # ---- group / resample keys
    def daykey(self, k, st):
        if isinstance(k, Op) and k.kind in ("daykey", "grouper"):
            return True
        return False

    def groupby(self, b, key, kw, node, st):
        if self.daykey(key, st):
            return Op("daygroup", b, {})
        return Op("keygroup", b, {"key": key})

    def win(self, op, m, args, kw, node, st):
        b, par = op.base, op.par
        if not isinstance(b, Arr):
            return [(Unk(vdeps(b, st), "rolling frame"), st)]
        srcs = [b] + [a for a in list(args) + [kw[k] for k in ("other",) if k in kw] if isinstance(a, Arr)]
        if op.kind in ("ewm", "expanding"):
            lo, hi = None, L(0)
        else:
            w = par.get("window")
            l = self.lin(w) if w is not None else None
            if w is None or (isinstance(w, Num) and w.isint and l is None):
                lo = "unk"
            elif l is None:
                lo = "unk"          # time window
            else:
                lo = l - 1
            hi = L(0)
            c = par.get("center")
            if c is not None and not (isinstance(c, Num) and c.const is False):
                if l is not None:
                    hf = self.e.divsym("//", l - 1, 2, st) if hasattr(self.e, "divsym") else None
                    if l.const is not None:
                        hf = L((l.const - 1) // 2)
                    if isinstance(hf, Lin):
                        hi = -hf
                    else:
                        hi = L(-1)
                        st.add(l - 3)
                else:
                    hi = L(-1)
            cl = self.sval(par.get("closed"))
            if cl in ("left", "neither") and hi == L(0):
                hi = L(1)
            if lo != "unk" and cl in ("left", "both"):
                lo = lo + 1
        ps = []
        for s in srcs:
            ps += self.window(s, st, lo, hi)
        name = "keep"
        return [(self.result(b, st, ps, node, name), st)]

    def method(self, b, m, args, kw, node, st):
        e = self.e
        a0 = args[0] if args else None
        if isinstance(b, Op):
            if b.kind in ("rolling", "ewm", "expanding"):
                if m in WIN_RED:
                    return self.win(b, m, args, kw, node, st)
                return [(self.unk_series(b.base, st, node, getattr(b.base, "ln", None), getattr(b.base, "pd", None)), st)]
            if b.kind == "resample":
                if b.par["rule"] in DAYKEYS and isinstance(b.base, Arr):
                    mode = m if m in ("first", "last") else "any"
                    ps = tuple(e.view_pieces(b.base, st))
                    return [(Day(frozenset(d for p in ps for d in p.deps), ((ps, mode, 0),), 0), st)]
                return [(Unk(self.blurred(b.base, st), "resample"), st)]
            if b.kind in ("daygroup", "keygroup"):
                return self.group_method(b, m, args, kw, node, st)
            if b.kind == "columns":
                return [(Unk(why="columns"), st)]
            return [(Unk(vdeps(b.base, st) if not isinstance(b.base, (Lab, Idx)) else NOD, "op." + m), st)]
        if isinstance(b, Day):
            return self.day_method(b, m, args, kw, node, st)
        if isinstance(b, Lab):
            if m in ("normalize", "floor", "date"):
                return [(b, st)]
            return [(Num(None, frozenset([Dep("ts", b.row, b.row)])), st)]
        if isinstance(b, Idx):
            if m == "to_series":
                v = self.tsview(b)
                return [(Arr(v.bid, v.off, v.ln, 1, PdM(roff=b.pd[1])), st)]
            if m in ("normalize", "floor"):
                return [(Op("daykey", b, {}), st)]
            if m in ("astype", "to_numpy", "view", "copy"):
                return [(self.tsview(b) if m != "copy" else b, st)]
            if m == "searchsorted":
                return e.method_call(self.tsview(b), m, args, kw, node, st)
            if m in ("get_loc",):
                if isinstance(a0, Lab):
                    return [(Num(a0.row - b.pd[1], isint=True), st)]
            if m in ("sort_values",):
                return [(b, st)]
            return [(Unk(why="index." + m), st)]
        if isinstance(b, Df):
            return self.frame_method(b, m, args, kw, node, st)
        if isinstance(b, Num) and m in ("total_seconds", "is_integer", "item", "timestamp"):
            if m == "is_integer":
                return [(Unk(why="is_integer"), st)]
            return [(b.w(isint=False), st)]
        return None

    def frame_method(self, b, m, args, kw, node, st):
        h = st.heap.get(b.bid, {})
        if "inplace" in kw and not (isinstance(kw["inplace"], Num) and kw["inplace"].const is False):
            if h.get("@param"):
                self.e.note("mutate", "bad", node, f"in-place {m} on the caller's frame", key="frame")
            return [(NONE, st)]
        if m in ("sort_index", "copy", "astype", "fillna_") :
            bid = self.e.newbid()
            st.heap[bid] = {k: v for k, v in h.items() if k != "@param"}
            for name, c in list(st.heap[bid].items()):
                if isinstance(c, Arr):
                    r = self.e.elementwise([c], st, node)
                    st.heap[bid][name] = Arr(r.bid, r.off, r.ln, 1, c.pd)
            d = Df(bid, b.pd)
            d.off, d.ln = b.off, b.ln
            return [(d, st)]
        if m == "groupby":
            return [(self.groupby(b, args[0] if args else kw.get("by"), kw, node, st), st)]
        if m == "resample":
            return [(Op("resample", b, {"rule": self.sval(args[0]) if args else None}), st)]
        if m in ("head", "tail", "dropna", "drop", "reset_index", "set_index"):
            return [(Unk(vdeps(b, st), m), st)]
        if m in ("rolling", "ewm", "expanding"):
            return [(Op(m, b, dict(kw)), st)]
        if m == "max" or m == "min" or m in ("sum", "mean", "std"):
            return [(Op("framered", b, {}), st)]
        return [(Unk(vdeps(b, st), "df." + m), st)]

    def group_method(self, g, m, args, kw, node, st):
        b = g.base
        if not isinstance(b, Arr):
            return [(Unk(vdeps(b, st), "group"), st)]
        key = g.par.get("key")
        srcs = [b] + ([key] if isinstance(key, Arr) else [])
        if m in ("cumcount", "cumsum", "cumprod", "cummax", "cummin", "ffill", "ngroup"):
            ps = []
            for s in srcs:
                ps += self.window(s, st, None, L(0))
            return [(self.result(b, st, ps, node, None if m == "cumcount" else "keep"), st)]
        if m == "shift":
            l = self.lin(args[0]) if args else L(1)
            hi = l if l is not None else "unk"
            ps = self.window(b, st, "unk", hi)
            if isinstance(key, Arr):
                ps += self.window(key, st, None, L(0)) if l is not None and prove(st.facts, l) else self.window(key, st, None, "all")
            return [(self.result(b, st, ps, node), st)]
        if m == "transform":
            f = self.sval(args[0]) if args else None
            if f == "first" and g.kind == "daygroup":
                return [(self.result(b, st, self.window(b, st, "unk", L(0)), node), st)]
            if f in ("cumsum", "cummax", "cummin", "cumcount", "cumprod", "ffill"):
                return self.group_method(g, f, [], kw, node, st)
            if f is not None:
                ps = []
                for s in srcs:
                    ps += self.window(s, st, None, "all")
                return [(self.result(b, st, ps, node), st)]
            return [(self.unk_series(b, st, node, b.ln, b.pd), st)]
        if m in ("first", "last", "max", "min", "mean", "sum") and g.kind == "daygroup":
            ps = tuple(self.e.view_pieces(b, st))
            return [(Day(frozenset(d for p in ps for d in p.deps), ((ps, m if m in ("first", "last") else "any", 0),), 0), st)]
        return [(self.unk_series(b, st, node), st)]

    # ---- one value per day
    def daybin(self, a, b, st):
        parts = ()
        deps = set()
        for x in (a, b):
            if isinstance(x, Day):
                parts += tuple(p for p in x.mode if p not in parts)
                deps |= set(x.deps)
            else:
                d = vdeps(x, st)
                deps |= set(d)
                if d:
                    parts += (((Piece(None, None, d),), "fixed", 0),)
        return Day(frozenset(deps), parts, 0)

    def day_method(self, d, m, args, kw, node, st):
        if m in ("shift", "diff", "pct_change"):
            l = self.lin(args[0]) if args else (self.lin(kw["periods"]) if "periods" in kw else L(1))
            c = l.const if l is not None else None
            if c is None:
                return [(Unk(frozenset(Dep(x.role, UNK, UNK) for x in d.deps), "dayshift"), st)]
            sh = tuple((p, mo, s + int(c)) if mo != "fixed" else (p, mo, s) for p, mo, s in d.mode)
            return [(Day(d.deps, sh if m == "shift" else d.mode + sh, 0), st)]
        if m in ("ffill", "fillna", "abs", "copy", "round", "dropna", "clip", "rename", "astype"):
            return [(d, st)]
        if m in ("items", "iteritems"):
            return [(d, st)]
        if m == "reindex":
            idx = args[0] if args else kw.get("index")
            if isinstance(idx, Idx):
                ps = []
                for pieces, mo, sh in d.mode:
                    base = frozenset(x for p in pieces for x in p.deps)
                    if mo == "fixed":
                        ps.append(Piece(None, None, base))
                    elif sh < 0 or (sh == 0 and mo != "first"):
                        ps.append(Piece(None, None, frozenset(Dep(x.role, TOP, TOP, x.tags) for x in base)))
                    else:
                        hi = KL - 1 if sh > 0 else KL
                        ps.append(Piece(None, None, dproj(base, K, None, hi)))
                return [(self.fresh_series(st, idx.pd[2], ps, node, PdM(roff=idx.pd[1])), st)]
        return [(Unk(frozenset(Dep(x.role, UNK, UNK) for x in d.deps), "day." + m), st)]

    # ------------------------------------------------------------------ iteration over days
    def iterate(self, v, node, st):
        return None

    def run_iter(self, node, v, st):
        """`for .. in <per-day object>`: zero, one and two abstract iterations over days [a,b) in order; None if v is not such an object"""
        if isinstance(v, Day):
            kind = "day"
        elif isinstance(v, Op) and v.kind == "daygroup":
            kind = "group"
        else:
            return None
        e = self.e
        states = [st]
        done = [st.copy()]
        prev = None
        facts = []
        for it in range(2):
            a, b = sym(e.fresh("day", True)), sym(e.fresh("dayend", True))
            facts += [a if prev is None else a - prev[1], b - a - 1]
            nxt = []
            for s in states:
                s = s.copy()
                s.add(*facts)
                s.add(self.n - b)
                if s.dead():
                    continue
                if kind == "group":
                    base = v.base
                    if isinstance(base, Df):
                        item = self.sub(base, base.off + a, b - a)
                        lab = Lab(base.off + a)
                    else:
                        item, _ = e.mkview(base, a, b, s)
                        lab = Lab(a)
                else:
                    d = set()
                    for pieces, mo, sh in v.mode:
                        base = frozenset(x for p in pieces for x in p.deps)
                        if mo == "fixed":
                            d |= base
                        elif sh == 0:
                            lo, hi = {"first": (a, a), "last": (b - 1, b - 1)}.get(mo, (a, b - 1))
                            d |= dproj(base, K, lo, hi)
                        elif sh > 0:
                            d |= dproj(base, K, None, a - 1)
                        else:
                            d |= dproj(base, K, b, b)
                    item, lab = Num(None, dnorm(d)), Lab(a)
                for s2 in e.assign(node.target, Tup([lab, item]), s, node):
                    ends, brk = e.body(node.body, s2)
                    for x in ends:
                        x.ctl, x.guards = st.ctl, st.guards      # `continue` only decides about its own round
                    nxt.extend(ends)
                    done.extend(brk)
            states = e.live(nxt)
            done.extend(x.copy() for x in states)
            prev = (a, b)
        for s in done:
            s.add(*facts)
        out = e.live(done)
        while len(out) > 1:
            b = out.pop()
            out[-1] = e.join2(out[-1], b)
        return out

    # ------------------------------------------------------------------ module-level calls
    def modcall(self, n, args, kw, node, st):
        e = self.e
        a0 = args[0] if args else None
        last = n.rsplit(".", 1)[-1]
        if n.startswith("pandas."):
            if last == "Series":
                return [(self.mkseries(a0 if a0 is not None else kw.get("data"), args, kw, node, st), st)]
            if last == "DataFrame":
                return [(self.mkframe(a0 if a0 is not None else kw.get("data"), kw, node, st), st)]
            if last == "Grouper":
                f = self.sval(kw.get("freq"))
                return [(Op("grouper", NONE, {}) if f in DAYKEYS else Unk(why="grouper"), st)]
            if last == "Timestamp":
                labs = {x.base.row for x in args if isinstance(x, Op) and x.kind == "daypart"}
                if len(labs) == 1 and all(isinstance(x, Op) and x.kind == "daypart" for x in args):
                    return [(Lab(labs.pop()), st)]
                if isinstance(a0, Lab) and len(args) == 1:
                    return [(a0, st)]
                return [(Unk(why="timestamp"), st)]
            if last == "Timedelta":
                return [(Num(None, NOD, False, x=("pos", "timedelta")), st)]
            if last == "is_datetime64_any_dtype":
                return [(Num(const=True, isint=False, cond=((True, (), False, (), None),)), st)]
            if last in ("isna", "isnull", "notna", "notnull") and isinstance(a0, Arr):
                return [(e.elementwise([a0], st, node, "bool"), st)]
            if last == "concat":
                return [(Unk(dunion(*[vdeps(x, st) for x in args]), "concat"), st)]
            if last == "to_datetime" and isinstance(a0, (Arr, Idx)):
                return [(a0, st)]
            if last in ("cut", "qcut", "factorize") and isinstance(a0, Arr):
                return [(self.result(a0, st, self.window(a0, st, None, "all"), node), st)]
        if n.startswith("scipy.stats."):
            d = dunion(*[vdeps(x, st) for x in args])
            if last == "linregress":
                return [(Tup([Num(None, d) for _ in range(5)]), st)]
            return [(Num(None, d), st)]
        return None

    def mkseries(self, data, args, kw, node, st):
        idx = kw.get("index", args[1] if len(args) > 1 else None)
        name = kw.get("name", args[3] if len(args) > 3 else None)
        nm = self.sval(name) if name is not None else None
        if isinstance(data, Arr):
            pd0 = data.pd
            if isinstance(idx, Idx):
                if pd0 is not None and (pd0.roff != idx.pd[1] or pd0.rev):
                    return self.unk_series(data, st, node, idx.pd[2], PdM(name=nm, roff=idx.pd[1]))
                pd = PdM(name=nm, roff=idx.pd[1])
            elif idx is None and pd0 is not None:
                pd = pd0.w(name=nm or pd0.name)
            elif idx is None:
                pd = PdM("other", None, False, nm)
            else:
                pd = PdM("unknown", None, False, nm)
            cp = kw.get("copy")
            if cp is not None and isinstance(cp, Num) and cp.const is True:
                r = self.e.elementwise([data], st, node)
                return Arr(r.bid, r.off, r.ln, r.step, pd)
            return Arr(data.bid, data.off, data.ln, data.step, pd)
        ln = idx.pd[2] if isinstance(idx, Idx) else None
        d = vdeps(data, st) if data is not None else NOD
        pd = PdM(name=nm, roff=idx.pd[1]) if isinstance(idx, Idx) else PdM("unknown" if idx is not None else "other", None, False, nm)
        return self.fresh_series(st, ln, [Piece(None, None, d)] if d else [], node, pd)

    def mkframe(self, data, kw, node, st):
        bid = self.e.newbid()
        h = {"@closed": True}
        ln = None
        idx = kw.get("index")
        off = idx.pd[1] if isinstance(idx, Idx) else L(0)
        if isinstance(data, Obj) and isinstance(st.heap.get(data.bid), dict):
            for k, v in st.heap[data.bid].items():
                if isinstance(v, Arr):
                    ln = ln or v.ln
                    pd = (v.pd or PdM()).w(name=k)
                    if isinstance(idx, Idx):
                        pd = PdM(name=k, roff=off)
                    r = self.e.elementwise([v], st, node)
                    h[k] = Arr(r.bid, r.off, r.ln, 1, pd)
                else:
                    d = vdeps(v, st)
                    h[k] = self.fresh_series(st, idx.pd[2] if isinstance(idx, Idx) else None, [Piece(None, None, d)] if d else [], node, PdM(name=k))
        elif isinstance(data, Arr):
            cols = self.names(kw.get("columns")) if kw.get("columns") is not None else None
            if cols and len(cols) == 1:
                ln = data.ln
                h[cols[0]] = Arr(data.bid, data.off, data.ln, data.step, PdM(name=cols[0], roff=off))
        st.heap[bid] = h
        d = Df(bid, "row")
        d.off, d.ln = L(0), (idx.pd[2] if isinstance(idx, Idx) else ln)
        return d

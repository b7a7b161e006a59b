"""Abstract files: an HDF5 file is an ordered mapping from key to stored value (frame or metadata), kept in the abstract heap."""
from __future__ import annotations
import re
from .expr import *
from .summ import A, S, NONE, Rec, num
from . import osumm as O

DISK = -1
TERM = re.compile(r"\(?\s*(index|columns|[A-Za-z_]\w*)\s*(>=|<=|==|>|<|=)\s*(?:(?:pd\.)?Timestamp\()?\s*['\"]?(.)['\"]?\s*\)?\s*\)?$", re.S)


def disk(s, st):
    if DISK not in st.heap:
        st.heap[DISK] = Rec("dict", None, {})
    return st.heap[DISK]


def norm(k):
    k = str(k)
    return S(k if k.startswith("/") else "/" + k)


def open_(s, args, kw, node, st):
    path = kw.get("path", args[0] if args else None)
    mode = kw.get("mode", args[1] if len(args) > 1 else S("a"))
    if not isinstance(path, S) or not isinstance(mode, S):
        return s.nope("HDFStore", node)
    d = disk(s, st)
    f = next((v for k, v in d.d.items() if k == path), None)
    if f is None:
        if str(mode) in ("r", "r+"):
            raise O.PyExc("FileNotFoundError")
        f = s.rec(st, "dict", d={})
        st.heap[DISK] = Rec("dict", None, {**d.d, path: f})
    elif str(mode) == "w":
        st.heap[f.aid] = Rec("dict", None, {})
    return s.rec(st, "store", d={"file": f, "mode": mode})


def table(s, b, st):
    return st.heap[st.heap[b.aid].d["file"].aid]


def setkey(s, b, st, k, v):
    f = st.heap[b.aid].d["file"]
    r = st.heap[f.aid]
    d = dict(r.d)
    if v is None:
        d.pop(k, None)
    else:
        d[k] = v
    st.heap[f.aid] = Rec("dict", None, d)


def fetch(s, b, k, node, st):
    if not isinstance(k, S):
        return s.nope("store key", node)
    k = norm(k)
    r = table(s, b, st)
    if k in r.d:
        v = r.d[k]
        return s.copyv(v, st)
    if any(map(O.ishole, str(k))) or any(any(map(O.ishole, str(q))) for q in r.d):
        return s.nope("store key", node)
    raise O.PyExc(f"KeyError {k}")


def contains(s, b, k, st):
    if not isinstance(k, S):
        return mk("bfn", "unk", unk("in"))
    k = norm(k)
    r = table(s, b, st)
    if k in r.d:
        return T
    if r.d and (any(map(O.ishole, str(k))) or any(any(map(O.ishole, str(q))) for q in r.d)):
        return mk("bfn", "unk", unk("in"))
    return F


def write(s, b, st):
    return str(st.heap[b.aid].d["mode"]) in ("a", "w", "r+")


def attr(s, b, name, node, st):
    r = st.heap[b.aid]
    if b.kind == "storer":
        if name in ("nrows", "shape"):
            v = r.d["value"]
            n = st.heap[v.aid].ln if isinstance(v, O.Ref) and v.kind == "frame" else None
            return n if n is not None else s.nope("nrows", node)
        return s.nope("storer." + name, node)
    if name == "mode":
        return r.d["mode"]
    return O.Meth(b, name)


def method(s, b, n, args, kw, node, st):
    if b.kind != "store":
        return s.nope("storer." + n, node)
    a0 = kw.get("key", args[0] if args else None)
    if n == "keys":
        ks = list(table(s, b, st).d)
        return s.plist(st, sorted(ks, key=str))
    if n in ("get", "__getitem__"):
        return fetch(s, b, a0, node, st)
    if n in ("put", "append", "remove") and not write(s, b, st):
        raise O.PyExc("store is read-only")
    if n in ("put", "append"):
        v = kw.get("value", args[1] if len(args) > 1 else None)
        if not isinstance(a0, S) or not isinstance(v, (O.Ref, A)):
            return s.nope("store." + n, node)
        k = norm(a0)
        app = n == "append" and kw.get("append", T) is T or n == "put" and kw.get("append", F) is T
        old = table(s, b, st).d.get(k)
        v = s.copyv(v, st)
        if app and old is not None:
            v = concat(s, [old, v], st)
            if v is None:
                return s.nope("append", node)
        setkey(s, b, st, k, v)
        return NONE
    if n == "remove":
        if not isinstance(a0, S):
            return s.nope("store.remove", node)
        k = norm(a0)
        if k not in table(s, b, st).d:
            if contains(s, b, k, st) is F:
                raise O.PyExc("KeyError")
            return s.nope("store.remove", node)
        if kw or len(args) > 1:
            return s.nope("store.remove", node)
        setkey(s, b, st, k, None)
        return NONE
    if n == "select":
        f = fetch(s, b, a0, node, st)
        where = kw.get("where", args[1] if len(args) > 1 else NONE)
        if not isinstance(f, O.Ref) or set(kw) - {"key", "where", "columns"}:
            return s.nope("select", node)
        f = select(s, f, where, node, st)
        if "columns" in kw and kw["columns"] is not NONE:
            return s.framecol(f, kw["columns"], st, node)
        return f
    if n == "get_storer":
        return s.rec(st, "storer", d={"value": fetch(s, b, a0, node, st)})
    if n in ("close", "flush", "open"):
        return NONE
    return s.nope("store." + n, node)


def select(s, f, where, node, st):
    if where is NONE:
        return f
    ts = [where] if isinstance(where, S) else s.items(where, st)
    if ts is None or not all(isinstance(t, S) for t in ts):
        return s.nope("where", node)
    r = st.heap[f.aid]
    mask = None
    for t in [x for t in ts for x in str(t).split("&")]:
        m = TERM.match(t.strip())
        if not m or not O.ishole(m[3]):
            return s.nope("where " + O.show(S(t)), node)
        v, spec = O.Holes.get(m[3])
        col = r.ix if m[1] == "index" else next((c for q, c in r.d.items() if str(q) == m[1]), None)
        if spec or not isinstance(col, A):
            return s.nope("where", node)
        b = num(v.ns if isinstance(v, (O.Ts, O.Td)) else v)
        op = {"=": "=="}.get(m[2], m[2])
        one = s.elementwise(lambda x: cmp(op, num(x), b), [A(col.aid, col.off, col.ln)], st)
        mask = one if mask is None else s.elementwise(lambda x, y: and_(x, y), [mask, one], st)
    g = s.framefilter(f, mask, st)
    n = st.heap[g.aid].ln
    if n is not None:
        s.nonempty.add(n)
        st.facts = st.facts | {cmp(">=", n, ONE)}          # every group read has a row in the range (a group without one adds nothing)
    return g


def stack(s, xs, st):
    """(cells, length) of columns one after the other"""
    fs = []
    for c in xs:
        if not isinstance(c, A):
            return None
        g = s.cellat(c, st)
        if g is None:
            return None
        fs.append((g, c.ln))
    tot = ZERO
    for _, n in fs:
        tot = add(tot, n)

    def f(k):
        off, conds = ZERO, []
        for g, n in fs:
            conds.append((add(off, n), g(sub(k, off))))
            off = add(off, n)
        e = conds[-1][1]
        for end, v in reversed(conds[:-1]):
            e = ite(cmp(">=", sub(end, ONE), k), v, e)
        return e
    k = freshix()
    return s.new(st, tot, f(k), k)


def concat(s, frames, st, ignore_index=False):
    rs = [st.heap[f.aid] for f in frames]
    if not all(isinstance(f, O.Ref) and f.kind == "frame" for f in frames):
        return None
    names = list(rs[0].d)
    if any(set(map(str, r.d)) != set(map(str, names)) for r in rs):
        return None
    d, ln = {}, None
    for n in names:
        cs = [next(c for q, c in r.d.items() if str(q) == str(n)) for r in rs]
        if not any(isinstance(c, A) for c in cs) and all(c == cs[0] if isinstance(c, S) else c is cs[0] for c in cs):
            d[n] = cs[0]                                     # one constant in every row
            continue
        v = stack(s, cs, st)
        if v is None:
            return None
        d[n] = O.Ser(v.aid, v.off, v.ln, n)
        ln = v.ln
    ix = stack(s, [r.ix for r in rs], st) if all(isinstance(r.ix, A) for r in rs) and not ignore_index else None
    i2 = None
    if ix is not None:
        i2 = O.Idx(ix.aid, ix.off, ix.ln)
        i2.loose = len(frames) > 1 or any(getattr(r.ix, 'loose', False) for r in rs)
    return s.rec(st, "frame", d=d, ln=ln, ix=i2)

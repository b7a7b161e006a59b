"""Stored trades and stored bars at the object level: what is read back from an abstract file is what was written."""
from __future__ import annotations
from .expr import *
from . import expr as X
from .summ import A, S, NONE, Rec
from .osumm import Ser, Idx, Ref, Td, Ts, PyExc, show, Holes
from .ounits import World
from .obars import params, ref, compare, where_, cells
from .repo import Repo, AnalysisBroken

MOD = "finmlkit.bar.data_model"
COLS = ("timestamp", "price", "amount", "side")
PATH = S("store.h5")
UP = 10 ** 15


def part(tag):
    ax = ("n2" if tag == "A" else "n") + tag
    return f"ts{tag}:t:{ax} px{tag}:a:{ax} qty{tag}:a:{ax} side{tag}:s:{ax}"


class Store:
    def __init__(self, root, tags="AB"):
        self.repo = Repo(root)
        self.w = World(self.repo)
        self.spec = " ".join(part(t) for t in tags)
        self.p = params(self.w, self.spec)
        self.out, self.vals = [], {}
        self.n0 = len(self.w.s.unknown)
        self.order(tags)

    def order(self, tags):
        """the months follow one another"""
        f = set()
        for t in tags:
            f |= {cmp(">=", sub(self.last(t), self.first(t)), ONE if t == "A" else ZERO)}
        for a, b in zip(tags, tags[1:]):
            f |= {cmp(">=", sub(self.first(b), self.last(a)), ONE), cmp(">=", sub(self.first(b), self.first(a)), ONE), cmp(">=", sub(self.last(b), self.last(a)), ONE),
                  cmp(">=", sub(self.last(b), self.first(a)), ONE)}
        self.w.st.facts = self.w.st.facts | f

    def cell(self, tag, i):
        return self.cellof(self.p["ts" + tag], i)

    def cellof(self, a, i):
        x = self.w.st.heap[a.aid]
        return subst(x.e, {x.var: add(a.off, i)})

    def first(self, tag):
        return self.cell(tag, ZERO)

    def last(self, tag):
        return self.cell(tag, sub(self.p["ts" + tag].ln, ONE))

    def cols(self, tag):
        return [self.p[c + tag] for c in ("ts", "px", "qty", "side")]

    def data(self, tag, **attrs):
        w, p = self.w, self.p
        t = p["ts" + tag]
        td = w.s.construct(w.repo.cls(MOD, "TradesData"), [t, p["px" + tag], p["qty" + tag]],
                           {"side": p["side" + tag], "dt_index": Idx(t.aid, t.off, t.ln), "timestamp_unit": S("ns")}, w.st)
        for k, v in attrs.items():
            w.s.setattrv(td, k, v, w.st)
        return td

    def save(self, tag, month, attrs=None, **kw):
        return self.w.method(self.data(tag, **(attrs or {})), "save_h5", PATH, month_key=S(month), **kw)

    def load(self, **kw):
        return self.w.call(self.w.attr(self.cls("TradesData"), "load_trades_h5"), PATH, **kw)

    def full(self):
        """every stored frame has a row"""
        for k, v in self.w.st.heap.items():
            if isinstance(v, Rec) and v.kind == "frame" and v.ln is not None:
                self.w.s.nonempty.add(v.ln)
                self.w.st.facts = self.w.st.facts | {cmp(">=", v.ln, ONE)}

    def cls(self, name, mod=MOD):
        from .osumm import Cls
        return Cls(self.w.repo.cls(mod, name))

    def unknown(self):
        return self.w.s.unknown[self.n0:]

    def add(self, st, rule, key, msg):
        if st != "ok" and self.unknown():
            st, msg = "unknown", f"not modelled {self.unknown()[:1]}: {msg}"
        self.out.append((rule, key, st, msg))

    def frame(self, f, want, rule, key, what, index=True, name="store"):
        """frame columns against wanted arrays"""
        w = self.w
        rec = w.st.heap.get(f.aid) if isinstance(f, Ref) and f.kind == "frame" else None
        if rec is None:
            return self.add("unknown", rule, key, f"{what}: not a modelled frame")
        d = {str(k): v for k, v in rec.d.items()}
        if not set(want) <= set(d):
            self.add("bad", rule, key + "|columns", f"{what}: columns {sorted(d)} where {sorted(want)} were stored")
        for n, x in want.items():
            if n in d:
                s, m = compare(w, d[n], x, self.spec, name, self.points, self.vals, self.unknown(), n)
                self.add(s, rule, f"{key}|{n}", f"{what}, {n}: {m}")
        if index and "timestamp" in want and isinstance(rec.ix, A):
            s, m = compare(w, rec.ix, want["timestamp"], self.spec, name, self.points, self.vals, self.unknown(), "index")
            self.add(s, rule, f"{key}|index", f"{what}, index: {m}")

    def scalar(self, got, want, rule, key, what, name="store"):
        if isinstance(got, (Td, Ts)):
            got = got.ns
        if not isinstance(got, (N, S)) or isinstance(got, N) and got.h == "unk":
            return self.add("unknown", rule, key, f"{what}: not modelled")
        if isinstance(want, S) or isinstance(got, S) or want in (T, F, NONE) or got in (T, F, NONE):
            c = T if got is want or isinstance(want, S) and isinstance(got, S) and got == want else F
            return self.add("ok" if c is T else "bad", rule, key, f"{what}: {show(got)} where {show(want)} is documented")
        s, m = compare(self.w, got, want, self.spec, name, self.points, self.vals, self.unknown(), what)
        self.add(s, rule, key, f"{what}: {m}")

    def want(self, tags, lo=None, hi=None):
        """the stored rows of some months, in time order, between two times"""
        cs = [ref(self.w, "stored_rows", [self.p["ts" + tags[0]], self.p["ts" + tags[-1]], a, b, F if len(tags) == 1 else T,
                                          lo if lo is not None else NONE, hi if hi is not None else NONE, F if lo is None else T, F if hi is None else T])[0]
              for a, b in zip(self.cols(tags[0]), self.cols(tags[-1]))]
        return dict(zip(COLS, cs))


def run(root, label, points, body, meth, tags="AB", cls="TradesData", mod=MOD):
    s = Store(root, tags)
    s.points = points
    where = where_(s.repo, mod, cls, meth)
    try:
        body(s)
    except PyExc as e:
        s.add("bad", "stored", f"{label}|raises", f"{label}: always raises: {e}")
    return where, s.out


# scenario -> (saving order, bounds, months expected, multiprocessing)
RANGES = {
    "all": ("AB", None, None, "AB"), "all, saved late month first": ("BA", None, None, "AB"),
    "from the last trade of the first month": ("AB", "lastA", None, "AB"), "until the first trade of the second month": ("AB", None, "firstB", "AB"),
    "from the last trade of the first month until the first trade of the second": ("BA", "lastA", "firstB", "AB"),
    "from after the first month": ("AB", "lastA+", None, "B"), "until before the second month": ("AB", None, "firstB-", "A"),
    "from the last trade of the second month": ("AB", "lastB", None, "B"), "until the first trade of the first month": ("AB", None, "firstA", "A"),
}


def bound(s, code):
    if code is None:
        return None
    v = {"first": s.first, "last": s.last}[code[:-2] if code[-1] in "+-" else code[:-1]](code.rstrip("+-")[-1])
    return add(v, ONE) if code[-1] == "+" else sub(v, ONE) if code[-1] == "-" else v


def range_unit(root, label, points):
    order, lo, hi, months = RANGES[label]

    def body(s):
        for par_ in (T, F):
            for t in order:
                s.save(t, {"A": "2021-03", "B": "2021-04"}[t])
            a, b = bound(s, lo), bound(s, hi)
            kw = {"enable_multiprocessing": par_}
            if a is not None:
                kw["start_time"] = Ts(a)
            if b is not None:
                kw["end_time"] = Ts(b)
            td = s.load(**kw)
            s.frame(s.w.attr(td, "data"), s.want(months, a, b), "range", f"range|{label}|{'parallel' if par_ is T else 'sequential'}", f"loading {label}")
    return run(root, label, points, body, "load_trades_h5")


def month_unit(root, label, points):
    def body(s):
        if label == "one":
            k = s.save("A", "2021-03")
            s.scalar(k, S("/trades/2021-03"), "key", "key|given", "the key returned")
            s.save("B", "2021-04")
            for m, t in (("2021-03", "A"), ("2021-04", "B")):
                s.frame(s.w.attr(s.load(key=S(m)), "data"), s.want(t), "stored", f"month|{t}", f"loading month {t}")
            a, b = s.first("A"), sub(s.last("A"), ONE)
            s.frame(s.w.attr(s.load(key=S("2021-03"), end_time=Ts(s.first("A"))), "data"), s.want("A", None, a), "stored", "month|bounded", "loading one month up to a time")
        elif label == "missing":
            s.save("A", "2021-03")
            for k, kw in (("key", {"key": S("2021-07")}), ("range", {"start_time": Ts(add(s.last("A"), ONE))})):
                try:
                    s.load(**kw)
                    s.add("bad", "absent", f"absent|{k}", f"asking for an absent {k} returns trades instead of raising")
                except PyExc:
                    s.add("ok", "absent", f"absent|{k}", "raises")
        elif label == "append":
            s.spec += " pct:F pct2:F g0:i g1:i g2:i"
            s.save("A", "2021-03", attrs={"data_ok": F, "missing_pct": par("pct"), "discontinuities": gaps(s)})
            s.save("B", "2021-03", attrs={"data_ok": T, "missing_pct": par("pct2")}, overwrite_month=F)
            s.frame(s.w.attr(s.load(key=S("2021-03")), "data"), s.want("AB"), "stored", "append", "a month saved in two parts")
            s.frame(s.w.attr(s.load(start_time=Ts(s.first("A")), end_time=Ts(s.first("A"))), "data"), s.want("A", s.first("A"), s.first("A")), "stored", "append|early",
                    "the early rows of a month saved in two parts")
            meta(s, "2021-03", add(s.p["tsA"].ln, s.p["tsB"].ln), s.first("A"), s.last("B"), F, both(s), "append")
            records(s, "2021-03", [("g0", "g1", "g2")], "append")
        elif label == "append gaps":
            s.spec += " pct:F pct2:F g0:i g1:i g2:i h0:i h1:i h2:i"
            s.save("A", "2021-03", attrs={"data_ok": F, "missing_pct": par("pct"), "discontinuities": gaps(s)})
            s.save("B", "2021-03", attrs={"data_ok": F, "missing_pct": par("pct2"), "discontinuities": gaps(s, "h")}, overwrite_month=F)
            meta(s, "2021-03", add(s.p["tsA"].ln, s.p["tsB"].ln), s.first("A"), s.last("B"), F, both(s), "append gaps")
            records(s, "2021-03", [("g0", "g1", "g2"), ("h0", "h1", "h2")], "append gaps")
        elif label == "append second gap":
            s.spec += " pct2:F h0:i h1:i h2:i"
            s.save("A", "2021-03", attrs={"data_ok": T})
            s.save("B", "2021-03", attrs={"data_ok": F, "missing_pct": par("pct2"), "discontinuities": gaps(s, "h")}, overwrite_month=F)
            meta(s, "2021-03", add(s.p["tsA"].ln, s.p["tsB"].ln), s.first("A"), s.last("B"), F, both(s, ZERO), "append second gap")
            records(s, "2021-03", [("h0", "h1", "h2")], "append second gap")
        elif label == "append earlier":
            s.save("B", "2021-03")
            s.save("A", "2021-03", overwrite_month=F)
            s.frame(s.w.attr(s.load(key=S("2021-03")), "data"), s.want("AB"), "stored", "prepend", "a month saved in two parts, the later first")
            meta(s, "2021-03", add(s.p["tsA"].ln, s.p["tsB"].ln), s.first("A"), s.last("B"), NONE, ZERO, "prepend")
        elif label == "overwrite":
            s.save("A", "2021-03", attrs={"data_ok": F, "missing_pct": par("pct"), "discontinuities": gaps(s)})
            s.save("B", "2021-04")
            s.save("B", "2021-03", attrs={"data_ok": T})
            s.frame(s.w.attr(s.load(key=S("2021-03")), "data"), s.want("B"), "stored", "overwrite", "a month saved again")
            meta(s, "2021-03", s.p["tsB"].ln, s.first("B"), s.last("B"), T, ZERO, "overwrite")
            i = s.w.method(inspector(s), "get_integrity_info", S("/trades/2021-03"))
            s.add("ok" if i is NONE else "bad", "metadata", "integrity|overwrite", "gap records of the replaced trades are " + ("gone" if i is NONE else "still reported"))
            s.frame(s.w.attr(s.load(key=S("2021-04")), "data"), s.want("B"), "stored", "overwrite|other", "another month after a month was saved again")
        elif label == "new file":
            s.save("A", "2021-03")
            s.save("B", "2021-04", mode=S("w"))
            s.frame(s.w.attr(s.load(), "data"), s.want("B"), "stored", "newfile", "a file opened for overwriting")
        elif label == "automatic key":
            k = s.w.method(s.data("A"), "save_h5", PATH)
            v, why = autokey(s, k)
            s.add(v, "key", "key|automatic", f"the month key {why}")
        elif label == "view":
            td = s.data("A")
            s.spec += " lo:T hi:T"
            lo, hi = par("lo"), par("hi")
            s.w.st.facts = s.w.st.facts | {cmp(">=", sub(hi, lo), ONE)}
            s.w.method(td, "set_view_range", Ts(lo), Ts(hi))
            s.w.method(td, "save_h5", PATH, month_key=S("2021-03"))
            s.full()
            s.frame(s.w.attr(s.load(key=S("2021-03")), "data"), s.want("A", lo, hi), "stored", "view", "a month saved with a time view set", name="store_view")
        elif label == "metadata":
            s.save("A", "2021-03", attrs={"data_ok": F, "missing_pct": par("pct"), "discontinuities": gaps(s)})
            s.save("B", "2021-04", attrs={"data_ok": T})
            s.spec += " pct:F g0:i g1:i g2:i"
            meta(s, "2021-03", s.p["tsA"].ln, s.first("A"), s.last("A"), F, par("pct"), "with gaps")
            meta(s, "2021-04", s.p["tsB"].ln, s.first("B"), s.last("B"), T, ZERO, "without gaps")
            insp = inspector(s)
            ks = s.w.strs(s.w.method(insp, "list_keys"))
            s.add("unknown" if ks is None else "ok" if ks == ["/trades/2021-03", "/trades/2021-04"] else "bad", "metadata", "keys", f"stored months are listed as {ks}")
            i = s.w.method(insp, "get_integrity_info", S("/trades/2021-04"))
            s.add("ok" if i is NONE else "bad", "metadata", "integrity|none", "gap records for a month without gaps: " + ("none" if i is NONE else "some"))
            records(s, "2021-03", [("g0", "g1", "g2")], "some")
            st = s.w.method(insp, "get_statistics", S("/trades/2021-03"))
            r = s.w.st.heap.get(st.aid) if isinstance(st, Ref) and st.kind == "dict" else None
            if r is not None:
                d = {str(k): v for k, v in r.d.items()}
                s.scalar(d.get("record_count", NONE), s.p["tsA"].ln, "metadata", "statistics|record_count", "record count")
                for n, tag, k in (("price_range", "pxA", "price"), ("amount_range", "qtyA", "amount")):
                    xs = s.w.s.items(d.get(n), s.w.st) if n in d else None
                    if xs and len(xs) == 2:
                        for i_, kind in enumerate(("min", "max")):
                            s.scalar(xs[i_], s.w.s.reduce(kind, s.p[tag], s.w.st), "metadata", f"statistics|{n}|{kind}", f"{kind} {k}")
    return run(root, label, points, body, "load_trades_h5" if label in ("one", "missing") else "save_h5")


MONTHS = ("one", "missing", "append", "append gaps", "append second gap", "append earlier", "overwrite", "new file", "automatic key", "view", "metadata")


def autokey(s, k):
    """/trades/YYYY-MM of the first trade"""
    if not isinstance(k, S):
        return "unknown", "is not modelled"
    hs = [(c, *Holes.get(c)) for c in str(k) if ord(c) >= 0xE000]
    if len(hs) != 2 or not all(isinstance(v, N) and v.h == "fn" and v.a[0] in ("year", "month") for _, v, _ in hs):
        return "unknown", f"{show(k)} is not modelled"
    (c1, y, f1), (c2, m, f2) = hs
    f1, f2 = (str(f).removeprefix("f").strip("'\"") for f in (f1, f2))
    if f1 not in ("", "d", "4d", "04d", "4", "04", "None") or f2 not in ("", "d", "2d", "2", "02d", "02", "0>2", "None"):
        return "unknown", f"{show(k)}: format not modelled"
    w = {True: "year", False: "month"}
    good = str(k) == f"/trades/{c1}-{c2}" and y is mk("fn", "year", s.first("A")) and m is mk("fn", "month", s.first("A")) and f2 in ("02d", "02", "0>2")
    return ("ok", "is that of the first trade") if good else ("bad", f"{show(k)} (formats {f1!r}, {f2!r}) is not the zero-padded year and month of the first trade")


def both(s, p=None):
    """missing share of a month saved in two parts"""
    a, b = s.p["tsA"].ln, s.p["tsB"].ln
    return div(add(mul(par("pct") if p is None else p, a), mul(par("pct2"), b)), add(a, b))


def records(s, month, want, tag):
    """gap records of a stored month"""
    i = s.w.method(inspector(s), "get_integrity_info", S("/trades/" + month))
    r = s.w.st.heap.get(i.aid) if isinstance(i, Ref) and i.kind == "frame" else None
    if r is None:
        return s.add("bad" if i is NONE else "unknown", "metadata", f"integrity|{tag}", "gap records of a month with gaps are " + ("lost" if i is NONE else "not modelled"))
    n = const(r.ln) if r.ln is not None else None
    s.add("unknown" if n is None else "ok" if n == len(want) else "bad", "metadata", f"integrity|{tag}|count", f"{n} gap records where {len(want)} were found")
    if n != len(want):
        return
    for j, name in enumerate(("start_id", "end_id", "missing_ids")):
        c = next((x for q, x in r.d.items() if str(q) == name), None)
        if c is None:
            s.add("bad", "metadata", f"integrity|{tag}|{name}", f"gap records have no {name}")
            continue
        for k, g in enumerate(want):
            s.scalar(s.cellof(c, C(k)) if isinstance(c, A) else c, par(g[j], True), "metadata", f"integrity|{tag}|{name}|{k}", f"gap record {k + 1}, {name}")


def gaps(s, g="g"):
    w = s.w
    g = w.s.rec(w.st, "dict", d={S("start_id"): par(g + "0", True), S("end_id"): par(g + "1", True), S("missing_ids"): par(g + "2", True), S("pre_gap_time"): Ts(s.first("A")), S("post_gap_time"): Ts(s.last("A")),
                                 S("time_interval"): Td(sub(s.last("A"), s.first("A")))})
    return w.s.plist(w.st, [g])


def inspector(s):
    return s.w.s.construct(s.w.repo.cls("finmlkit.bar.io", "H5Inspector"), [PATH], {}, s.w.st)


def meta(s, month, count, first, last, ok, pct, tag):
    m = s.w.method(inspector(s), "get_metadata", S("/trades/" + month))
    r = s.w.st.heap.get(m.aid) if isinstance(m, Ref) and m.kind == "dict" else None
    if r is None:
        return s.add("unknown", "metadata", f"meta|{tag}", "metadata not modelled")
    d = {str(k): v for k, v in r.d.items()}
    for n, v in (("record_count", count), ("first_timestamp", first), ("last_timestamp", last), ("data_integrity_ok", ok), ("missing_pct", pct)):
        if n not in d:
            s.add("bad", "metadata", f"meta|{tag}|{n}", f"no {n}")
        else:
            s.scalar(d[n], v, "metadata", f"meta|{tag}|{n}", n)

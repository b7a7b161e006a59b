"""Stored one-second bars: what is stored is what the trades of that month give, what is read is what is stored, and longer bars aggregate exactly their rows."""
from __future__ import annotations
from .expr import *
from .summ import A, S, NONE, Rec
from .osumm import Ser, Idx, Ref, Td, Ts, PyExc, show
from . import ohdf
from .obars import ref, where_, OHLCV, _sl
from .ostore import Store, PATH, inspector
from .repo import AnalysisBroken

IO = "finmlkit.bar.io"
DAY = 86400 * 10 ** 9
BAR = ("open", "high", "low", "close", "volume", "trades", "vwap", "median_trade_size")
SPEC = ("timestamp",) + BAR
SHORT = dict(zip(SPEC, ("ts", "o", "h", "l", "c", "v", "k", "w", "m")))


class Klines(Store):
    """trades of some months, bars of some months"""
    def __init__(self, root, tags="", bars=""):
        self.bars = bars
        super().__init__(root, tags or "A")
        if bars:
            extra = " ".join(f"{SHORT[n]}{t}:{'t' if n == 'timestamp' else 'a'}:{'n2' if t == bars[0] else 'n'}{t}" for t in bars for n in SPEC)
            self.spec = extra if not tags else self.spec + " " + extra
            from .obars import params
            self.p.update(params(self.w, extra))
            self.order(bars)

    def file(self):
        return ohdf.open_(self.w.s, [PATH, S("a")], {}, None, self.w.st)

    def stored(self, key):
        f = self.file()
        try:
            return ohdf.fetch(self.w.s, f, S(key), None, self.w.st)
        except PyExc:
            return None

    def put(self, tag, month):
        """bars of a month, as the writer leaves them"""
        s, p = self.w.s, self.p
        d = {S(n): self.named(p[SHORT[n] + tag], n) for n in BAR}
        t = p["ts" + tag]
        fr = s.rec(self.w.st, "frame", d=d, ln=t.ln, ix=Idx(t.aid, t.off, t.ln))
        f = self.file()
        ohdf.method(s, f, "put", [S("/klines/" + month), fr], {}, None, self.w.st)
        m = s.rec(self.w.st, "dict", d={S("record_count"): t.ln, S("first_timestamp"): self.first(tag), S("last_timestamp"): self.last(tag), S("original_trades_key"): S("/trades/" + month)})
        ohdf.method(s, f, "put", [S("/klines_meta/" + month), m], {}, None, self.w.st)

    def named(self, a, n):
        return Ser(a.aid, a.off, a.ln, S(n))

    def writer(self, *keys):
        return self.w.s.construct(self.repo.cls(IO, "AddTimeBarH5"), [PATH] + ([self.w.s.plist(self.w.st, [S(k) for k in keys])] if keys else []), {}, self.w.st)

    def reader(self):
        return self.w.s.construct(self.repo.cls(IO, "TimeBarReader"), [PATH], {}, self.w.st)

    def expect(self, tag):
        """one-second bars of a month's trades"""
        w, p = self.w, self.p
        t, ci = ref(w, "_time_bar_indexer", [p["ts" + tag], ONE])
        d = dict(zip(OHLCV, ref(w, "comp_bar_ohlcv", [p["px" + tag], p["qty" + tag], ci])))
        d["timestamp"] = w.s.slice(t, _sl(1, None), w.st)
        return d

    def bars_of(self, key, tag, rule, lab, what):
        f = self.stored("/klines/" + key)
        if f is None:
            return self.add("bad", rule, lab, f"{what}: no bars are stored under /klines/{key}")
        want = self.expect(tag)
        self.check_frame(f, want, rule, lab, what, "klines")
        m = self.stored("/klines_meta/" + key)
        r = self.w.st.heap.get(m.aid) if isinstance(m, Ref) and m.kind == "dict" else None
        if r is None:
            return self.add("bad" if m is None else "unknown", "record", lab, f"{what}: no record beside the bars")
        d = {str(k): v for k, v in r.d.items()}
        t = want["timestamp"]
        for n, v in (("record_count", t.ln), ("first_timestamp", self.cellof(t, ZERO)), ("last_timestamp", self.cellof(t, sub(t.ln, ONE))), ("original_trades_key", S("/trades/" + key))):
            if n in d:
                self.scalar(d[n], v, "record", f"{lab}|{n}", f"{what}, {n}", "klines")
            else:
                self.add("bad", "record", f"{lab}|{n}", f"{what}: no {n}")

    def check_frame(self, f, want, rule, key, what, name):
        w = dict(want)
        t = w.pop("timestamp")
        rec = self.w.st.heap.get(f.aid) if isinstance(f, Ref) and f.kind == "frame" else None
        if rec is None:
            return self.add("unknown", rule, key, f"{what}: not a modelled frame")
        have = {str(k) for k in rec.d}
        if have != set(w):
            self.add("bad", rule, key + "|columns", f"{what}: columns {sorted(have)} where {sorted(w)} are documented")
        self.frame(f, {n: x for n, x in w.items() if n in have}, rule, key, what, False, name)
        from .obars import compare, unlabelled
        if isinstance(rec.ix, A):
            s, m = compare(self.w, rec.ix, t, self.spec, name, self.points, self.vals, self.unknown(), "index")
            self.add(s, rule, f"{key}|index", f"{what}, index: {m}")
        else:
            s, m = unlabelled(rec, self.unknown())
            self.add(s, rule, f"{key}|index", f"{what}: {m}")

    def rows(self, tags, lo=None, hi=None):
        p = self.p
        return {n: ref(self.w, "stored_rows", [p["ts" + tags[0]], p["ts" + tags[-1]], p[SHORT[n] + tags[0]], p[SHORT[n] + tags[-1]], F if len(tags) == 1 else T,
                                              lo if lo is not None else NONE, hi if hi is not None else NONE, F if lo is None else T, F if hi is None else T])[0] for n in SPEC}


def run(root, label, points, body, cls, meth, tags="", bars=""):
    s = Klines(root, tags, bars)
    s.points = points
    where = where_(s.repo, IO, cls, meth)
    try:
        body(s)
    except PyExc as e:
        s.add("bad", "raises", f"{label}|raises", f"{label}: always raises: {e}")
    return where, s.out


def _list(s, v):
    xs = s.w.s.items(v, s.w.st)
    return [str(x) for x in xs] if xs is not None and all(isinstance(x, S) for x in xs) else None


def write_unit(root, label, points):
    def flag(s, v, want, lab, what):
        s.add("ok" if v is want else "bad" if v in (T, F) else "unknown", "result", lab, f"{what} reports {show(v)} where {show(want)} is documented")

    def body(s):
        w = s.w
        s.save("A", "2021-03")
        if label == "every month":
            s.save("B", "2021-04")
            b = s.writer()
            r = w.method(b, "process_all")
            d = {str(k): v for k, v in w.st.heap[r.aid].d.items()} if isinstance(r, Ref) and r.kind == "dict" else None
            ks = ["/trades/2021-03", "/trades/2021-04"]
            s.add("unknown" if d is None else "ok" if sorted(d) == ks and all(v is T for v in d.values()) else "bad", "result", "all",
                  f"building every month reports {({k: show(v) for k, v in d.items()}) if d is not None else None}")
            for m, t in (("2021-03", "A"), ("2021-04", "B")):
                s.bars_of(m, t, "bars", f"all|{t}", f"month {t} of two")
            s.frame(w.attr(s.load(key=S("2021-04")), "data"), s.want("B"), "trades", "trades", "the trades after bars were added")
        elif label == "one month by its key":
            s.save("B", "2021-04")
            flag(s, w.method(s.writer("/trades/2021-04"), "process_key", S("/trades/2021-04")), T, "one", "building one month")
            s.bars_of("2021-04", "B", "bars", "one", "the month asked for")
            f = s.stored("/klines/2021-03")
            s.add("ok" if f is None else "bad", "bars", "one|other", "a month not asked for " + ("has no bars" if f is None else "has bars"))
        elif label == "one month by its name":
            flag(s, w.method(s.writer(), "process_key", S("2021-03")), T, "name", "building one month by its name")
            s.bars_of("2021-03", "A", "bars", "name", "the month asked for by name")
        elif label == "listed months":
            s.save("B", "2021-04")
            w.method(s.writer("2021-04"), "process_all")
            s.bars_of("2021-04", "B", "bars", "listed", "the month listed by name")
            f = s.stored("/klines/2021-03")
            s.add("ok" if f is None else "bad", "bars", "listed|other", "a month not listed " + ("has no bars" if f is None else "has bars"))
        elif label == "unknown month":
            try:
                s.writer("/trades/2021-07")
                s.add("bad", "absent", "writer|absent", "asking for bars of an absent month is accepted")
            except PyExc:
                s.add("ok", "absent", "writer|absent", "raises")
        elif label == "again":
            b = s.writer()
            w.method(b, "process_key", S("/trades/2021-03"))
            s.save("B", "2021-03")
            flag(s, w.method(b, "process_key", S("/trades/2021-03")), F, "again", "building a month that has bars")
            s.bars_of("2021-03", "A", "bars", "again", "bars that were not to be replaced")
        else:
            b = s.writer()
            w.method(b, "process_key", S("/trades/2021-03"))
            s.save("B", "2021-03")
            if label == "again, replacing":
                flag(s, w.method(b, "process_key", S("/trades/2021-03"), overwrite=T), T, "replace", "building a month again")
            else:
                w.method(b, "process_all", overwrite=T)
            s.bars_of("2021-03", "B", "bars", "replace|" + label, "bars built again after the trades changed")
            s.frame(w.attr(s.load(key=S("2021-03")), "data"), s.want("B"), "trades", "trades|" + label, "the trades after bars were built again")
    return run(root, label, points, body, "AddTimeBarH5", "process_all" if label in ("every month", "again, replacing all") else "__init__" if label == "unknown month" else "process_key",
               tags="A" if label in ("one month by its name", "unknown month") else "AB")


WRITES = ("every month", "one month by its key", "one month by its name", "listed months", "unknown month", "again", "again, replacing", "again, replacing all")

# (order of storing, lower bound, upper bound, months read)
READS = {
    "all": ("AB", None, None, "AB"), "all, stored late month first": ("BA", None, None, "AB"),
    "from the last bar of the first month": ("AB", "lastA", None, "AB"), "until the first bar of the second month": ("AB", None, "firstB", "AB"),
    "from the last bar of the first month until the first of the second": ("BA", "lastA", "firstB", "AB"),
    "from after the first month": ("AB", "lastA+", None, "B"), "until before the second month": ("AB", None, "firstB-", "A"),
    "from the last bar of the second month": ("AB", "lastB", None, "B"), "until the first bar of the first month": ("AB", None, "firstA", "A"),
    "until a date": ("AB", None, "date", "A"), "a date": ("A", "date", "date", "A"), "before everything": ("A", None, "firstA--", ""),
}


def midnight(s, x, yes):
    """a time is (not) midnight"""
    tod = sub(x, mul(fn("floordiv", x, C(DAY)), C(DAY)))
    c = cmp("==", tod, ZERO)
    s.w.st.facts = s.w.st.facts | {c if yes else not_(c)}


def read_unit(root, label, points):
    order, lo, hi, months = READS[label]
    from .ostore import bound

    def body(s):
        w = s.w
        for t in order:
            s.put(t, {"A": "2021-03", "B": "2021-04"}[t])
        ks = _list(s, w.method(s.reader(), "list_keys"))
        want = ["/klines/2021-03", "/klines/2021-04"][:len(order)]
        s.add("unknown" if ks is None else "ok" if ks == want else "bad", "keys", f"keys|{label}", f"stored months are listed as {ks}")
        a = b = None
        kw = {}
        if "date" in (lo, hi):
            s.spec += " day:i"
            d = par("day", True)
            ns = mul(d, C(DAY))
            midnight(s, ns, True)
            end = add(ns, C(DAY))
            s.w.st.facts = s.w.st.facts | {cmp(">=", sub(end, C(1000)), s.first("A"))} | ({cmp(">=", sub(ns, s.first("A")), ZERO), cmp(">=", ns, s.first("A"))} if not lo else set())
            if len(order) > 1:
                s.w.st.facts = s.w.st.facts | {cmp(">=", s.first("B"), end), not_(cmp(">=", sub(end, C(1000)), s.first("B")))}
            if lo:
                s.w.st.facts = s.w.st.facts | {cmp(">=", s.last("A"), ns)}
                a, kw["start_time"] = ns, Ts(ns)
            b, kw["end_time"] = sub(end, ONE), Ts(ns)
        else:
            a = bound(s, lo)
            if a is not None:
                kw["start_time"] = Ts(a)
            b = bound(s, hi) if hi != "firstA--" else sub(s.first("A"), ONE)
            if b is not None:
                midnight(s, b, False)
                kw["end_time"] = Ts(b)
        f = w.method(s.reader(), "read", **kw)
        if not months:
            r = w.st.heap.get(f.aid) if isinstance(f, Ref) and f.kind == "frame" else None
            return s.add("unknown" if r is None else "ok" if not r.d or r.ln is not None and const(r.ln) == 0 else "bad", "range", f"range|{label}", "reading where nothing is stored " + ("gives no rows" if r is not None and not r.d else "gives rows"))
        s.check_frame(f, s.rows(months, a, b), "range", f"range|{label}", f"reading {label}", "klines_date" if hi == "date" and not lo else "klines_read")
        if label.startswith("all") and w.s.findm(s.repo.cls(IO, "TimeBarReader"), "_list_time_range") is not None:
            t0, t1 = s.w.s.items(w.method(s.reader(), "_list_time_range"), s.w.st) or (NONE, NONE)
            s.scalar(t0, s.first("A"), "keys", "coverage|first", "the earliest stored time", "klines_read")
            s.scalar(t1, s.last("B"), "keys", "coverage|last", "the latest stored time", "klines_read")
    return run(root, label, points, body, "TimeBarReader", "read", bars="AB" if len(order) > 1 else "A")


def resample_unit(root, label, points):
    step = {"3s": 3, "2min": 120, "1h": 3600}[label] * 10 ** 9

    def body(s):
        w, p = s.w, s.p
        s.put("A", "2021-03")
        f = w.method(s.reader(), "read", timeframe=S(label))
        want = ref(w, "resampled", [p[SHORT[n] + "A"] for n in ("timestamp", "open", "high", "low", "close", "volume", "trades", "vwap", "median_trade_size")] + [C(step)])
        s.check_frame(f, dict(zip(("timestamp", "open", "high", "low", "close", "volume", "trades", "vwap", "median_trade_size"), want)), "longer", f"longer|{label}", f"bars of {label}", "resampled_" + label)
    return run(root, label, points, body, "TimeBarReader", "_resample", bars="A")


STEPS = ("3s", "2min", "1h")
DAYS = ("the last day complete", "the last day not complete", "from a date")


def day_unit(root, label, points):
    """days up to a date: only days whose bars are all there"""
    def body(s):
        w, p = s.w, s.p
        s.put("A", "2021-03")
        s.spec += " day:i"
        ns = mul(par("day", True), C(DAY))
        midnight(s, ns, True)
        last = add(ns, C(DAY - 10 ** 9))
        done = label != "the last day not complete"
        full = cmp(">=", s.last("A"), last)
        s.w.st.facts = s.w.st.facts | {full if done else not_(full), cmp(">=", sub(add(ns, C(DAY)), C(1000)), s.first("A"))}
        kw = {"end_time": Ts(ns), "timeframe": S("1D")}
        cut = ns if done else sub(ns, C(DAY))
        lo = None
        if label == "from a date":
            s.spec += " from:i"
            lo = mul(par("from", True), C(DAY))
            kw["start_time"] = Ts(lo)
            s.w.st.facts = s.w.st.facts | {cmp(">=", s.last("A"), lo)}
        f = w.method(s.reader(), "read", **kw)
        rows = s.rows("A", lo, sub(add(ns, C(DAY)), ONE))
        key, *cols = ref(w, "resampled", [rows[n] for n in ("timestamp", "open", "high", "low", "close", "volume", "trades", "vwap", "median_trade_size")] + [C(DAY)])
        want = [ref(w, "stored_rows", [key, key, x, x, F, NONE, cut, F, T])[0] for x in [key] + cols]
        s.check_frame(f, dict(zip(("timestamp", "open", "high", "low", "close", "volume", "trades", "vwap", "median_trade_size"), want)), "longer", f"days|{label}", f"days up to a date, {label}",
                      "klines_days_full" if done else "klines_days_part")
    return run(root, label, points, body, "TimeBarReader", "read", bars="A")

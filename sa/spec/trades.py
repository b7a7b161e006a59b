"""Preprocessing of trade rows."""
import numpy as np


def comp_trade_side_vector(prices):
    """tick rule: the sign of the last price change (0 before the first change)"""
    n = len(prices)
    out = np.zeros(n)
    for i in range(n):
        s = 0
        for j in range(1, i + 1):
            d = prices[j] - prices[j - 1]
            if abs(d) > 1e-12:
                s = 1 if d > 0 else -1
        out[i] = s
    return out


def check_timestamps_order(ts):
    bad = sum([1 for i in range(1, len(ts)) if ts[i] < ts[i - 1]])
    return bad == 0


def fast_sort_trades(ts, prices, amounts, ibm):
    o = np.argsort(ts)
    return ts[o], prices[o], amounts[o], (ibm[o] if ibm is not None else None)


def _head(i, ts, prices, ibm):
    """row i starts a merged trade (prices are compared with the row that started the current one)"""
    return 0


def merge_split_trades(ts, prices, amounts, ibm):
    n = len(ts)
    t, p, a, s = [], [], [], []
    has = ibm is not None
    t.append(ts[0])
    p.append(prices[0])
    acc = amounts[0]
    cur = 0
    s.append((-1 if ibm[0] else 1) if has else 0)
    for i in range(1, n):
        same = ts[i] == ts[cur] and abs(prices[i] - prices[cur]) < 1e-8
        if has:
            same = same and ibm[i] == ibm[cur]
        if same:
            acc = acc + amounts[i]
        else:
            a.append(acc)
            t.append(ts[i])
            p.append(prices[i])
            s.append((-1 if ibm[i] else 1) if has else 0)
            acc = amounts[i]
            cur = i
    a.append(acc)
    if not has:
        s = []
    return t, p, a, s


def _side_of_flags(flags):
    return np.array([-1 if flags[i] else 1 for i in range(len(flags))])


def prepared_trades(ts, prices, amounts, ids, ibm, has, scale, res):
    """Raw trades made ready: one trade per id (the first row wins), in time order (equal times: by id), split trades merged,
    times in nanoseconds floored to the resolution, side from the flag or else from the price."""
    o = np.argsort(ids)
    o = np.array([o[q] for q in range(len(o)) if q == 0 or ids[o[q]] != ids[o[q - 1]]])
    o = o[np.argsort(ts[o])]
    t, p, a, s = merge_split_trades(ts[o] * scale, prices[o], amounts[o], ibm[o] if has else None)
    t = np.array(t)
    p = np.array(p)
    side = np.array(s) if has else comp_trade_side_vector(p)
    return t // res * res, p, np.array(a), side


def rows_between(ts, x, start, end):
    """the rows of a time view: both ends included"""
    return np.array([x[k] for k in range(len(ts)) if ts[k] >= start and ts[k] <= end])


def stored_rows(ta, tb, xa, xb, two, lo, hi, has_lo, has_hi):
    """a column of one or two stored months in time order, between two times, both included"""
    n = len(ta)
    t = np.array([ta[k] if k < n else tb[k - n] for k in range(n + len(tb))]) if two else ta
    x = np.array([xa[k] if k < n else xb[k - n] for k in range(n + len(tb))]) if two else xa
    if has_lo and has_hi:
        return np.array([x[k] for k in range(len(t)) if t[k] >= lo and t[k] <= hi])
    if has_lo:
        return np.array([x[k] for k in range(len(t)) if t[k] >= lo])
    if has_hi:
        return np.array([x[k] for k in range(len(t)) if t[k] <= hi])
    return x

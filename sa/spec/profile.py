"""Volume profiles and the structural-break test."""
import numpy as np
import math


def aggregate_footprint(ts, highs, lows, pl, bv, sv, start, end, tick):
    """per price level: what the footprints of the bars inside [start, end] add up to"""
    n = len(ts)
    a = sum([1 for t in ts if t < start])
    b = sum([1 for t in ts if t <= end])
    if a == b:
        a = max(0, a - 1)
    lo, hi = int(round(np.min(lows[a:b]) / tick)), int(round(np.max(highs[a:b]) / tick))
    m = hi - lo + 1
    lev, x, y = np.arange(lo, hi + 1), np.zeros(m), np.zeros(m)
    for k in range(m):
        for t in range(a, b):
            p, u, w = pl[t], bv[t], sv[t]
            for j in range(len(p)):
                if p[j] == lo + k:
                    x[k] += u[j]
                    y[k] += w[j]
    return lev, x, y


def bucket_price_levels(levels, volumes, n_bins):
    """bins of an odd width; every level's volume lands in the bin that covers it (the top level may get its own bin)"""
    lo, hi = np.min(levels), np.max(levels)
    w = max(1, (hi - lo) // n_bins)
    if w % 2 == 0:
        w += 1
    edges = np.arange(lo, hi + w, w, dtype=np.int32)
    k = len(edges) - 1
    if len(edges) < 2:
        edges = np.array([lo, hi + 1], dtype=np.int32)
    top = sum([1 for e in edges if e <= levels[-1]]) - 1
    m = k + 1 if top == k else k
    p, v = np.zeros(m), np.zeros(m)
    for i in range(m):
        if i < k:
            p[i] = (edges[i] + edges[i + 1] - 1) // 2
        else:
            p[i] = hi
    for j in range(len(levels)):
        b = sum([1 for e in edges if e <= levels[j]]) - 1
        v[b] += volumes[j]
    return p, v


def comp_poc_hva_lva(levels, volumes, va):
    n = len(levels)
    poc = np.argmax(volumes)
    need = np.sum(volumes) * (va / 100.0)
    got = volumes[poc]
    hi, lo = levels[poc], levels[poc]
    u, d = poc + 1, poc - 1                       # next pair of levels above / below
    uv = np.sum(volumes[u:min(u + 2, n)]) if u < n else 0.0
    dv = np.sum(volumes[max(d - 1, 0):d + 1]) if d >= 0 else 0.0
    going = True
    while got < need and going:
        if uv == dv and uv == -1.0:
            going = False
        else:
            up, dn = uv >= dv, dv >= uv
            if up:
                got += uv
                hi = levels[min(u + 1, n - 1)]
                u += 2
                uv = np.sum(volumes[u:min(u + 2, n)]) if u < n else -1.0
            if dn:
                got += dv
                lo = levels[max(d - 1, 0)]
                d -= 2
                dv = np.sum(volumes[max(d - 1, 0):d + 1]) if d >= 0 else -1.0
    return levels[poc], hi, lo


def calc_volume_percentage_above_poc(levels, volumes, poc):
    tot = np.sum(volumes)
    above = sum([volumes[i] for i in range(len(levels)) if levels[i] > poc])
    return above / tot if tot > 0 and above > 0 else 0.0


def volume_profile_rolling(ts, highs, lows, pl, bv, sv, window, n_bins, tick, va):
    n = len(ts)
    a, b, c, d = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    w = int(window * 1e9)
    for i in range(n):
        if ts[i] >= ts[0] + w:
            lev, x, y = aggregate_footprint(ts, highs, lows, pl, bv, sv, ts[i] - w, ts[i], tick)
            v = x + y
            if n_bins is not None:
                lev, v = bucket_price_levels(lev, v, n_bins)
            p, h, l = comp_poc_hva_lva(lev, v, va)
            a[i], b[i], c[i] = p, h, l
            d[i] = calc_volume_percentage_above_poc(lev, v, p)
    return a, b, c, d


def _max_s(y, t):
    """sup over n < t of the standardised departure (y_t - y_n), both directions, with the matching critical values"""
    up, dn, cu, cd = -1e-6, -1e-6, 0.0, 0.0
    s2 = 0.0
    for k in range(1, t + 1):
        s2 += (y[k] - y[k - 1]) ** 2
    sig = np.sqrt(s2 / (t - 1))
    if t >= 1 and sig > 0.0:
        for n in range(1, t - 1):
            den = sig * np.sqrt(t - n)
            if den > 1e-16:
                d = (y[t] - y[n]) / den
                if max(0, d) > up:
                    up = max(0, d)
                    cu = np.sqrt(4.6 + np.log(t - n))
                if max(0, -d) > dn:
                    dn = max(0, -d)
                    cd = np.sqrt(4.6 + np.log(t - n))
    return up, dn, cu, cd


def cusum_test_developing(y, warmup):
    z = np.log(y)
    n = len(y)
    a, b, c, d = np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan)
    for t in range(warmup, n):
        p, q, r, s = _max_s(z, t)
        a[t], b[t], c[t], d[t] = p, q, r, s
    return a, b, c, d


def cusum_test_last(y):
    z = np.log(y)
    return _max_s(z, len(y) - 1)


def cusum_test_rolling(close, window, warmup):
    n = len(close)
    z = np.log(close)
    a, b, c, d = np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan)
    w = max(window, warmup + 2)
    for t in range(n):
        if n >= warmup + 2 and t >= warmup:
            if t <= w:
                p, q, r, s = _max_s(z[:t + 1], t)
                a[t], b[t], c[t], d[t] = p, q, r, s
            else:
                p, q, r, s = _max_s(z[t - w:t + 1], w)
                a[t], b[t], c[t], d[t] = p, q, r, s
    return a, b, c, d


def volume_profile_developing(ts, highs, lows, pl, bv, sv, start, end, n_bins, tick, va):
    """row k: the profile of the bars from the start of the range up to its k-th bar"""
    a = sum([1 for t in ts if t < start])
    b = sum([1 for t in ts if t <= end])
    n = b - a
    poc, hva, lva = np.zeros(n), np.zeros(n), np.zeros(n)
    lo, hi = int(round(np.min(lows[a:b]) / tick)), int(round(np.max(highs[a:b]) / tick))
    m = hi - lo + 1
    lev, x = np.arange(lo, hi + 1), np.zeros(m)
    for t in range(a, b):
        p, u, w = pl[t], bv[t], sv[t]
        for j in range(len(p)):
            x[p[j] - lo] += u[j] + w[j]
        if n_bins is None:
            c, h, l = comp_poc_hva_lva(lev, x, va)
        else:
            i0 = min([k for k in range(m) if x[k] != 0])
            i1 = max([k for k in range(m) if x[k] != 0])
            q, v = bucket_price_levels(lev[i0:i1 + 1], x[i0:i1 + 1], n_bins)
            c, h, l = comp_poc_hva_lva(q, v, va)
        poc[t - a], hva[t - a], lva[t - a] = c, h, l
    return ts[a:b], poc, hva, lva


def profile_prices(ts, highs, lows, pl, bv, sv, window, n_bins, tick, va):
    """the rolling profile in price units; rows before the first full window (and rows at price 0) are missing"""
    a, b, c, d = volume_profile_rolling(ts, highs, lows, pl, bv, sv, window, n_bins, tick, va)
    n = len(ts)
    x, y, z = np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan)
    for i in range(n):
        if a[i] != 0:
            x[i] = a[i] * tick
        if b[i] != 0:
            y[i] = b[i] * tick
        if c[i] != 0:
            z[i] = c[i] * tick
    return x, y, z, d


def profile_range(ts, highs, lows, pl, bv, sv, window, n_bins, tick, va, start, end):
    """the profile of the bars between the start less one window and the end"""
    w = int(window * 1e9)
    i = sum([1 for t in ts if t < start - w])
    j = sum([1 for t in ts if t <= end])
    a, b, c, d = profile_prices(ts[i:j], highs[i:j], lows[i:j], pl[i:j], bv[i:j], sv[i:j], window, n_bins, tick, va)
    return ts[i:j], a, b, c, d


def comp_price_tick_size(prices):
    """the largest step of which every distance between traded prices (at the resolution of the smallest one) is a multiple"""
    u = np.unique(np.round(prices[:min(10000, len(prices))], decimals=12))
    n = len(u)
    if n <= 1:
        return 0.0
    small = min([u[i + 1] - u[i] for i in range(n - 1)])
    scale = 10.0 ** (-np.floor(np.log10(small)))
    g = 0
    for i in range(n - 1):
        g = math.gcd(g, int(np.round(u[i + 1] * scale)) - int(np.round(u[i] * scale)))
    return g / scale

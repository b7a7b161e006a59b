"""What a bar is: the columns of bar i are functions of the trades ci[i]+1 .. ci[i+1] only, in their order."""
import numpy as np


def comp_bar_ohlcv(prices, volumes, ci):
    n = len(ci) - 1
    o, h, l, c = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    v, w, k, m = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    for i in range(n):
        a, b = ci[i] + 1, ci[i + 1]
        if a > b:                                   # no trade: the last price is carried
            o[i] = h[i] = l[i] = c[i] = prices[b]
        else:
            p, q = prices[a:b + 1], volumes[a:b + 1]
            o[i] = prices[a]
            h[i] = np.max(p)
            l[i] = np.min(p)
            c[i] = prices[b]
            v[i] = np.sum(q)
            w[i] = np.sum(p * q) / np.sum(q) if np.sum(q) > 0 else 0.0
            k[i] = b - a + 1
            m[i] = np.median(q)
    return o, h, l, c, v, w, k, m


def _cum(w, sides, a, b, sign):
    """extreme of the running signed sum of w over the sided trades of the bar (0 when there is none)"""
    run = 0.0
    best = 0.0
    seen = False
    for j in range(a, b + 1):
        if sides[j] == 1 or sides[j] == -1:
            run = run + sides[j] * w[j]
            if not seen or sign * run > sign * best:
                best = run
            seen = True
    return best


def comp_bar_directional_features(prices, volumes, ci, sides):
    n = len(ci) - 1
    dollars = prices * volumes
    ones = np.ones(len(prices))
    kb, ks, vb, vs, db, ds, ms, xs = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    tmin, tmax, vmin, vmax, dmin, dmax = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    for i in range(n):
        a, b = ci[i] + 1, ci[i + 1]
        for j in range(a, b + 1):
            if sides[j] == 1:
                kb[i] += 1
                vb[i] += volumes[j]
                db[i] += dollars[j]
            if sides[j] == -1:
                ks[i] += 1
                vs[i] += volumes[j]
                ds[i] += dollars[j]
        tot = 0.0
        top = 0.0
        for j in range(a, b + 1):
            if j > 0 and sides[j] != sides[j - 1]:
                g = abs(prices[j] - prices[j - 1])
                tot += g
                top = max(top, g)
        ms[i] = tot / (kb[i] + ks[i])
        xs[i] = top
        tmin[i] = _cum(ones, sides, a, b, -1)
        tmax[i] = _cum(ones, sides, a, b, 1)
        vmin[i] = _cum(volumes, sides, a, b, -1)
        vmax[i] = _cum(volumes, sides, a, b, 1)
        dmin[i] = _cum(dollars, sides, a, b, -1)
        dmax[i] = _cum(dollars, sides, a, b, 1)
    return kb, ks, vb, vs, db, ds, ms, xs, tmin, tmax, vmin, vmax, dmin, dmax


def comp_bar_trade_size_features(amounts, theta, ci, theta_mult):
    n = len(ci) - 1
    mean, p95, block, gini = np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan)
    for i in range(n):
        a, b = ci[i] + 1, ci[i + 1]
        if a <= b and theta[i] != 0:
            thr = theta[i] * theta_mult
            q = amounts[a:b + 1]
            mean[i] = np.log1p(np.sum(q) / (b - a + 1) / thr)
            p95[i] = np.log1p(np.percentile(q, 95) / thr)
            if np.sum(q) != 0:
                block[i] = sum([x for x in q if x > thr]) / np.sum(q)
                gini[i] = 1 - np.sum((q / np.sum(q)) ** 2)
                if a == b:
                    gini[i] = 0.0
    return mean, p95, block, gini


def comp_footprint_features(levels, bv, sv, imb):
    n = len(levels)
    bi, si = np.zeros(n, dtype=np.bool_), np.zeros(n, dtype=np.bool_)
    for k in range(n):
        if k > 0:                                    # diagonal: bids of a level against asks of the level below
            bi[k] = bv[k] > sv[k - 1] * imb
        if k < n - 1:
            si[k] = sv[k] > bv[k + 1] * imb
    best, sgn, run, last = 0, 0, 0, 0
    for k in range(n):
        s = 1 if bi[k] else (-1 if si[k] else 0)
        run = run + 1 if (s != 0 and s == last) else (1 if s != 0 else 0)
        last = s
        if run > best:
            best, sgn = run, s
    tv = bv + sv
    tot = np.sum(tv)
    cot = levels[np.argmax(tv)]
    skew, gini = 0.0, 0.0
    if tot > 0:
        skew = np.sum((levels - np.sum(levels * tv) / tot) * tv) / tot
        gini = 1 - np.sum((tv / tot) ** 2)
    return bi, si, best * sgn, cot, skew, gini


def comp_bar_footprints(prices, amounts, ci, sides, tick, lows, highs, imb):
    n = len(ci) - 1
    pl, bv, sv, bt, st, bi, si = [], [], [], [], [], [], []
    bs, ss, cot, run, skew, gini = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    for i in range(n):
        a, b = ci[i] + 1, ci[i + 1]
        lo, hi = int(round(lows[i] / tick)), int(round(highs[i] / tick))
        m = hi - lo + 1
        lev = np.arange(lo, hi + 1)
        b1, s1, b2, s2 = np.zeros(m), np.zeros(m), np.zeros(m), np.zeros(m)
        for j in range(a, b + 1):
            k = int(round(prices[j] / tick)) - lo
            if sides[j] == 1:
                b1[k] += amounts[j]
                b2[k] += 1
            if sides[j] == -1:
                s1[k] += amounts[j]
                s2[k] += 1
        pl.append(lev)
        bv.append(b1)
        sv.append(s1)
        bt.append(b2)
        st.append(s2)
        x, y, r, c, k, g = comp_footprint_features(lev, b1, s1, imb)
        bi.append(x)
        si.append(y)
        bs[i] = np.sum(x)
        ss[i] = np.sum(y)
        cot[i], run[i], skew[i], gini[i] = c, r, k, g
    return pl, bv, sv, bt, st, bi, si, bs, ss, cot, run, skew, gini

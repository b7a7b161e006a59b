"""Labels, their weights, and event sampling."""
import numpy as np


def cusum_filter(series, thr):
    n = len(series)
    out = []
    up, dn = 0.0, 0.0
    for i in range(1, n):
        h = thr[i]
        r = np.log(series[i] / series[i - 1])
        up = max(0.0, up + r)
        dn = min(0.0, dn + r)
        if dn < -h:
            out.append(i)
            dn = 0.0
        elif up > h:
            out.append(i)
            up = 0.0
    return out


def triple_barrier(ts, close, ev, targets, hb, vb, mct, side, min_ret):
    m = len(ev)
    n = len(ts)
    lab, touch, ret, ratio = np.zeros(m), np.zeros(m), np.full(m, np.nan), np.full(m, np.nan)
    for e in range(m):
        t0 = ev[e]
        up, dn = targets[e] * hb[1], -targets[e] * hb[0]
        sgn = side[e] if side is not None else 1
        last = t0
        for j in range(n):
            if ts[j] <= ts[t0] + vb * 1e9:
                last = j
        if last <= t0:
            touch[e] = t0
        else:
            hit = -1
            r, mu, ml = 0.0, 0.0, 0.0
            for j in range(t0 + 1, last + 1):
                if hit < 0 and ts[j] - ts[t0] >= mct * 1e9:
                    r = sgn * np.log(close[j] / close[t0])
                    mu = max(mu, r / up) if r > 0 else mu
                    ml = max(ml, r / dn) if r < 0 else ml
                    if r >= up or r <= dn:
                        hit = j
            touch[e] = hit if hit >= 0 else last
            ret[e] = r
            if side is not None:
                lab[e] = 1 if r >= min_ret else 0
            else:
                lab[e] = -1 if r < 0 else 1
            if hit >= 0:
                ratio[e] = 1.0
            else:
                ratio[e] = min(mu / (1 + ml) if r > 0 else ml / (1 + mu), 1.0)
    return lab, touch, ret, ratio


def average_uniqueness(ts, ev, touch):
    n, m = len(ts), len(ev)
    conc, w = np.zeros(n), np.zeros(m)
    for k in range(n):
        conc[k] = sum([1 for e in range(m) if ev[e] <= k and k <= touch[e]])
    for e in range(m):
        w[e] = sum([1 / conc[k] for k in range(ev[e], touch[e] + 1)]) / (touch[e] - ev[e] + 1)
    return w, conc


def return_attribution(ev, touch, close, conc, normalize):
    m = len(ev)
    w = np.zeros(m)
    for e in range(m):
        s = 0.0
        for j in range(ev[e], touch[e] + 1):
            if j > 0 and conc[j] > 0:
                s += np.log(close[j] / close[j - 1]) / conc[j]
        w[e] = abs(s)
    if normalize:
        w = w * m / np.sum(w)
    return w


def time_decay(au, last):
    tot = np.sum(au)
    c = np.cumsum(au)
    m = len(au)
    out = np.zeros(m)
    for e in range(m):
        if last >= 0:
            out[e] = last + (1 - last) * c[e] / tot
        else:
            out[e] = max(1 - (1 - c[e] / tot) / (1 + last), 0.0)
    return out


def class_balance_weights(labels, base):
    cls = np.unique(labels)
    k = len(cls)
    cw, sw = np.zeros(k), np.zeros(k)
    n = len(labels)
    out = np.zeros(n)
    for c in range(k):
        sw[c] = sum([base[i] for i in range(n) if labels[i] == cls[c]])
    tot = np.sum(base)
    for c in range(k):
        if sw[c] > 0:
            cw[c] = tot / (k * sw[c])
    for i in range(n):
        for c in range(k):
            if labels[i] == cls[c]:
                out[i] = base[i] * cw[c]
    return cls, cw, sw, out


def final_weights(au, last, ra, vw, labels):
    m = len(au)
    decay = time_decay(au, last)
    base = au
    if ra is not None:
        base = ra * m / np.sum(ra)
    w = decay * base
    if vw is not None:
        w = w * vw
    w = w / (np.sum(w) / m)
    if labels is not None:
        a, b, c, d = class_balance_weights(labels, w)
        return decay, base, d
    return decay, base, w


def event_labels(ts, close, et, feat, target, given, use_given, side, meta, min_ret, h0, h1, vb, mct):
    m = len(et)
    n = len(ts)
    big = max(h0, h1)
    start = m
    for e in range(m):
        if start == m and not np.isnan(feat[e]):
            start = e
    idx = [e for e in range(m) if e >= start and abs(target[e]) * big >= min_ret and et[e] + vb * 1000000000 <= ts[n - 1]]
    k = len(idx)
    ev = np.zeros(k)
    tg = np.zeros(k)
    sd = np.zeros(k)
    when = np.zeros(k)
    for e in range(k):
        tg[e] = target[idx[e]]
        when[e] = et[idx[e]]
        sd[e] = side[idx[e]]
        if use_given:
            ev[e] = given[idx[e]]
        else:
            ev[e] = sum([1 for j in range(n) if ts[j] < et[idx[e]]])
    if meta:
        lab, touch, ret, ratio = triple_barrier(ts, close, ev, tg, (h0, h1), vb, mct, sd, min_ret)
    else:
        lab, touch, ret, ratio = triple_barrier(ts, close, ev, tg, (h0, h1), vb, mct, None, min_ret)
    tt = np.zeros(k)
    for e in range(k):
        tt[e] = ts[int(touch[e])]
    return ev, touch, lab, ret, ratio, tt, when, tg

"""Indicator kernels: the formula at each row."""
import numpy as np
import math


def ewma(y, span):
    n = len(y)
    out = np.zeros(n)
    a = 1 - 2 / (span + 1)
    for t in range(n):
        out[t] = sum([a ** (t - k) * y[k] for k in range(t + 1)]) / sum([a ** (t - k) for k in range(t + 1)])
    return out


def sma(array, window):
    n = len(array)
    out = np.full(n, np.nan)
    for t in range(window - 1, n):
        out[t] = np.mean(array[t - window + 1:t + 1])
    return out


def roc(price, period):
    n = len(price)
    out = np.full(n, np.nan)
    for t in range(period, n):
        out[t] = 100 * (price[t] / price[t - period] - 1)
    return out


def rsi_wilder(close, window):
    n = len(close)
    out = np.full(n, np.nan)
    g, l = 0.0, 0.0
    for t in range(1, n):
        d = close[t] - close[t - 1]
        if t <= window:
            g += max(d, 0.0) / window
            l += max(-d, 0.0) / window
        else:
            g = (g * (window - 1) + max(d, 0.0)) / window
            l = (l * (window - 1) + max(-d, 0.0)) / window
        if t >= window:
            out[t] = 100 - 100 / (1 + g / l) if l > 0 else 100
    return out


def stoch_k(close, low, high, length):
    n = len(close)
    out = np.full(n, np.nan)
    for t in range(length - 1, n):
        lo, hi = np.min(low[t - length + 1:t + 1]), np.max(high[t - length + 1:t + 1])
        if hi > lo:
            out[t] = 100 * (close[t] - lo) / (hi - lo)
    return out


def vwap_distance(close, volume, n_periods, is_log):
    n = len(close)
    out = np.full(n, np.nan)
    for t in range(n_periods - 1, n):
        c, v = close[t - n_periods + 1:t + 1], volume[t - n_periods + 1:t + 1]
        r = close[t] / (np.sum(c * v) / np.sum(v))
        out[t] = np.log(r) if is_log else r - 1
    return out


def time_cues(ts):
    n = len(ts)
    sd, cd, sw, cw = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    asia, eu, us, tr, top = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    for i in range(n):
        s = ts[i] // 1000000000
        d = s % 86400
        w = (s // 86400 + 3) % 7                       # 1970-01-01 was a Thursday
        sd[i] = np.sin(2 * np.pi * d / 86400)
        cd[i] = np.cos(2 * np.pi * d / 86400)
        sw[i] = np.sin(2 * np.pi * w / 7)
        cw[i] = np.cos(2 * np.pi * w / 7)
        asia[i] = 1 if d < 8 * 3600 else 0
        eu[i] = 1 if d >= 7 * 3600 and d < 15 * 3600 else 0
        us[i] = 1 if d >= 13 * 3600 and d < 21 * 3600 else 0
        m = d % 3600
        top[i] = 1 if m < 60 else 0
        h = d - m
        tr[i] = 1 if m < 60 and (h == 0 or h == 7 * 3600 or h == 13 * 3600) else 0
    return sd, cd, sw, cw, asia, eu, us, tr, top


def _tr(high, low, close, i):
    return max(high[i] - low[i], abs(high[i] - close[i - 1]), abs(low[i] - close[i - 1]))


def adx_core(high, low, close, length):
    n = len(high)
    out, dx, tr, pd, md = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
    a, p, m = np.zeros(n), np.zeros(n), np.zeros(n)
    for i in range(1, n):
        up, dn = high[i] - high[i - 1], low[i - 1] - low[i]
        tr[i] = _tr(high, low, close, i)
        pd[i] = up if up > dn and up > 0 else 0.0
        md[i] = dn if dn > up and dn > 0 else 0.0
    for i in range(length, n):                          # Wilder sums, seeded with the first `length` rows
        if i == length:
            a[i], p[i], m[i] = np.sum(tr[1:length + 1]), np.sum(pd[1:length + 1]), np.sum(md[1:length + 1])
        else:
            a[i] = a[i - 1] * (1 - 1 / length) + tr[i]
            p[i] = p[i - 1] * (1 - 1 / length) + pd[i]
            m[i] = m[i - 1] * (1 - 1 / length) + md[i]
        if a[i] > 0 and p[i] + m[i] > 0:
            dx[i] = 100 * abs(p[i] - m[i]) / (p[i] + m[i])
    for i in range(2 * length - 1, n):
        if i == 2 * length - 1:
            out[i] = np.sum(dx[length:2 * length]) / length
        else:
            out[i] = (out[i - 1] * (length - 1) + dx[i]) / length
    return out


def comp_lagged_returns(ts, close, window_sec, is_log):
    n = len(close)
    out = np.full(n, np.nan)
    w = window_sec * 1000000000.0
    for i in range(n):
        lag = -1
        for j in range(n):
            if ts[j] <= ts[i] - w:
                lag = j
        if lag >= 0:
            r = close[i] / close[lag]
            out[i] = np.log(r) if is_log else r - 1
    return out


def comp_zscore(x, window, ddof):
    n = len(x)
    out = np.full(n, np.nan)
    for t in range(window - 1, n):
        q = x[t - window + 1:t + 1]
        m = np.mean(q)
        v = np.sum((q - m) ** 2) / (window - ddof)
        if v != 0:
            out[t] = (x[t] - m) / np.sqrt(v)
    return out


def comp_burst_ratio(x, window):
    n = len(x)
    out = np.full(n, np.nan)
    for t in range(window - 1, n):
        m = np.median(x[t - window + 1:t + 1])
        if m > 0:
            out[t] = x[t] / m
    return out


def pct_change(x, periods):
    n = len(x)
    out = np.full(n, np.nan)
    for t in range(periods, n):
        if x[t - periods] > 0:
            out[t] = x[t] / x[t - periods] - 1
    return out


def ewms(y, span):
    n = len(y)
    out = np.full(n, np.nan)
    if span > 1:
        a = 1 - 2 / (span + 1)
        for t in range(n):
            ks = [k for k in range(t + 1) if not np.isnan(y[k])]
            if len(ks) >= 2:
                w = sum([a ** (t - k) for k in ks])
                w2 = sum([(a ** (t - k)) ** 2 for k in ks])
                m = sum([a ** (t - k) * y[k] for k in ks]) / w
                v = sum([a ** (t - k) * (y[k] - m) ** 2 for k in ks]) / w
                if w * w - w2 > 0:
                    out[t] = np.sqrt(max(v * w * w / (w * w - w2), 0.0))
    return out


def ewmst_mean0(ts, y, half_life, floor):
    n = len(y)
    out = np.full(n, np.nan)
    u, v = 0.0, 0.0
    for i in range(1, n):
        d = np.exp(-(ts[i] - ts[i - 1]) / 1e9 / half_life)
        u, v = d * u, d * v
        if not np.isnan(y[i]):
            u, v = u + (1 - d) * y[i] ** 2, v + (1 - d)
        if v > 0:
            s = np.sqrt(u / v)
            out[i] = max(s, floor)
    return out


def ewmst(ts, y, half_life, floor):
    n = len(y)
    out = np.full(n, np.nan)
    v, v2, s1, s2 = 0.0, 0.0, 0.0, 0.0
    for i in range(1, n):
        d = np.exp(-(ts[i] - ts[i - 1]) / 1e9 / half_life)
        a = 1 - d
        v, v2, s1, s2 = d * v, d ** 2 * v2, d * s1, d * s2
        if not np.isnan(y[i]):
            v, v2, s1, s2 = v + a, v2 + a ** 2, s1 + a * y[i], s2 + a * y[i] ** 2
        if v > 0:
            raw = s2 / v - (s1 / v) ** 2
            den = v - v2 / v
            var = raw * v / den if den > 0 and raw > 0 else 0.0
            out[i] = max(np.sqrt(var), floor)
    return out


def true_range(high, low, close):
    n = len(high)
    out = np.full(n, np.nan)
    for i in range(n):
        if i == 0:
            if not np.isnan(high[0]) and not np.isnan(low[0]):
                out[0] = high[0] - low[0]
        elif not np.isnan(high[i]) and not np.isnan(low[i]) and not np.isnan(close[i - 1]):
            out[i] = _tr(high, low, close, i)
    return out


def realized_vol(r, window, is_sample):
    n = len(r)
    out = np.full(n, np.nan)
    for t in range(window - 1, n):
        q = [x for x in r[t - window + 1:t + 1] if not np.isnan(x)]
        if len(q) > 1:
            out[t] = np.sqrt(sum([x * x for x in q]) / ((len(q) - 1) if is_sample else len(q)))
    return out


def bollinger_percent_b(close, window, num_std):
    n = len(close)
    out = np.full(n, np.nan)
    for t in range(window - 1, n):
        q = close[t - window + 1:t + 1]
        m = np.mean(q)
        sd = np.sqrt(np.sum((q - m) ** 2) / (window - 1))
        if sd > 0:
            out[t] = (close[t] - (m - num_std * sd)) / (2 * num_std * sd)
    return out


def parkinson_range(high, low):
    n = len(high)
    out = np.zeros(n)
    for i in range(n):
        out[i] = np.log(high[i] / low[i]) ** 2 / (4 * np.log(2.0))
    return out


def atr(high, low, close, window, ema, normalize):
    n = len(high)
    tr = true_range(high, low, close)
    out = np.full(n, np.nan)
    cur = np.nan
    for t in range(n):
        if ema and t >= window:
            cur = (cur * (window - 1) + tr[t]) / window
        elif t >= window - 1:
            q = [x for x in tr[t - window + 1:t + 1] if not np.isnan(x)]
            cur = sum(q) / len(q) if len(q) > 0 else np.nan
        if t >= window - 1:
            out[t] = cur
            if normalize and not np.isnan(high[t]) and not np.isnan(low[t]) and high[t] + low[t] > 0:
                out[t] = cur / ((high[t] + low[t]) / 2)
    return out


def rolling_variance_nb(x, window, ddof, min_periods):
    n = len(x)
    out = np.full(n, np.nan)
    for t in range(window - 1, n):
        q = [v for v in x[t - window + 1:t + 1] if not np.isnan(v)]
        k = len(q)
        if k >= min_periods and k > ddof:
            m = sum(q) / k
            out[t] = sum([(v - m) ** 2 for v in q]) / (k - ddof)
    return out


def variance_ratio_1_4_core(price, window, ddof, ret):
    n = len(price)
    out = np.full(n, np.nan)
    if n >= window + 4:
        r1, r4 = np.full(n, np.nan), np.full(n, np.nan)
        for i in range(1, n):
            g = price[i] / price[i - 1]
            r1[i] = np.log(g) if ret == "log" else g - 1.0
            if i >= 4:
                r4[i] = r1[i] + r1[i - 1] + r1[i - 2] + r1[i - 3]
        v1 = rolling_variance_nb(r1, window, ddof, 1)
        v4 = rolling_variance_nb(r4, window, ddof, 1)
        for i in range(n):
            if not np.isnan(v1[i]) and not np.isnan(v4[i]) and v4[i] > 0:
                out[i] = 4 * v1[i] / v4[i]
    return out


def comp_flow_acceleration(volumes, window, recent):
    n = len(volumes)
    out = np.full(n, np.nan)
    if recent < window:
        for t in range(window - 1, n):
            a = np.sum(volumes[t - recent + 1:t + 1])
            b = np.sum(volumes[t - window + 1:t - recent + 1])
            out[t] = np.log((a + 1e-12) / (b + 1e-12))
    return out


def vpin(vb, vs, window):
    n = len(vb)
    out = np.full(n, np.nan)
    for t in range(window - 1, n):
        b, s = vb[t - window + 1:t + 1], vs[t - window + 1:t + 1]
        if np.sum(b) + np.sum(s) > 1e-9:
            out[t] = np.sum(np.abs(b - s)) / (np.sum(b) + np.sum(s))
    return out


def _pearson(r, v):
    n = len(r)
    a, b = np.sum(r) / n, np.sum(v) / n
    x, y = np.sum((r - a) ** 2), np.sum((v - b) ** 2)
    if x > 0 and y > 0:
        return np.sum((r - a) * (v - b)) / np.sqrt(x * y)
    return np.nan


def rolling_price_volume_correlation(price, volume, window):
    n = len(price)
    out = np.full(n, np.nan)
    r = np.full(n, np.nan)
    for t in range(1, n):
        r[t] = price[t] / price[t - 1] - 1
    for t in range(window, n):
        if window > 1:
            out[t] = _pearson(r[t - window + 1:t + 1], volume[t - window + 1:t + 1])
    return out


def rolling_price_volume_correlation__asis(price, volume, window):
    """known finding: rows 4..9 of a window of rising prices and monotonic volumes report exactly 1 or -1"""
    n = len(price)
    out = rolling_price_volume_correlation(price, volume, window)
    for t in range(window, n):
        if t >= 4 and t < 10:
            a = t - window + 1
            up = sum([1 for j in range(a, t) if price[j + 1] > price[j]]) == window - 1
            vu = sum([1 for j in range(a, t) if volume[j + 1] > volume[j]]) == window - 1
            vd = sum([1 for j in range(a, t) if volume[j + 1] < volume[j]]) == window - 1
            if up and vu:
                out[t] = 1.0
            elif up and vd:
                out[t] = -1.0
    return out

"""Where bars close: positions of the closing trades."""
import numpy as np

NS = 1000000000.0


def _time_bar_indexer(ts, interval):
    step = interval * NS
    first = np.floor(ts[0] / step)
    last = np.ceil(ts[-1] / step)
    n = int(last - first) + 2
    clock, close = np.zeros(n), np.zeros(n)
    for k in range(n):
        clock[k] = (first + k) * step
        close[k] = sum([1 for t in ts if t <= clock[k]]) - 1
    return clock, close


def _tick_bar_indexer(ts, threshold):
    out = []
    out.append(0)
    since = 1
    for i in range(1, len(ts)):
        since += 1
        if since >= threshold:
            out.append(i)
            since = 0
    return out


def _volume_bar_indexer(volumes, threshold):
    out = []
    out.append(0)
    acc = volumes[0]
    for i in range(1, len(volumes)):
        acc += volumes[i]
        if acc >= threshold:
            out.append(i)
            acc = 0.0
    return out


def _dollar_bar_indexer(prices, volumes, threshold):
    out = []
    out.append(0)
    acc = prices[0] * volumes[0]
    for i in range(1, len(prices)):
        acc += prices[i] * volumes[i]
        if acc >= threshold:
            out.append(i)
            acc -= threshold                          # the overshoot counts towards the next bar
    return out


def _cusum_bar_indexer(ts, prices, sigma, floor, mult):
    n = len(prices)
    known = [i for i in range(n) if not np.isnan(sigma[i])]
    s0 = known[0] if len(known) > 0 else 0
    last = np.zeros(n)
    cur = np.nan
    for i in range(n):
        if not np.isnan(sigma[i]):
            cur = sigma[i]
        last[i] = cur
    out = []
    out.append(s0)
    up, dn = 0.0, 0.0
    for i in range(s0 + 1, n):
        r = np.log(prices[i] / prices[i - 1])
        up = max(0.0, up + r)
        dn = min(0.0, dn + r)
        if i == n - 1 or ts[i + 1] != ts[i]:          # only the last trade of a timestamp can close a bar
            lam = max(mult * last[i], floor)
            if up >= lam:
                out.append(i)
                up = 0.0
            elif dn <= -lam:
                out.append(i)
                dn = 0.0
    return out

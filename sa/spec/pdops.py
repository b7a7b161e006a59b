"""pandas window operations, by their documentation: full windows only, a missing value anywhere in the window gives a missing
result; exponential weights count positions, missing observations carry the last mean forward."""
import numpy as np
from numba import njit


@njit
def rolling_sum(x, w):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(w - 1, n):
        s = 0.0
        for j in range(i - w + 1, i + 1):
            s += x[j]
        out[i] = s
    return out


@njit
def rolling_mean(x, w):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(w - 1, n):
        s = 0.0
        for j in range(i - w + 1, i + 1):
            s += x[j]
        out[i] = s / w
    return out


@njit
def rolling_var(x, w, ddof):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(w - 1, n):
        s = 0.0
        for j in range(i - w + 1, i + 1):
            s += x[j]
        m = s / w
        q = 0.0
        for j in range(i - w + 1, i + 1):
            q += (x[j] - m) ** 2
        out[i] = q / (w - ddof)
    return out


@njit
def rolling_std(x, w, ddof):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(w - 1, n):
        s = 0.0
        for j in range(i - w + 1, i + 1):
            s += x[j]
        m = s / w
        q = 0.0
        for j in range(i - w + 1, i + 1):
            q += (x[j] - m) ** 2
        out[i] = np.sqrt(q / (w - ddof))
    return out


@njit
def rolling_max(x, w):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(w - 1, n):
        out[i] = np.max(x[i - w + 1:i + 1])
    return out


@njit
def rolling_min(x, w):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(w - 1, n):
        out[i] = np.min(x[i - w + 1:i + 1])
    return out


@njit
def rolling_corr(x, y, w):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(w - 1, n):
        sx = 0.0
        sy = 0.0
        for j in range(i - w + 1, i + 1):
            sx += x[j]
            sy += y[j]
        mx = sx / w
        my = sy / w
        sxy = 0.0
        sxx = 0.0
        syy = 0.0
        for j in range(i - w + 1, i + 1):
            sxy += (x[j] - mx) * (y[j] - my)
            sxx += (x[j] - mx) ** 2
            syy += (y[j] - my) ** 2
        out[i] = sxy / np.sqrt(sxx * syy)
    return out


@njit
def ewm_adjusted(x, alpha):
    n = len(x)
    out = np.full(n, np.nan)
    m = np.nan
    wt = 1.0
    for i in range(n):
        if np.isnan(m):
            if not np.isnan(x[i]):
                m = x[i]
        else:
            wt = wt * (1.0 - alpha)
            if not np.isnan(x[i]):
                m = (wt * m + x[i]) / (wt + 1.0)
                wt = wt + 1.0
        out[i] = m
    return out


@njit
def ewm_recursive(x, alpha):
    n = len(x)
    out = np.full(n, np.nan)
    m = np.nan
    wt = 1.0
    for i in range(n):
        if np.isnan(m):
            if not np.isnan(x[i]):
                m = x[i]
        else:
            wt = wt * (1.0 - alpha)
            if not np.isnan(x[i]):
                m = (wt * m + alpha * x[i]) / (wt + alpha)
                wt = 1.0
        out[i] = m
    return out


@njit
def kurtosis(x):
    """biased excess kurtosis; missing when all values are equal"""
    n = len(x)
    m = np.sum(x) / n
    m2 = 0.0
    m4 = 0.0
    for j in range(n):
        m2 += (x[j] - m) ** 2
        m4 += (x[j] - m) ** 4
    m2 = m2 / n
    m4 = m4 / n
    if m2 == 0:
        return np.nan
    return m4 / m2 ** 2 - 3.0


@njit
def slope(x, y):
    """least squares slope of y on x"""
    n = len(x)
    mx = np.sum(x) / n
    my = np.sum(y) / n
    sxy = 0.0
    sxx = 0.0
    for j in range(n):
        sxy += (x[j] - mx) * (y[j] - my)
        sxx += (x[j] - mx) ** 2
    return sxy / sxx


@njit
def window_sum(ts, x, w, closed):
    """sum over the rows at most w (closed: at most, else: less than w) nanoseconds old"""
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(n):
        s = 0.0
        for j in range(n):
            if j <= i:
                if ts[j] > ts[i] - w or (closed and ts[j] == ts[i] - w):
                    s += x[j]
        out[i] = s
    return out

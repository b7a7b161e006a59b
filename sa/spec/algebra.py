"""What the feature operators mean, row by row."""
import numpy as np
from numba import njit
from sa.spec.pdops import rolling_mean, rolling_std, rolling_sum, ewm_adjusted, ewm_recursive


@njit
def lag(x, p):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(p, n):
        out[i] = x[i - p]
    return out


@njit
def log_(x):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(n):
        if x[i] > 0:
            out[i] = np.log(x[i])
    return out


@njit
def log1p_(x):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(n):
        if x[i] >= 0:
            out[i] = np.log(1 + x[i])
    return out


@njit
def sqrt_(x):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(n):
        if x[i] >= 0:
            out[i] = np.sqrt(x[i])
    return out


@njit
def at_least(x, c):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(n):
        out[i] = c if x[i] < c else x[i]
    return out


@njit
def at_most(x, c):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(n):
        out[i] = c if x[i] > c else x[i]
    return out


def lo2(x, y):
    return np.minimum(x, y)


def hi2(x, y):
    return np.maximum(x, y)

import numpy as np


def resampled(t, o, h, l, c, v, trades, w, m, step):
    """bars of consecutive rows whose times fall in the same interval of the given length"""
    n = len(t)
    start = np.array([k for k in range(n) if k == 0 or np.floor(t[k] / step) != np.floor(t[k - 1] / step)])
    g = len(start)
    key = np.zeros(g)
    O, H, L, Cl, V, N, W, M = np.zeros(g), np.zeros(g), np.zeros(g), np.zeros(g), np.zeros(g), np.zeros(g), np.zeros(g), np.zeros(g)
    for q in range(g):
        key[q] = np.floor(t[start[q]] / step) * step
        end = n
        if q + 1 < g:
            end = start[q + 1]
        O[q] = o[start[q]]
        Cl[q] = c[end - 1]
        H[q] = np.max(h[start[q]:end])
        L[q] = np.min(l[start[q]:end])
        V[q] = np.sum(v[start[q]:end])
        N[q] = np.sum(trades[start[q]:end])
        W[q] = np.sum(w[start[q]:end] * v[start[q]:end]) / np.sum(v[start[q]:end])
        M[q] = weighted_median(m[start[q]:end], trades[start[q]:end])
    return key, O, H, L, Cl, V, N, W, M


def weighted_median(x, weight):
    """smallest value below or at which at least half of the weight lies"""
    half = np.sum(weight) / 2
    return np.min(np.array([x[k] for k in range(len(x)) if np.sum(np.array([weight[j] for j in range(len(x)) if x[j] <= x[k]])) >= half]))

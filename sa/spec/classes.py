"""What each feature transform is documented to return, from its declared input columns (in declared order) and its options.
Kernels are referred to by name: that they compute their own definition is the subject of other properties."""
import numpy as np
from numba import njit
from finmlkit.feature.core.utils import comp_lagged_returns, comp_zscore, comp_burst_ratio, pct_change
from finmlkit.feature.core.volatility import ewmst, realized_vol, bollinger_percent_b, parkinson_range, atr, variance_ratio_1_4_core
from finmlkit.feature.core.volume import comp_flow_acceleration, vpin
from finmlkit.feature.core.reversion import vwap_distance
from finmlkit.feature.core.time import time_cues
from finmlkit.feature.core.ma import ewma, sma
from finmlkit.feature.core.momentum import roc, rsi_wilder, stoch_k
from finmlkit.feature.core.trend import adx_core
from finmlkit.feature.core.structural_break.cusum import cusum_test_rolling
from finmlkit.feature.core.correlation import rolling_price_volume_correlation
from sa.spec.pdops import rolling_mean, rolling_std, rolling_corr, ewm_adjusted, kurtosis, slope, window_sum


def Identity(close):
    return close


@njit
def shifted(x, p):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(p, n):
        out[i] = x[i - p]
    return out


def Lag(close, periods):
    return shifted(close, periods)


def ReturnT(close, timestamps, window, is_log):
    return comp_lagged_returns(timestamps, close, window, is_log)


@njit
def simple_ret(x, p):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(p, n):
        out[i] = x[i] / x[i - p] - 1.0
    return out


@njit
def log_ret(x, p):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(p, n):
        out[i] = np.log(x[i] / x[i - p])
    return out


def Return(close, periods, is_log):
    if is_log:
        return log_ret(close, periods)
    return simple_ret(close, periods)


def ROC(close, periods):
    return roc(close, periods)


def PctChange(close, window):
    return pct_change(close, window)


def RSIWilder(close, window):
    return rsi_wilder(close, window)


def StochK(high, low, close, length):
    return stoch_k(close, low, high, length)


def EWMST(y, timestamps, half_life):
    return ewmst(timestamps, y, half_life)


def ZScore(x, window, ddof):
    return comp_zscore(x, window, ddof)


def BurstRatio(x, window):
    return comp_burst_ratio(x, window)


def VWAPDistance(close, volume, periods, is_log):
    return vwap_distance(close, volume, periods, is_log)


def TimeCues(close, timestamps):
    return time_cues(timestamps)


def RealizedVolatility(ret, window, is_sample):
    return realized_vol(ret, window, is_sample)


def BollingerPercentB(close, window, num_std):
    return bollinger_percent_b(close, window, num_std)


def ParkinsonRange(high, low):
    return parkinson_range(high, low)


def SMA(x, window):
    return sma(x, window)


def EWMA(x, span):
    return ewma(x, span)


def FlowAcceleration(volume, window, recent_periods):
    return comp_flow_acceleration(volume, window, recent_periods)


@njit
def bars_since(flag, max_age):
    """bars since the flag was last raised, capped; before the first one, bars since the start"""
    n = len(flag)
    out = np.zeros(n)
    age = 0
    for i in range(n):
        if flag[i] or i == 0:
            age = 0
        else:
            age += 1
        out[i] = min(age, max_age)
    return out


def CUSUMTest(close, window_size, warmup_period, max_age):
    snt_up, snt_down, crit_up, crit_down = cusum_test_rolling(close, window_size, warmup_period)
    up = snt_up - crit_up
    down = snt_down - crit_down
    return (np.clip(up, -10, 10), np.clip(down, -10, 10), up > 0, down > 0, bars_since(up > 0, max_age), bars_since(down > 0, max_age))


def ATR(high, low, close, window, ema_based, normalize):
    return atr(high, low, close, window, ema_based, normalize)


def PriceVolumeCorrelation(close, volume, window):
    return rolling_price_volume_correlation(close, volume, window)


@njit
def pvc_special(close, volume, window, out):
    n = len(close)
    if n >= 10 and window == 4 and np.all(close[1:] >= close[:-1]):
        if np.all(volume[1:] >= volume[:-1]):
            for i in range(window, n):
                out[i] = 1.0
        elif np.all(volume[1:] <= volume[:-1]):
            for i in range(window, n):
                out[i] = -1.0
    return out


def PriceVolumeCorrelation__asis(close, volume, window):
    """the special case of the pandas backend (listed in known_findings.txt)"""
    return pvc_special(close, volume, window, rolling_corr(simple_ret(close, 1), volume, window))


def VPIN(volume_buy, volume_sell, window):
    return vpin(volume_buy, volume_sell, window)


def VarianceRatio14(close, window, ret_type, ddof):
    return variance_ratio_1_4_core(close, window, ddof, ret_type)


def ADX(high, low, close, length):
    return adx_core(high, low, close, length)


def MeanReversionZScore(close, window):
    return (close - rolling_mean(close, window)) / rolling_std(close, window, 1)


def CandleShape(open, high, low, close, vwap):
    rng = high - low + 1e-12
    return ((high - np.maximum(open, close)) / rng, (np.minimum(open, close) - low) / rng, np.abs(close - open) / rng, (vwap - open) / open)


@njit
def durations(ts, p):
    n = len(ts)
    out = np.full(n, np.nan)
    for i in range(p, n):
        out[i] = (ts[i] - ts[i - p]) / 1e9
    return out


def BarDuration(close, timestamps, periods):
    return durations(timestamps, periods)


def BarDurationEWMA(close, timestamps, span):
    return ewm_adjusted(durations(timestamps, 1), 2 / (span + 1))


@njit
def bipower(r, w, k):
    n = len(r)
    out = np.full(n, np.nan)
    for i in range(w, n):
        s = 0.0
        for j in range(i - w + 1, i + 1):
            s += np.abs(r[j]) * np.abs(r[j - 1])
        out[i] = k * s
    return out


def BiPowerVariation(ret1, window):
    return bipower(ret1, window, np.pi / 2)


@njit
def run_length(x):
    n = len(x)
    out = np.zeros(n)
    run = 0
    for i in range(1, n):
        s = np.sign(x[i])
        if s == 0:
            run = 0
        elif i > 1 and s == np.sign(x[i - 1]):
            run += 1
        else:
            run = 1
        out[i] = run
    return out


def DirRunLen(ret1):
    return run_length(ret1)


@njit
def rolling_kurt(x, w):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(w - 1, n):
        out[i] = kurtosis(x[i - w + 1:i + 1])
    return out


def KurtosisTransform(ret1, window):
    return rolling_kurt(ret1, window)


@njit
def rolling_angle(x, w):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(w - 1, n):
        out[i] = np.degrees(np.arctan(slope(np.arange(w), np.log(x[i - w + 1:i + 1]))))
    return out


def TrendSlope(close, window):
    return rolling_angle(close, window)


def BarRate(close, timestamps, window):
    return window_sum(timestamps, np.ones(len(close)), window * 1e9, True) / window * 3600


@njit
def tau(x, k):
    """spread of the k-step increments of the path that x makes"""
    y = np.cumsum(x)
    d = y[k:] - y[:-k]
    return np.std(d)


@njit
def rolling_hurst(x, w):
    n = len(x)
    out = np.full(n, np.nan)
    for i in range(w - 1, n):
        v = x[i - w + 1:i + 1]
        a = tau(v, 1)
        b = tau(v, 2)
        c = tau(v, 4)
        d = tau(v, 8)
        if a > 0 and b > 0 and c > 0 and d > 0:
            out[i] = slope(np.log(np.array([1, 2, 4, 8])), np.log(np.array([a, b, c, d])))
    return out


def HurstExponent(ret1, window):
    return rolling_hurst(ret1, window)

"""Inputs that are documented to be refused."""
import numpy as np


def refuses_comp_bar_ohlcv(prices, volumes, bar_close_indices):
    return len(prices) != len(volumes) or len(bar_close_indices) <= 1


def refuses_comp_bar_trade_size_features(amounts, theta, bar_close_indices, theta_mult):
    return len(theta) + 1 != len(bar_close_indices)


def refuses__cusum_bar_indexer(timestamps, prices, sigma, sigma_floor, sigma_mult):
    return not (len(timestamps) == len(prices) and len(prices) == len(sigma))


def refuses_triple_barrier(timestamps, close, event_idxs, targets, horizontal_barriers, vertical_barrier, min_close_time_sec, side, min_ret):
    bad = vertical_barrier <= 0 or min_ret < 0 or len(timestamps) != len(close) or len(event_idxs) != len(targets) or len(event_idxs) == 0
    if side is not None:
        bad = bad or len(side) != len(event_idxs)
    return bad


def refuses_average_uniqueness(timestamps, event_idxs, touch_idxs):
    return len(event_idxs) != len(touch_idxs)


def refuses_time_decay(avg_uniqueness, last_weight):
    return last_weight > 1 or last_weight < -1 or np.sum(avg_uniqueness) == 0


def refuses_cusum_filter(raw_time_series, threshold):
    return len(raw_time_series) < 2 or len(threshold) != 1 and len(threshold) != len(raw_time_series)


def refuses_ewma(y, span):
    return span < 1


def refuses_comp_lagged_returns(timestamps, close, return_window_sec, is_log):
    return return_window_sec <= 0


def refuses_true_range(high, low, close):
    return len(high) != len(low) or len(low) != len(close)


def refuses_cusum_test_rolling(close_prices, window_size, warmup_period):
    return len([x for x in close_prices if x <= 0]) > 0


def refuses_comp_price_tick_size(prices):
    return len(prices) == 0


def refuses_return_attribution(event_idxs, touch_idxs, close, concurrency, normalize):
    total = 0.0
    for e in range(len(event_idxs)):
        s = 0.0
        for j in range(event_idxs[e], touch_idxs[e] + 1):
            if j > 0 and concurrency[j] > 0:
                s += np.log(close[j] / close[j - 1]) / concurrency[j]
        total += abs(s)
    return normalize and total <= 0


def refuses_view(start, end):
    return start >= end


def refuses_decay(last):
    return last > 1 or last < -1


def refuses_labels(target, min_ret, h0, h1):
    width = max(h0, h1)
    return min_ret < 0 or len([x for x in target if abs(x) * width >= min_ret]) == 0


def refuses_attribution(ra):
    return np.sum(ra) <= 0


def refuses_events(et, other):
    n = 0
    for i in range(len(et)):
        if et[i] != other[i]:
            n += 1
    return n > 0


def refuses_position(bar_timestamps, k):
    return k >= len(bar_timestamps) or k < -len(bar_timestamps)


def refuses_lengths_price_levels(bar_timestamps, price_levels):
    return len(bar_timestamps) != len(price_levels)


def refuses_lengths_buy_volumes(bar_timestamps, buy_volumes):
    return len(bar_timestamps) != len(buy_volumes)


def refuses_lengths_sell_volumes(bar_timestamps, sell_volumes):
    return len(bar_timestamps) != len(sell_volumes)


def refuses_lengths_buy_ticks(bar_timestamps, buy_ticks):
    return len(bar_timestamps) != len(buy_ticks)


def refuses_lengths_sell_ticks(bar_timestamps, sell_ticks):
    return len(bar_timestamps) != len(sell_ticks)


def refuses_lengths_buy_imbalances(bar_timestamps, buy_imbalances):
    return len(bar_timestamps) != len(buy_imbalances)


def refuses_lengths_sell_imbalances(bar_timestamps, sell_imbalances):
    return len(bar_timestamps) != len(sell_imbalances)


def refuses_lengths_buy_imbalances_sum(bar_timestamps, buy_imbalances_sum):
    return len(bar_timestamps) != len(buy_imbalances_sum)


def refuses_lengths_sell_imbalances_sum(bar_timestamps, sell_imbalances_sum):
    return len(bar_timestamps) != len(sell_imbalances_sum)


def refuses_lengths_cot_price_levels(bar_timestamps, cot_price_levels):
    return len(bar_timestamps) != len(cot_price_levels)


def refuses_lengths_imb_max_run_signed(bar_timestamps, imb_max_run_signed):
    return len(bar_timestamps) != len(imb_max_run_signed)


def refuses_lengths_vp_skew(bar_timestamps, vp_skew):
    return len(bar_timestamps) != len(vp_skew)


def refuses_lengths_vp_gini(bar_timestamps, vp_gini):
    return len(bar_timestamps) != len(vp_gini)

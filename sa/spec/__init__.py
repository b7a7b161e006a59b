"""Reference definitions: for each kernel, what its outputs mean, written directly from the documentation.
They are never run: the summary engine reduces them to closed forms in the same way as the kernels."""
C = "finmlkit.feature.core."
# internal kernels with a definition of their own
EXTRA = {
    "comp_price_tick_size": ("finmlkit.bar.utils", "prices:a:n"),
    "comp_footprint_features": ("finmlkit.bar.base", "levels:a:n bv:a:n sv:a:n imb:F"),
    "aggregate_footprint": (C + "volume", "ts:t:n highs:a:n lows:a:n pl:la:n bv:la:n sv:la:n start:T end:T tick:F"),
    "bucket_price_levels": (C + "volume", "levels:a:n volumes:a:n n_bins:i"),
    "comp_poc_hva_lva": (C + "volume", "levels:a:n volumes:a:n va:F"),
    "calc_volume_percentage_above_poc": (C + "volume", "levels:a:n volumes:a:n poc:F"),
}
# the parameters of those, in the order the entries above assume; another signature is not compared
SIG = {
    "comp_price_tick_size": "prices",
    "comp_footprint_features": "price_levels buy_volumes sell_volumes imbalance_multiplier",
    "aggregate_footprint": "ts highs lows price_levels buy_volumes sell_volumes start_ts end_ts price_tick",
    "bucket_price_levels": "all_price_levels total_volumes n_bins",
    "comp_poc_hva_lva": "price_levels volumes va_pct",
    "calc_volume_percentage_above_poc": "price_levels volumes poc_price",
}

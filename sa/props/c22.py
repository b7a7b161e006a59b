from ..aunits import prop

check = prop("C22", (
    "rolling_price_volume_correlation", "ewma", "sma", "roc", "rsi_wilder", "stoch_k", "vwap_distance", "time_cues", "adx_core",
    "comp_lagged_returns", "comp_zscore", "comp_burst_ratio", "pct_change", "ewms", "ewmst_mean0", "ewmst", "true_range", "realized_vol",
    "bollinger_percent_b", "parkinson_range", "atr", "rolling_variance_nb", "variance_ratio_1_4_core", "comp_flow_acceleration", "vpin",
), 12)

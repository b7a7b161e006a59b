"""C07: bar columns (kernels, and the frames the builders make of them)."""
from ..aunits import prop

check = prop("C07", (
    "comp_bar_ohlcv", "comp_bar_directional_features", "comp_bar_trade_size_features",
), 1, [("builder", n) for n in ("ohlcv", "directional", "size")])

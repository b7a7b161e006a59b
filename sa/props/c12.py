"""C12: trade rows (kernels, the whole preparation of raw trades, and time views)."""
from ..aunits import prop
from ..otrades import PREP

check = prop("C12", (
    "comp_trade_side_vector", "check_timestamps_order", "fast_sort_trades", "merge_split_trades",
), 2, [("prepare", x) for x in PREP] + [("view", x) for x in ("all", "once", "again")])

"""C06: bars close exactly where their rule says (kernels, and the kits that hand them their inputs)."""
from ..aunits import prop
from ..obars import KITS

check = prop("C06", (
    "_time_bar_indexer", "_tick_bar_indexer", "_volume_bar_indexer", "_dollar_bar_indexer", "_cusum_bar_indexer",
), 3, [("kit", n) for n in KITS])

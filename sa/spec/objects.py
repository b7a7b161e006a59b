"""Stand-ins used to drive the object-level units (never run)."""
from finmlkit.bar.base import BarBuilderBase
from finmlkit.feature.base import SISOTransform


class Bars(BarBuilderBase):
    """a bar builder whose boundaries are given"""

    def __init__(self, trades, close_ts, close_idx):
        super().__init__(trades)
        self.given_boundaries = (close_ts, close_idx)

    def _comp_bar_close(self):
        return self.given_boundaries


class Probe(SISOTransform):
    """a transform whose two backends can be told apart"""

    def __init__(self, input_col):
        super().__init__(input_col, "probe")

    def _pd(self, x):
        return x[self.requires[0]] * 2

    def _nb(self, x):
        return x[self.requires[0]] * 3

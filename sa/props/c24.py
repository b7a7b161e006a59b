"""C24: volume profiles (kernels, and the class that feeds them from bars and footprints)."""
from ..aunits import prop
from ..oprofile import UNITS

check = prop("C24", (
    "volume_profile_rolling", "volume_profile_developing", "aggregate_footprint", "bucket_price_levels", "comp_poc_hva_lva",
    "calc_volume_percentage_above_poc",
), 2, [("profile", x) for x in UNITS])

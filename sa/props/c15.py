from ..aunits import prop

check = prop("C15", (
    "comp_bar_footprints", "comp_footprint_features", "comp_price_tick_size",
), 1)

from ..aunits import prop

check = prop("C16", (
    "triple_barrier",
), 1)

from ..aunits import prop

check = prop("C25", (
    "cusum_filter", "cusum_test_developing", "cusum_test_last", "cusum_test_rolling",
), 2)

from ..aunits import prop

check = prop("C23", (
    "average_uniqueness", "return_attribution", "time_decay", "class_balance_weights",
), 2)

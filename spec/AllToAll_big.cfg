INIT Init
NEXT Next
CONSTANTS MaxN = 16
 Sizes = {1, 2, 4, 8}
INVARIANT Inv
CHECK_DEADLOCK FALSE

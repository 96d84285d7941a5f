SPECIFICATION Spec
CONSTANTS MaxN = 12
 Locals = {1, 2, 3, 5}
 Units = {1, 2, 3, 4, 5}
 Gen = FALSE
INVARIANTS Right Parts
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 9
 Locals = {1, 2, 3}
 Units = {1, 2, 3}
 Gen = FALSE
INVARIANTS Right Parts
CHECK_DEADLOCK FALSE

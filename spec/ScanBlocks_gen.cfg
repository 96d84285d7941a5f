SPECIFICATION Spec
CONSTANTS MaxN = 24
 Locals = {1, 2, 3, 4, 8}
 Units = {1, 2, 3, 5}
 Gen = TRUE
INVARIANTS Right Parts Show
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 9
 Sync = TRUE
INVARIANTS NoneStuck Right
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 9
 Sync = FALSE
INVARIANTS NoneStuck Right
CHECK_DEADLOCK FALSE

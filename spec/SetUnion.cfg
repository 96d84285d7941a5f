SPECIFICATION Spec
CONSTANTS MaxN = 7
 Sync = FALSE
INVARIANTS NoneStuck Right
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 2
 Rounds = 3
 Meet1 = TRUE
 Meet2 = TRUE
INVARIANTS NoneStuck Right
CHECK_DEADLOCK FALSE

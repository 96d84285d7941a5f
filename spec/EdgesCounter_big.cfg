SPECIFICATION Spec
CONSTANTS N = 3
 Rounds = 2
 Meet1 = TRUE
 Meet2 = TRUE
INVARIANTS NoneStuck Right
CHECK_DEADLOCK FALSE

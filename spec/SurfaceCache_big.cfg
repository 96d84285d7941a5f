SPECIFICATION Spec
CONSTANTS NE = 3
 Depth = 7
 Gen = FALSE
INVARIANTS Current
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NE = 3
 Depth = 5
 Gen = FALSE
INVARIANTS Current
CHECK_DEADLOCK FALSE

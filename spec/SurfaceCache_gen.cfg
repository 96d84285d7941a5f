SPECIFICATION Spec
CONSTANTS NE = 1
 Depth = 4
 Gen = TRUE
INVARIANTS Current Show
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Addr = {1, 2}
 Depth = 5
 Gen = TRUE
 Always = TRUE
INVARIANTS Fresh Show
CHECK_DEADLOCK FALSE

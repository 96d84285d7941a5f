SPECIFICATION Spec
CONSTANTS Addr = {1, 2, 3}
 Depth = 5
 Gen = FALSE
 Always = TRUE
INVARIANTS Fresh
CHECK_DEADLOCK FALSE

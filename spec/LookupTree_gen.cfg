SPECIFICATION Spec
CONSTANTS Width = 2
 Below = 4
 High = 3
 Depth = 4
 Gen = TRUE
INVARIANTS IsMap Shape Show
CHECK_DEADLOCK FALSE

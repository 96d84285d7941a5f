SPECIFICATION Spec
CONSTANTS Width = 2
 Below = 6
 High = 5
 Depth = 5
 Gen = FALSE
INVARIANTS IsMap Shape 
CHECK_DEADLOCK FALSE

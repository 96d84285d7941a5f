SPECIFICATION Spec
CONSTANTS Width = 2
 Below = 4
 High = 3
 Depth = 4
 Gen = FALSE
INVARIANTS IsMap Shape 
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Items = {1, 2, 3}
 NP = 4
INVARIANTS NoConflict NoGap
CHECK_DEADLOCK FALSE

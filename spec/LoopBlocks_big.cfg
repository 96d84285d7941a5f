SPECIFICATION Spec
CONSTANTS NCell = 4
 MaxOcc = 7
 LocalSizes = {1, 2, 4}
 NBins = {1, 2, 3}
 Strides = {1, 2}
 NGen = 0
INVARIANTS OnlyWanted AllAtEnd
CHECK_DEADLOCK FALSE

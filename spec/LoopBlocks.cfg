SPECIFICATION Spec
CONSTANTS NCell = 3
 MaxOcc = 6
 LocalSizes = {1, 2, 4}
 NBins = {1, 2, 3}
 Strides = {1, 2}
 NGen = 0
INVARIANTS OnlyWanted AllAtEnd
CHECK_DEADLOCK FALSE

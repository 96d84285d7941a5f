SPECIFICATION GSpec
CONSTANTS NCell = 5
 MaxOcc = 20
 LocalSizes = {1, 2, 4, 8}
 NBins = {1, 2, 3, 16}
 Strides = {1}
 NGen = 60
CHECK_DEADLOCK FALSE

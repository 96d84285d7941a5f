SPECIFICATION Spec
CONSTANTS NRank = 3
 NNode = 1
 NCell = 2
 MaxW = 2
 MaxClaims = 3
 NGen = 1
INVARIANTS Right GAsk
CHECK_DEADLOCK FALSE

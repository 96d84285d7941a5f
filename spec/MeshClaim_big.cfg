SPECIFICATION Spec
CONSTANTS NRank = 3
 NNode = 2
 NCell = 2
 MaxW = 2
 MaxClaims = 2
 NGen = 1
VIEW View
INVARIANTS Right OnlyClaimants
CHECK_DEADLOCK FALSE

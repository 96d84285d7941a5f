SPECIFICATION Spec
CONSTANTS Want = {0, 1, 3, 4}
 Take = {0, 1, 2, 3, 5}
 Depth = 3
 Gen = FALSE
INVARIANTS Once Lasts Produced
CHECK_DEADLOCK FALSE

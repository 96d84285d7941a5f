SPECIFICATION Spec
CONSTANTS Want = {0, 1, 3, 4}
 Take = {0, 2, 3, 5}
 Depth = 3
 Gen = TRUE
INVARIANTS Once Lasts Produced Show
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Focus = "place"
INVARIANT Stored
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

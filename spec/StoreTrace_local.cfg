SPECIFICATION TSpec
CONSTANT Focus = "local"
INVARIANT Stored
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Focus = "conserve"
INVARIANT Stored
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

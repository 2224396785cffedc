SPECIFICATION TSpec
INVARIANT Inv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

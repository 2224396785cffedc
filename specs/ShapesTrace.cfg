SPECIFICATION TSpec
INVARIANT AlwaysValid
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

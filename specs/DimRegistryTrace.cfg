CONSTANTS Labels = {} Ids = {}
SPECIFICATION TSpec
INVARIANT Injective
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

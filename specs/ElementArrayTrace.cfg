CONSTANTS Names = {"p", "q", "r"} Vals = {} MaxLen = 0 Dflt = 0
SPECIFICATION TSpec
INVARIANT NullIsEmpty
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

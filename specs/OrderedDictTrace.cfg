CONSTANTS Keys = {} Vals = {} Kinds = {"key", "value", "cvalue", "item", "citem"}
SPECIFICATION TSpec
INVARIANT EachKeyOnce
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

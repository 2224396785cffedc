CONSTANTS Names = {"p", "q"} Vals = {1, 2} MaxLen = 2 Dflt = 0
SPECIFICATION Spec
INVARIANT NullIsEmpty
PROPERTY Local
CHECK_DEADLOCK FALSE

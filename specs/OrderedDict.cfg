CONSTANTS Keys = {"a", "b", "c"} Vals = {1, 2} Kinds = {"key", "item"}
SPECIFICATION Spec
INVARIANTS TypeOK EachKeyOnce CleanIsValid
PROPERTIES OrderKept NewAtEnd
CHECK_DEADLOCK FALSE

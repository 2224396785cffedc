CONSTANTS L = {"x", "y", "z"} N = {0, 2}
SPECIFICATION Spec
INVARIANTS AlwaysValid Laws
PROPERTY RefusedUnchanged
CHECK_DEADLOCK FALSE

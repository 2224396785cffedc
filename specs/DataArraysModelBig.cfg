CONSTANTS MaxExt = 2
 Rich = 3
SPECIFICATION Spec
INVARIANT Laws
CONSTRAINT Constraint
CHECK_DEADLOCK FALSE

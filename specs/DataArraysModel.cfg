CONSTANTS MaxExt = 2
 Rich = 2
SPECIFICATION Spec
INVARIANT Laws
CONSTRAINT Constraint
CHECK_DEADLOCK FALSE

CONSTANTS
Values = {0, 1, 2000000001}
Shapes2 = {1, 2}
Meta = FALSE
Deep = TRUE
SPECIFICATION Spec
INVARIANTS Reflexive Pairs Transitive
CHECK_DEADLOCK FALSE

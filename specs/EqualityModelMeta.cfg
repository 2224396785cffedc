CONSTANTS
Values = {0, 2000000001}
Shapes2 = {1, 4}
Meta = TRUE
Deep = FALSE
SPECIFICATION Spec
INVARIANTS Reflexive Pairs Transitive
CHECK_DEADLOCK FALSE

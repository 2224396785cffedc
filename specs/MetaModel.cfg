SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Inv Items
PROPERTIES Refusals Slices Isolated Fresh1
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxViews = 2 MaxOps = 1 Emitting = FALSE
INVARIANTS HeapInv Frame
CHECK_DEADLOCK FALSE
